// Package selfx tests the scheduler and the race mode with programs known to be right or wrong.
package selfx

import (
	"os"
	"strings"
	"testing"

	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/zzself"
	"github.com/squizzling/osmindex/internal/zzv/run"
	_ "github.com/squizzling/osmindex/internal/zzv/zzsites"
)

func TestZZ(t *testing.T) {
	run.TB = t
	rc := vlib.Main()
	if zzs.Race {
		os.Exit(rc)
	}
	if rc != 0 {
		os.Exit(rc)
	}
}

func init() {
	vlib.Register("SELF.race", func(r *vlib.R) {
		for _, c := range zzself.Cases() {
			if !run.Mine(r, c.Name) {
				continue
			}
			races := 0
			run.Prio(r, c.Name, run.Sweep{Threads: 4, Changes: 1, Last: true}, func(o run.Opt) *run.Res {
				return run.Func(r, r.Scratch, o, c.F, []string{"self"})
			}, func(x *run.Res) string {
				if b := x.Bad(); b != "" {
					return b
				}
				if len(x.Races) > 0 {
					races++
					if !c.Racy {
						return "false alarm: " + strings.Join(x.Races, "; ")
					}
				}
				return ""
			})
			if c.Racy && races == 0 {
				r.Fail(c.Name, "race not found", "", nil)
			}
		}
	})
	vlib.Register("SELF.maps", func(r *vlib.R) {
		if !run.Mine(r, "maps") {
			return
		}
		for st := 0; st < 2; st++ {
			seen := map[string]bool{}
			for p := 0; p < 48; p++ {
				x := run.Func(r, r.Scratch, run.Opt{Maps: p, MapStep: st}, func() {
					o, fine := zzself.MapForms()
					if !fine {
						panic("iteration went wrong")
					}
					seen[o] = true
				}, []string{"self"})
				r.Case("maps")
				r.Nontrivial("maps")
				if b := x.Bad(); b != "" {
					r.Fail("maps", b, "", nil)
				}
			}
			if len(seen) != 24 {
				r.Fail("maps", "orders missing", "", nil)
			}
		}
	})
	vlib.Register("SELF.dfs", func(r *vlib.R) {
		for _, c := range zzself.Cases() {
			if !run.Mine(r, c.Name) {
				continue
			}
			run.DFS(r, c.Name, false, 0, func(o run.Opt) *run.Res {
				return run.Func(r, r.Scratch, o, c.F, []string{"self"})
			}, func(x *run.Res) string { return x.Bad() })
		}
	})
}
