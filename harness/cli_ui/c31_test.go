package cli

import (
	"fmt"
	"path/filepath"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
	"zz.local/zz/vtime"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	vlib.Register("C31.display", func(r *vlib.R) {
		vtime.Ticks = 3
		zzs.EnvFree = true
		ck := func(x *run.Res) string {
			if len(x.Races) > 0 {
				return "data race: " + strings.Join(x.Races, "; ")
			}
			return ""
		}
		each := func(name string, f osmref.File, ws []int, as []act, s func(w int) run.Sweep) {
			for _, v := range variants() {
				for _, w := range ws {
					for _, a := range as {
						d := fmt.Sprintf("%v on %s with %d workers, the display on and %s", v, name, w, a.name)
						if !run.Mine(r, d) || r.Stop() || r.Late(d) {
							continue
						}
						r.Begin(d)
						e, bad := prepare(r, f)
						if bad != "" {
							r.Fail("prepare "+name, bad, "", nil)
							return
						}
						var s0 *screen
						run.Prio(r, d, s(w), shown(e.one(v.cmd, e.args(v.cmd, w, v.extra...)), a, &s0, w, len(f)), ck)
					}
				}
			}
		}
		// what is shown changes from pass to pass
		for _, a := range acts() {
			d := fmt.Sprintf("the display alone, 3 passes and %s", a.name)
			if !run.Mine(r, d) || r.Stop() || r.Late(d) {
				continue
			}
			r.Begin(d)
			dir := filepath.Join(r.Scratch, "d")
			run.Fresh(dir, nil)
			var s0 *screen
			run.Prio(r, d, run.Sweep{Threads: 8, Changes: 1, Stride: r.Pick(4, 1)}, shown(func(o run.Opt) *run.Res {
				return run.Func(r, dir, o, func() { alone(3) }, []string{"alone"})
			}, a, &s0, 0, 0), ck)
		}
		passes(r, acts(), func(d string, one run.One, _ string, a act, w int) {
			var s0 *screen
			run.Prio(r, d, run.Sweep{Threads: w + 8, Bases: []int{0, 1, 3, 5, 7}, Changes: 1, Stride: r.Pick(40, 4)}, shown(one, a, &s0, w, 4), ck)
		})
		each("multi3", run.Multi(3, true), []int{2}, acts(), func(w int) run.Sweep {
			return run.Sweep{Threads: 10, Bases: bases(r), Changes: 1, Stride: r.Pick(24, 1)}
		})
	})
}

// passes runs fn for rewritenodes over an index that takes two passes.
func passes(r *vlib.R, as []act, fn func(d string, one run.One, ref string, a act, w int)) {
	for _, w := range []int{1, 2} {
		for _, a := range as {
			d := fmt.Sprintf("rewritenodes in 2 passes with %d workers, the display on and %s", w, a.name)
			if !run.Mine(r, d) || r.Stop() || r.Late(d) {
				continue
			}
			r.Begin(d)
			n := 131072 + 5
			f, _ := bigIndex(n)
			dir := r.Scratch + "/d"
			nix, _, bad := buildNodes(r, dir, f)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				return
			}
			run.Fresh(dir, map[string][]byte{"in.pbf": smallOver(n).Encode(), "n.idx": []byte(nix)})
			args := []string{"-i", dir + "/in.pbf", "-x", dir + "/n.idx", "-o", dir + "/out", "-m", "1", "-w", fmt.Sprint(w)}
			one := func(o run.Opt) *run.Res { return run.Cmd(r, dir, o, "rewritenodes", args...) }
			ref := one(run.Opt{Gentle: true})
			if b := ref.Bad(); b != "" {
				r.Fail(d+" reference", b, "", nil)
				continue
			}
			fn(d, one, ref.Files["out"], a, w)
		}
	}
}

func bases(r *vlib.R) []int {
	if r.Thorough() {
		return nil
	}
	return []int{0, 1, 2, 3, 5, 7, 8}
}
