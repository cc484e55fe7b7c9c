package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	// a cancelled build of a node index: what it leaves is the complete index or refused
	on := func(r *vlib.R, name string, f osmref.File, w int, stale bool, fn func(d string, one run.One, ck run.Check)) {
		d := fmt.Sprintf("nodeindex of %s with %d workers, old index %v", name, w, stale)
		if !run.Mine(r, d) || r.Stop() || r.Late(d) {
			return
		}
		r.Begin(d)
		e, bad := prepare(r, f)
		if bad != "" {
			r.Fail("prepare "+name, bad, "", nil)
			return
		}
		want, old := e.nix, ""
		if stale {
			old = e.nix + e.nix
		}
		one := func(o run.Opt) *run.Res {
			e.fresh()
			if stale {
				vlib.MustWrite(e.p("out"), []byte(old))
			}
			return run.Cmd(r, e.dir, o, "nodeindex", e.args("nodeindex", w)...)
		}
		seen := map[string]string{}
		probe := osmref.File{run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1, 2, 3)}})}.Encode()
		ck := func(x *run.Res) string {
			got, ok := x.Files["out"]
			if !x.Cancelled {
				if b := x.Bad(); b != "" {
					return b
				}
				if got != want {
					return "not the complete index: " + run.Diff(got, want)
				}
				return ""
			}
			if !ok || got == want || stale && got == old {
				return ""
			}
			acc, ok := seen[got]
			if !ok {
				for _, c := range [][]string{{"dumpnodeindex", "-i", e.p("n"), "-p"}, {"dumpnodeindex", "-i", e.p("n"), "-s"}, {"rewritenodes", "-i", e.p("in"), "-x", e.p("n"), "-o", e.p("o2"), "-w", "1"}} {
					run.Fresh(e.dir, map[string][]byte{"n": []byte(got), "in": probe})
					if y := run.Cmd(r, e.dir, run.Opt{}, c[0], c[1:]...); y.Bad() == "" {
						acc = c[0]
						break
					}
				}
				seen[got] = acc
				r.Count("distinct leftovers", 1)
			}
			if acc != "" {
				return fmt.Sprintf("the unfinished index (%d of %d bytes) is accepted by %s", len(got), len(want), acc)
			}
			return ""
		}
		fn(d, one, ck)
	}
	vlib.Register("C27.cancel", func(r *vlib.R) {
		for _, c := range run.Corpus() {
			for _, w := range []int{1, 2} {
				for _, stale := range []bool{false, true} {
					on(r, c.Name, c.F, w, stale, func(d string, one run.One, ck run.Check) {
						s := run.Sweep{Threads: w + 3, Cancel: 1}
						if w > 1 || stale {
							s.Bases = []int{0, 1, 4, 9}
						}
						run.Prio(r, d, s, one, ck)
					})
				}
			}
		}
		for w := 1; w <= r.Pick(1, 2); w++ {
			on(r, "multi2", run.Multi(2, false), w, false, func(d string, one run.One, ck run.Check) {
				run.DFS(r, d, true, 0, one, ck)
			})
		}
	})
}
