package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// raceless judges a run by what the race detector says of it.
func raceless(x *run.Res) string {
	if len(x.Races) > 0 {
		return "data race: " + strings.Join(x.Races, "; ")
	}
	return ""
}

func init() {
	readers := []variant{{cmd: "blockcount"}, {cmd: "entitycount"}, {cmd: "entityfind", extra: []string{"-e", "1", "-e", "2", "-e", "3"}}}
	each := func(r *vlib.R, name string, f osmref.File, vs []variant, ws []int, sw func(w int) run.Sweep) {
		for _, v := range vs {
			for _, w := range ws {
				d := fmt.Sprintf("%v on %s with %d workers", v, name, w)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				r.Begin(d)
				e, bad := prepare(r, f)
				if bad != "" {
					r.Fail("prepare "+name, bad, "", nil)
					return
				}
				args := e.args(v.cmd, w, v.extra...)
				if v.cmd == "blockcount" || v.cmd == "entitycount" || v.cmd == "entityfind" {
					args = append([]string{"-i", e.p("in.pbf"), "-w", fmt.Sprint(w)}, v.extra...)
				}
				run.Prio(r, d, sw(w), e.one(v.cmd, args), raceless)
			}
		}
	}
	all := append(variants(), readers...)
	vlib.Register("C31.sched", func(r *vlib.R) {
		for _, c := range run.Corpus() {
			each(r, c.Name, c.F, all, []int{1, 2, 5}, func(w int) run.Sweep {
				return run.Sweep{Bases: []int{0, 1, 2, 5}, Last: true}
			})
		}
	})
	vlib.Register("C31.changes", func(r *vlib.R) {
		each(r, "multi6", run.Multi(6, true), all, []int{2, 3}, func(w int) run.Sweep {
			return run.Sweep{Threads: w + 3, Changes: 1, Stride: r.Pick(8, 1)}
		})
	})
	vlib.Register("C31.cancel", func(r *vlib.R) {
		each(r, "multi6", run.Multi(6, true), all, []int{2}, func(w int) run.Sweep {
			return run.Sweep{Threads: w + 3, Cancel: r.Pick(4, 1)}
		})
	})
	// long enough for what is done once in a while
	vlib.Register("C31.long", func(r *vlib.R) {
		each(r, "multi70", run.Multi(70, false), all, []int{2, 3}, func(w int) run.Sweep {
			return run.Sweep{Threads: w + 3, Bases: []int{0, 1, 2, 3}, Changes: 1, Stride: r.Pick(97, 11)}
		})
	})
	// blocks on both sides of the size that buffers have
	vlib.Register("C31.sizes", func(r *vlib.R) {
		f := osmref.File{run.Header("h")}
		for i, n := range []int{10, 66000, 70000, 5, 90000, 65000, 131000, 3, 140000, 20} {
			id := int64(i)*10 + 1
			d := run.Data(osmref.Group{Nodes: []osmref.Node{run.N(id, id, id, "k", strings.Repeat("x", n)), run.N(id+1, 1, 1)}}, osmref.Group{Ways: []osmref.Way{run.W(id, id, id+1)}}, osmref.Group{Rels: []osmref.Rel{{ID: id, Members: []osmref.Member{{Type: 1, ID: id, Role: ""}}}}})
			d.Zlib = true
			f = append(f, d)
		}
		each(r, "growing blocks", f, all, []int{2, 3, 5}, func(w int) run.Sweep {
			return run.Sweep{Threads: w + 3, Last: true, Changes: 1, Points: r.Pick(4, 100)}
		})
	})
	vlib.Register("C31.passes", func(r *vlib.R) {
		n := 131072 + 5
		d := "rewritenodes in 2 passes"
		if run.Mine(r, d) && !r.Stop() {
			r.Begin(d)
			f, _ := bigIndex(n)
			dir := r.Scratch + "/d"
			nix, _, bad := buildNodes(r, dir, f)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				return
			}
			run.Fresh(dir, map[string][]byte{"in.pbf": smallOver(n).Encode(), "n.idx": []byte(nix)})
			for _, more := range [][]string{nil, {"-t", "2"}} {
				for w := 1; w <= 3; w++ {
					args := append([]string{"-i", dir + "/in.pbf", "-x", dir + "/n.idx", "-o", dir + "/out", "-m", "1", "-w", fmt.Sprint(w)}, more...)
					run.Prio(r, fmt.Sprintf("%s with %d workers %v", d, w, more), run.Sweep{Threads: w + 3, Bases: []int{0, 1, 3}, Changes: 1, Stride: r.Pick(60, 8)}, func(o run.Opt) *run.Res {
						o.NoFiles = true
						return run.Cmd(r, dir, o, "rewritenodes", args...)
					}, raceless)
				}
			}
		}
		wf := wayFile()
		for p := 1; p <= 4; p++ {
			d := fmt.Sprintf("relindex in %d passes", p)
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			r.Begin(d)
			dir := r.Scratch + "/d"
			wix, bad := buildWays(r, dir, wf, 1)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				continue
			}
			f := osmref.File{run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: members([]int{0, 1, 2, 3, 4, 5})}, {ID: 2}}}), run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 3, Members: members([]int{9, 8, 7, 3, 3})}}})}
			run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode(), "w.idx": []byte(wix)})
			args := []string{"-i", dir + "/in.pbf", "-x", dir + "/w.idx", "-o", dir + "/out", "-p", fmt.Sprint(p), "-w", "2"}
			for _, more := range [][]string{nil, {"-t", "2"}} {
				run.Prio(r, fmt.Sprint(d, more), run.Sweep{Threads: 5, Bases: []int{0, 1, 3}, Changes: 1, Stride: r.Pick(12, 2)}, func(o run.Opt) *run.Res {
					o.NoFiles = true
					return run.Cmd(r, dir, o, "relindex", append(args, more...)...)
				}, raceless)
			}
		}
	})
}
