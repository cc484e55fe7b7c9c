package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// truth is the relation index the chain has to end with.
func truth(f osmref.File) string {
	exp := f.Expect()
	locs := osmref.NodeLocs(exp)
	m := map[int64][]int64{}
	for _, b := range rewritten(exp, locs) {
		for _, w := range b.Ways {
			m[w.ID] = osmref.Dedup(w.Refs)
		}
	}
	return osmref.RelIdxText(osmref.ExpectRelIdx(exp, func(id int64) ([]int64, bool) { l, ok := m[id]; return l, ok }))
}

type chain struct {
	dec, filter int // filter: 0 no, 1 before rewriting, 2 after it
	mem         string
	align       int
	passes      int
	workers     int
}

func (c chain) String() string {
	return fmt.Sprintf("decompress=%d tagfilter=%d memory=%s alignment=%d passes=%d workers=%d", c.dec, c.filter, c.mem, c.align, c.passes, c.workers)
}

// runChain runs the commands one after the other.
func runChain(r *vlib.R, d, dir string, f osmref.File, c chain) bool {
	d = d + ": " + c.String()
	if !run.MineIn(r, d) {
		return true
	}
	r.Begin(d)
	run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
	cur := "in.pbf"
	var x *run.Res
	step := func(out, cmd string, a ...string) bool {
		x = run.Cmd(r, dir, run.Opt{NoFiles: cmd != "relindex"}, cmd, append([]string{"-i", dir + "/" + cur, "-o", dir + "/" + out, "-w", fmt.Sprint(c.workers)}, a...)...)
		if b := x.Bad(); b != "" {
			r.Fail(d, cmd+": "+b, x.Stack, nil)
			return false
		}
		return true
	}
	if c.dec == 1 {
		if !step("dec.pbf", "decompress") {
			return false
		}
		cur = "dec.pbf"
	}
	if !step("n.idx", "nodeindex") {
		return false
	}
	if c.filter == 1 {
		if !step("filt.pbf", "tagfilter") {
			return false
		}
		cur = "filt.pbf"
	}
	a := []string{"-x", dir + "/n.idx"}
	if c.mem != "" {
		a = append(a, "-m", c.mem)
	}
	if !step("rw.pbf", "rewritenodes", a...) {
		return false
	}
	cur = "rw.pbf"
	if c.filter == 2 {
		if !step("filt.pbf", "tagfilter") {
			return false
		}
		cur = "filt.pbf"
	}
	if !step("w.idx", "wayindex", "-a", fmt.Sprint(c.align)) {
		return false
	}
	if !step("r.idx", "relindex", "-x", dir+"/w.idx", "-p", fmt.Sprint(c.passes)) {
		return false
	}
	got, err := osmref.ReadRelIdx([]byte(x.Files["r.idx"]))
	if err != nil {
		r.Fail(d, "the relation index is not consistent: "+err.Error(), "", nil)
		return false
	}
	if t, want := osmref.RelIdxText(got), truth(f); t != want {
		r.Fail(d, "wrong geometry: "+run.Diff(t, want), "got "+run.Short(t)+"\nwant "+run.Short(want), nil)
		return false
	}
	r.Nontrivial(d)
	return true
}

func init() {
	chains := func(all bool) []chain {
		var cs []chain
		for dec := 0; dec < 2; dec++ {
			for fi := 0; fi < 3; fi++ {
				for _, al := range []int{0, 3} {
					for _, p := range []int{1, 2, 5} {
						c := chain{dec, fi, []string{"", "1"}[(dec+fi)%2], al, p, 1 + (dec+p)%3}
						if all || (dec+fi+al+p)%4 == 0 {
							cs = append(cs, c)
						}
					}
				}
			}
		}
		return cs
	}
	vlib.Register("C26.maps", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// nodes 1, 2, 3: 1 and 3 at the same place; ways: every ref list up to length 3;
		// relations: every list of members up to length 2
		ns := []osmref.Node{run.N(1, 5, 6), run.N(2, -900000000, 1800000000, "name", "x"), run.N(3, 5, 6), run.N(4, 0, 0, "source", "y")}
		var lists [][]int64
		sequences(4, 3, func(s []int) {
			var l []int64
			for _, k := range s {
				l = append(l, int64(k+1))
			}
			lists = append(lists, l)
		})
		cs := chains(r.Thorough())
		n := 0
		for _, a := range lists {
			for _, b := range lists {
				if !r.Thorough() && len(a)+len(b) > 4 {
					continue
				}
				n++
				for lay := 0; lay < 3; lay++ {
					d := fmt.Sprintf("ways %v %v layout %d", a, b, lay)
					if !run.Mine(r, d) || r.Stop() || r.Late("C26.maps") {
						continue
					}
					ws := []osmref.Way{run.W(2, a...), run.W(3, b...)}
					rels := []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 2, Role: "outer"}, {Type: 1, ID: 3, Role: "inner"}}}, {ID: 2, Members: []osmref.Member{{Type: 1, ID: 3}, {Type: 0, ID: 2}, {Type: 1, ID: 1}, {Type: 1, ID: 2}, {Type: 2, ID: 3}, {Type: 1, ID: 3}}, Tags: run.Tags("source", "s")}, {ID: 7}}
					var f osmref.File
					switch lay {
					case 0:
						f = osmref.File{run.Header("h"), run.Data(osmref.Group{Nodes: ns}), run.Data(osmref.Group{Ways: ws}), run.Data(osmref.Group{Rels: rels})}
						f[1].Zlib, f[2].Zlib = true, true
					case 1:
						f = osmref.File{run.Data(osmref.Group{Nodes: ns[:2]}, osmref.Group{Ways: ws[:1]}, osmref.Group{Rels: rels[:1]}), run.Data(osmref.Group{Nodes: ns[2:]}, osmref.Group{Ways: ws[1:], Rels: rels[1:]})}
						f[1].Gran, f[1].LatOff, f[1].LonOff = 1000, 500, -100
					case 2:
						f = osmref.File{run.Data(osmref.Group{Rels: rels}), run.Header("x"), run.Data(osmref.Group{Ways: ws}), run.Data(), run.Data(osmref.Group{Nodes: ns})}
					}
					c := cs[n%len(cs)]
					if !runChain(r, d, dir, f, c) {
						return
					}
				}
			}
		}
	})
	// places next to each other: their packed locations are neighbouring numbers
	vlib.Register("C26.near", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		cs := chains(true)
		for oi, off := range [][2]int64{{0, 0}, {-10, 6}, {899999998, -1799999998}} {
			for gi, gran := range []int64{100, 50} {
				var ns []osmref.Node
				for la := int64(-1); la <= 1; la++ {
					for lo := int64(-2); lo <= 1; lo++ {
						ns = append(ns, run.N(int64(len(ns)+1), la, lo))
					}
				}
				// every ordered pair of nodes in one way, every pair as a way of its own
				var ws []osmref.Way
				var ms []osmref.Member
				for i := range ns {
					w := run.W(int64(len(ws) + 2))
					for j := range ns {
						w.Refs = append(w.Refs, int64(i+1), int64(j+1))
					}
					ws = append(ws, w, run.W(w.ID+1, int64(i+1), int64((i+1)%len(ns)+1)), run.W(w.ID+2, int64(i+1), int64((i+4)%len(ns)+1), int64(i+1)))
				}
				for _, w := range ws {
					ms = append(ms, osmref.Member{Type: 1, ID: w.ID})
				}
				for ci, c := range cs {
					if !r.Thorough() && (ci+oi+gi)%3 != 0 {
						continue
					}
					d := fmt.Sprintf("neighbours at %v, granularity %d", off, gran)
					if !run.Mine(r, d+": "+c.String()) || r.Stop() || r.Late("C26.near") {
						continue
					}
					b := run.Data(osmref.Group{Nodes: ns}, osmref.Group{Ways: ws}, osmref.Group{Rels: []osmref.Rel{{ID: 3, Members: ms}}})
					b.Gran, b.LatOff, b.LonOff = int32(gran), off[0]*100, off[1]*100
					if !runChain(r, d, dir, osmref.File{b}, c) {
						return
					}
				}
			}
		}
	})
	vlib.Register("C26.chains", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		fs := append(run.Corpus(), run.Named{Name: "multi4", F: run.Multi(4, true)})
		for _, f := range fs {
			for _, c := range chains(true) {
				d := "corpus " + f.Name
				if !run.Mine(r, d+": "+c.String()) || r.Stop() || r.Late("C26.chains") {
					continue
				}
				if !runChain(r, d, dir, f.F, c) {
					return
				}
			}
		}
	})
	// a map whose node index needs several passes
	vlib.Register("C26.big", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		n := 2*131072 + 9
		for i, c := range []chain{{0, 0, "1", 3, 1, 2}, {0, 1, "2", 0, 2, 1}, {1, 2, "1", 1, 3, 2}, {1, 0, "", 3, 2, 3}, {0, 2, "3", 2, 4, 1}} {
			d := fmt.Sprintf("big map %d", i)
			if !run.Mine(r, d+": "+c.String()) || r.Stop() || r.Late("C26.big") {
				continue
			}
			f, _ := bigIndex(n)
			so := smallOver(n)
			var ms []osmref.Member
			for _, b := range so {
				for _, g := range b.Groups {
					for _, w := range g.Ways {
						ms = append(ms, osmref.Member{Type: 1, ID: w.ID})
					}
				}
			}
			f = append(f, so...)
			f = append(f, run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 5, Members: ms}, {ID: 6, Members: ms[2:5]}}}))
			runChain(r, d, dir, f, c)
		}
	})
}
