package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// same says that a run leaves exactly the reference output.
func same(want string) run.Check {
	return func(x *run.Res) string {
		if b := x.Bad(); b != "" {
			return b
		}
		got, ok := x.Files["out"]
		if !ok {
			return "no output"
		}
		if got != want {
			return "the output depends on the schedule: " + run.Diff(got, want)
		}
		return ""
	}
}

type variant struct {
	cmd   string
	extra []string
}

func (v variant) String() string { return fmt.Sprint(v.cmd, v.extra) }

func variants() []variant {
	return []variant{{"decompress", nil}, {"tagfilter", nil}, {"nodeindex", nil}, {"rewritenodes", nil}, {"wayindex", nil}, {"relindex", nil}, {"relindex", []string{"-p", "2"}}}
}

// group runs f for the variants of a prepared file, one unit of work each.
func forVariants(r *vlib.R, name string, f osmref.File, vs []variant, ws []int, fn func(d string, e *env, v variant, w int, ref string)) {
	for _, v := range vs {
		for _, w := range ws {
			d := fmt.Sprintf("%v on %s with %d workers", v, name, w)
			if !run.Mine(r, d) {
				continue
			}
			if r.Late(d) || r.Stop() {
				return
			}
			r.Begin(d)
			e, bad := prepare(r, f)
			if bad != "" {
				r.Fail("prepare "+name, bad, "", nil)
				return
			}
			ref := e.one(v.cmd, e.args(v.cmd, 1, v.extra...))(run.Opt{Gentle: true})
			if b := ref.Bad(); b != "" {
				r.Fail(d+" reference", b, "", nil)
				return
			}
			fn(d, e, v, w, ref.Files["out"])
		}
	}
}

func init() {
	dfs := func(r *vlib.R, n, nv int, ws ...int) {
		forVariants(r, fmt.Sprintf("multi%d", n), run.Multi(n, false), variants()[:nv], ws, func(d string, e *env, v variant, w int, ref string) {
			run.DFS(r, d, false, 0, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), same(ref))
		})
	}
	vlib.Register("C02.dfs", func(r *vlib.R) {
		all := len(variants())
		dfs(r, 3, all-1, 2)
		dfs(r, 2, all, 2)
		dfs(r, 2, 1, 3)
		if r.Thorough() {
			dfs(r, 2, all, 3)
			dfs(r, 3, all, 2)
			dfs(r, 4, all-2, 2)
			dfs(r, 3, all-2, 3)
		}
	})
	vlib.Register("C02.prio", func(r *vlib.R) {
		sw := func(name string, f osmref.File, w int, s run.Sweep) {
			forVariants(r, name, f, variants(), []int{w}, func(d string, e *env, v variant, w int, ref string) {
				s.Threads = w + 4
				run.Prio(r, d, s, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), same(ref))
			})
		}
		sw("multi6", run.Multi(6, true), 3, run.Sweep{Changes: 1, Stride: r.Pick(3, 1), IO: true})
		for _, c := range run.Corpus() {
			for _, w := range []int{1, 2, 5, 16, 33} {
				sw(c.Name, c.F, w, run.Sweep{Bases: []int{0, 1, 2, 9}, Last: true})
			}
		}
		if r.Thorough() {
			sw("multi3", run.Multi(3, true), 2, run.Sweep{Changes: 2, Last: true})
		}
	})
	// every order in which the maps of a run may be iterated
	vlib.Register("C02.maps", func(r *vlib.R) {
		orders := func(name string, f osmref.File, n int, steps ...int) {
			forVariants(r, name, f, variants(), []int{1, 2}, func(d string, e *env, v variant, w int, ref string) {
				one := e.one(v.cmd, e.args(v.cmd, w, v.extra...))
				for _, st := range steps {
					for p := 0; p < n && !r.Stop(); p++ {
						dd := fmt.Sprintf("%s, map order %d+%d", d, p, st)
						o := func(o run.Opt) *run.Res { o.Maps, o.MapStep = p, st; return one(o) }
						run.Once(r, dd, dd, o, same(ref))
					}
				}
			})
		}
		// equally frequent, equally long, equal up to the last byte, one the beginning of the other
		ties := run.Tags("aa", "ab", "ac", "ba", "b", "a", "aaa", "aab")
		more := run.Tags("k1", "k2", "k2", "k1", "k3", "k4", "k4", "k3", "k5", "", "k6", "k7", "z", "yy")
		f := osmref.File{run.Header("hdr"), run.Data(
			osmref.Group{Nodes: []osmref.Node{{ID: 1, Lat: 1, Lon: 1, Tags: ties}, run.N(2, 2, 2), run.N(3, 3, 3)}}),
			run.Data(osmref.Group{Nodes: []osmref.Node{{ID: 5, Lat: 1, Lon: 1, Tags: more}, run.N(6, 2, 2, "x", "y", "w", "v", "u", "t")}}),
			run.Data(osmref.Group{Ways: []osmref.Way{{ID: 1, Refs: []int64{1, 2, 3}, Tags: ties}, {ID: 2, Refs: []int64{5, 1, 6}, Tags: more}}}),
			run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Tags: ties, Members: []osmref.Member{{Type: 1, ID: 1, Role: "ab"}, {Type: 1, ID: 2, Role: "ba"}, {Type: 0, ID: 1, Role: "ca"}}}, {ID: 2, Tags: more, Members: []osmref.Member{{Type: 1, ID: 2, Role: "k9"}}}}})}
		orders("ties", f, r.Pick(100, 2000), 0, 1, 2, 7, 30)
		for _, c := range run.Corpus() {
			orders(c.Name, c.F, r.Pick(4, 50), 0, 1)
		}
	})
	// blocks of one kind each, all compressed, in an order that makes workers skip
	// a block and go on with another
	kinds := func() osmref.File {
		f := osmref.File{run.Header("hdr"),
			run.Data(osmref.Group{Ways: []osmref.Way{{ID: 1, Refs: []int64{1, 2, 11}, Tags: run.Tags("highway", "x")}}}),
			run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1, 10, 20, "a", "b"), run.N(2, 30, 40), run.N(3, 31, 41, "name", "x")}}),
			run.Data(osmref.Group{Nodes: []osmref.Node{run.N(11, 50, 60, "c", "d"), run.N(13, 70, 80, "source", "x"), run.N(14, 71, 81, "k", "v")}}),
			run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 1, Role: "outer"}, {Type: 1, ID: 2, Role: ""}}}}}),
			run.Data(osmref.Group{Ways: []osmref.Way{run.W(2, 3, 13, 14), run.W(3, 1)}}),
		}
		for i := range f {
			f[i].Zlib = true
		}
		return f
	}
	vlib.Register("C02.stmt", func(r *vlib.R) {
		forVariants(r, "kinds", kinds(), variants(), []int{2}, func(d string, e *env, v variant, w int, ref string) {
			run.Prio(r, d, run.Sweep{Bases: []int{0, 1}, Stmts: r.Pick(3, 1)}, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), same(ref))
		})
		forVariants(r, "multi3", run.Multi(3, false), variants(), []int{2, 3}, func(d string, e *env, v variant, w int, ref string) {
			run.Prio(r, d, run.Sweep{Bases: []int{0, 1}, Stmts: r.Pick(5, 1)}, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), same(ref))
		})
	})
	// blocks of sizes at which buffers are made anew, batches end and copies are
	// divided, with many of them under way at a time
	sizes := func(r *vlib.R) {
		for _, x := range []struct {
			name string
			f    osmref.File
			n    int // change points
			ws   []int
		}{
			{"alternating sizes", sized(24, 30, 100, 3, 6600, 1, 6500, 20000, 2), 4, []int{4, 2}},
			{"blocks of a megabyte", sized(4, 60000, 70000, 50000), 2, []int{2, 4}},
			{"many small blocks", sized(150, 3, 4, 5, 1), 6, []int{3, 2}},
		} {
			for _, w := range x.ws[:r.Pick(1, 2)] {
				forVariants(r, x.name, x.f, variants(), []int{w}, func(d string, e *env, v variant, w int, ref string) {
					s := run.Sweep{Bases: []int{0, 1, 2, 3, 4, 9}, Last: true, IO: true, Changes: 1, Points: r.Pick(x.n, 10*x.n)}
					run.Prio(r, d, s, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), same(ref))
				})
			}
		}
	}
	vlib.Register("C02.sizes", sizes)
	vlib.Register("C28.orders", sizes)
}

// sized is a file of n blocks with as many nodes, and ways to go with them, as
// the counts say, again and again.
func sized(n int, counts ...int) osmref.File {
	var f osmref.File
	id := int64(1)
	for i := 0; i < n; i++ {
		c := int64(counts[i%len(counts)])
		var a, b, g osmref.Group
		var refs []int64
		for k := int64(0); k < c; k++ {
			x := run.N(id+k, id*7919%1000000+k*k%1013, -id*104729%1000000-k*k%1019)
			if k%7 == 0 {
				x.Tags = run.Tags("k", fmt.Sprint("v", k%50))
			}
			a.Nodes = append(a.Nodes, x)
			refs = append(refs, id+k)
			if len(refs) == 1500 || k == c-1 {
				b.Ways = append(b.Ways, osmref.Way{ID: id + k, Refs: refs, Tags: run.Tags("highway", fmt.Sprint(k%9))})
				refs = nil
			}
		}
		for k := range b.Ways {
			g.Rels = append(g.Rels, osmref.Rel{ID: b.Ways[k].ID, Members: []osmref.Member{{Type: 1, ID: b.Ways[k].ID, Role: "outer"}, {Type: 1, ID: 1, Role: "inner"}}})
		}
		id += c
		d := run.Data(a, b, g)
		d.Zlib = i%5 != 4
		f = append(f, d)
	}
	return append(osmref.File{run.Header("hdr")}, f...)
}
