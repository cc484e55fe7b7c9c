package cli

import (
	"fmt"
	"sort"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// probe is a file whose ways ask for every ordered pair of the ids, one after
// the other, so that every id is looked up after every other one.
func probe(ids []int64) osmref.File {
	w := osmref.Way{ID: 1}
	for _, a := range ids {
		for _, b := range ids {
			w.Refs = append(w.Refs, a, b)
		}
	}
	var f osmref.File
	f = append(f, run.Data(osmref.Group{Ways: []osmref.Way{w}}))
	// and each id with the initial hint
	var ws []osmref.Way
	for i, a := range ids {
		ws = append(ws, run.W(int64(i+2), a))
		if len(ws) == 3 || i+1 == len(ids) {
			f = append(f, run.Data(osmref.Group{Ways: ws}))
			ws = nil
		}
	}
	return f
}

// nodeCase builds the index of f and looks up every id, and some others.
func nodeCase(r *vlib.R, d, dir string, f osmref.File, probeIDs []int64) {
	r.Begin(d)
	in := f.Encode()
	run.Fresh(dir, map[string][]byte{"in.pbf": in})
	x := run.Cmd(r, dir, run.Opt{}, "nodeindex", "-i", dir+"/in.pbf", "-o", dir+"/n.idx", "-w", "1")
	if b := x.Bad(); b != "" {
		r.Fail(d, "nodeindex: "+b, x.Stack, nil)
		return
	}
	nix := x.Files["n.idx"]
	locs := osmref.NodeLocs(f.Expect())
	got, err := osmref.ReadNodeIdx([]byte(nix))
	if err != nil {
		r.Fail(d, "the index is not consistent: "+err.Error(), "", nil)
		return
	}
	if a, b := locText(got), locText(locs); a != b {
		r.Fail(d, "the index holds something else: "+run.Diff(a, b), "", nil)
		return
	}
	pf := probe(probeIDs)
	run.Fresh(dir, map[string][]byte{"in.pbf": pf.Encode(), "n.idx": []byte(nix)})
	y := run.Cmd(r, dir, run.Opt{}, "rewritenodes", "-i", dir+"/in.pbf", "-x", dir+"/n.idx", "-o", dir+"/out", "-w", "1")
	if b := y.Bad(); b != "" {
		r.Fail(d, "lookup: "+b, y.Stack, nil)
		return
	}
	if bad := checkRewrite(pf.Encode(), pf, locs, y.Files["out"]); bad != "" {
		r.Fail(d, "lookup: "+bad, "", nil)
		return
	}
	r.Nontrivial(d)
}

func locText(m map[int64]int64) string {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%x ", k, uint64(m[k]))
	}
	return b.String()
}

func pt(id int64) osmref.Node {
	return run.N(id, (id*7919)%900000000-3, -(id*104729)%1800000000+5)
}

func init() {
	// every set of ids below 8 (10), in every division over groups and blocks
	vlib.Register("C04.sets", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		n := r.Pick(7, 9)
		var ids []int64
		for i := -0; i <= n+2; i++ {
			ids = append(ids, int64(i))
		}
		for set := 0; set < 1<<n; set++ {
			var s []int64
			for i := 0; i < n; i++ {
				if set>>i&1 == 1 {
					s = append(s, int64(i))
				}
			}
			// between two nodes: same group, new group, new block, new block with one without nodes in between
			m := len(s) - 1
			if m < 0 {
				m = 0
			}
			total := 1
			for i := 0; i < m; i++ {
				total *= 3
			}
			for div := 0; div < total; div++ {
				if m > r.Pick(4, 6) { // larger sets: only divisions over blocks
					one := false
					for x := div; x > 0; x /= 3 {
						one = one || x%3 == 1
					}
					if one {
						continue
					}
				}
				d := fmt.Sprintf("ids %v division %d", s, div)
				if !run.Mine(r, d) || r.Stop() || r.Late("C04.sets") {
					continue
				}
				f := osmref.File{run.Header("h")}
				b := run.Data(osmref.Group{})
				x := div
				for i, id := range s {
					if i > 0 {
						switch x % 3 {
						case 1:
							b.Groups = append(b.Groups, osmref.Group{})
						case 2:
							f = append(f, b)
							if i%2 == 0 {
								f = append(f, run.Data(osmref.Group{Ways: []osmref.Way{run.W(1, 2)}}), run.Header(""))
							}
							b = run.Data(osmref.Group{})
						}
						x /= 3
					}
					g := &b.Groups[len(b.Groups)-1]
					g.Nodes = append(g.Nodes, pt(id))
				}
				f = append(f, b)
				nodeCase(r, d, dir, f, ids)
			}
		}
	})
	vlib.Register("C04.far", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// every list of gaps from these, from several first ids
		gaps := []int64{1, 2, 3, 255, 1 << 24, 1 << 31, 1 << 33}
		sequences(len(gaps), r.Pick(3, 4), func(s []int) {
			for _, first := range []int64{0, 1, 2, 1000, 1<<31 - 1, 1 << 32, 1 << 40} {
				for split := 0; split < 2; split++ {
					d := fmt.Sprintf("first id %d, gaps %v, split=%d", first, s, split)
					if !run.Mine(r, d) || r.Stop() || r.Late("C04.far") {
						continue
					}
					id := first
					f := osmref.File{}
					g := osmref.Group{Nodes: []osmref.Node{pt(id)}}
					ids := []int64{id, id + 1}
					if id > 0 {
						ids = append(ids, id-1)
					}
					for _, k := range s {
						id += gaps[k]
						if split == 1 {
							f = append(f, run.Data(g))
							g = osmref.Group{}
						}
						g.Nodes = append(g.Nodes, pt(id))
						ids = append(ids, id, id+1, id-1)
					}
					f = append(f, run.Data(g))
					nodeCase(r, d, dir, f, ids)
				}
			}
		})
	})
	vlib.Register("C04.coords", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		lat := []int64{-90000000000, -89999999900, -45000000000, -12345678900, -1000, -100, 0, 100, 1000, 12345678900, 89999999900, 90000000000}
		lon := []int64{-180000000000, -179999999900, -90000000000, -12345678900, -100, 0, 100, 98765432100, 179999999900, 180000000000}
		for _, g := range []int64{1, 10, 50, 100, 500, 1000, 10000, 100000} {
			for _, la := range []int64{0, 100, -100, 5000000, -700, 40000000000} {
				for _, lo := range []int64{0, -100, 300, 90000000000} {
					d := fmt.Sprintf("granularity %d offsets %d,%d", g, la, lo)
					if !run.Mine(r, d) || r.Stop() || r.Late("C04.coords") {
						continue
					}
					var ns []osmref.Node
					for _, a := range lat {
						for _, o := range lon {
							x := osmref.Node{ID: int64(len(ns) + 1), Lat: (a - la) / g, Lon: (o - lo) / g}
							// only positions that are multiples of 100 nanodegrees are exact
							if (la+g*x.Lat)%100 != 0 || (lo+g*x.Lon)%100 != 0 {
								x.Lat, x.Lon = (a-la)/g/100*100, (o-lo)/g/100*100
							}
							ns = append(ns, x)
						}
					}
					b := run.Data(osmref.Group{Nodes: ns[:50]}, osmref.Group{Nodes: ns[50:]})
					b.Gran, b.LatOff, b.LonOff = int32(g), la, lo
					nodeCase(r, d, dir, osmref.File{b, run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1000, 1, 1)}})}, []int64{1, 60, 120, 121, 1000})
				}
			}
		}
	})
	// positions between the hundreds of nanodegrees: the sum of offset and
	// scaled coordinate is what is divided, rounding towards zero
	vlib.Register("C04.fine", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		offs := []int64{0, 1, -1, 49, 50, -50, 51, 60, -60, 99, -99, 100, -100, 101, -101, 150, -150, 199, -199, 1<<31 - 7, -1<<31 + 7, 89999999901, -89999999901}
		co := []int64{0, 1, -1, 2, -2, 3, -3, 5, -7, 11, -13, 99, -99, 100, -100, 101, -101}
		for _, g := range []int64{1, 3, 7, 30, 49, 50, 51, 60, 70, 99, 100, 101, 150, 199, 250, 1000, 1001} {
			for _, la := range offs {
				for _, lo := range offs {
					if !r.Thorough() && la != lo && la != -lo && la != 0 && lo != 0 && lo != 60 && la != -99 {
						continue
					}
					d := fmt.Sprintf("granularity %d offsets %d,%d, between", g, la, lo)
					if !run.Mine(r, d) || r.Stop() || r.Late("C04.fine") {
						continue
					}
					var ns []osmref.Node
					for i, a := range co {
						ns = append(ns, osmref.Node{ID: int64(2 * len(ns)), Lat: a, Lon: co[(i*5+3)%len(co)]})
					}
					for _, a := range []int64{-1, 0, 1} {
						for _, o := range []int64{-1, 0, 1} {
							ns = append(ns, osmref.Node{ID: int64(2 * len(ns)), Lat: a, Lon: o})
						}
					}
					b := run.Data(osmref.Group{Nodes: ns[:9]}, osmref.Group{Nodes: ns[9:]})
					b.Gran, b.LatOff, b.LonOff = int32(g), la, lo
					nodeCase(r, d, dir, osmref.File{b, run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1000, 1, 1)}})}, []int64{0, 1, 2, 18, 50, 1000})
				}
			}
		}
	})
	vlib.Register("C04.corpus", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, c := range run.Corpus() {
			d := "corpus " + c.Name
			if !run.Mine(r, d) {
				continue
			}
			var ids []int64
			for _, b := range c.F.Expect() {
				for _, n := range b.Nodes {
					ids = append(ids, n.ID, n.ID+1)
				}
			}
			nodeCase(r, d, dir, c.F, append(ids, 0, 1, 1<<40))
		}
		// runs around the sizes where a count or a buffer could end
		for _, n := range []int{254, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 131071, 131072, 131073} {
			for gap := int64(1); gap <= 3; gap++ {
				d := fmt.Sprintf("run of %d nodes, gaps of %d", n, gap)
				if !run.Mine(r, d) || r.Stop() {
					continue
				}
				var ns []osmref.Node
				for i := 0; i < n; i++ {
					ns = append(ns, pt(5+gap*int64(i)))
				}
				last := 5 + gap*int64(n-1)
				nodeCase(r, d, dir, osmref.File{run.Data(osmref.Group{Nodes: ns, NoKV: true}), run.Data(osmref.Group{Nodes: []osmref.Node{pt(last + 1), pt(last + 50)}})}, []int64{4, 5, 6, 7, 8, last - 1, last, last + 1, last + 2, last + 3, last + 49, last + 50, last + 51})
			}
		}
	})
}
