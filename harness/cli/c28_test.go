package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// lengthFile has something of length (or count) n of one kind.
func lengthFile(kind string, n int) osmref.File {
	s := strings.Repeat("x", n)
	var rel []int64
	for i := 0; i < n; i++ {
		rel = append(rel, int64(i%3+1))
	}
	near := osmref.Group{Nodes: []osmref.Node{run.N(1, 1, 2, "k", "v"), run.N(2, 3, 4, "k", "v")}, Ways: []osmref.Way{run.W(1, 1, 2)}, Rels: []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 1, Role: "r"}}}}}
	b := run.Data()
	switch kind {
	case "node tag value":
		b.Groups = []osmref.Group{{Nodes: []osmref.Node{run.N(1, 1, 2, "k", s), run.N(2, 3, 4, "k", "v")}}, {Ways: []osmref.Way{run.W(1, 1, 2, 9)}}}
	case "way tag key":
		b.Groups = []osmref.Group{{Ways: []osmref.Way{{ID: 1, Refs: []int64{1, 2, 9}, Tags: run.Tags("y"+s, "v")}, run.W(2, 2)}}}
	case "role":
		b.Groups = []osmref.Group{{Ways: []osmref.Way{run.W(1, 1)}}, {Rels: []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 1, Role: s}, {Type: 0, ID: 2, Role: "b"}}}}}}
	case "refs":
		b.Groups = []osmref.Group{{Ways: []osmref.Way{run.W(1, rel...), run.W(2, 3)}}}
	case "far refs": // ten bytes each
		w := run.W(1)
		for i := 0; i < n; i++ {
			w.Refs = append(w.Refs, []int64{-1 << 63, 1<<63 - 1}[i%2])
		}
		b.Groups = []osmref.Group{{Ways: []osmref.Way{w, run.W(2, 3)}}}
	case "members":
		x := osmref.Rel{ID: 1}
		for i := 0; i < n; i++ {
			x.Members = append(x.Members, osmref.Member{Type: i % 3, ID: int64(i*i*31 + 1), Role: []string{"", "outer"}[i%2]})
		}
		b.Groups = []osmref.Group{{Ways: []osmref.Way{run.W(1, 1)}}, {Rels: []osmref.Rel{x, {ID: 2}}}}
	case "way tags":
		w := run.W(1, 1, 2)
		for i := 0; i < n; i++ {
			w.Tags = append(w.Tags, osmref.KV{K: fmt.Sprint("k", i), V: fmt.Sprint("v", i%5)})
		}
		b.Groups = []osmref.Group{{Ways: []osmref.Way{w, run.W(2, 3)}}}
	case "relation tags":
		x := osmref.Rel{ID: 1}
		for i := 0; i < n; i++ {
			x.Tags = append(x.Tags, osmref.KV{K: fmt.Sprint("k", i), V: fmt.Sprint("v", i%5)})
		}
		b.Groups = []osmref.Group{{Ways: []osmref.Way{run.W(1, 1)}}, {Rels: []osmref.Rel{x, {ID: 2}}}}
	case "nodes":
		g := osmref.Group{}
		for i := 0; i < n; i++ {
			g.Nodes = append(g.Nodes, run.N(int64(i+1), int64(i%2)*100, int64(i%3)*70, "k", "v"))
		}
		b.Groups = []osmref.Group{g, {Ways: []osmref.Way{run.W(1, 1, 2, int64(n), int64(n+1))}}}
	case "far nodes": // five bytes for each coordinate, several for each id
		g := osmref.Group{}
		for i := 0; i < n; i++ {
			g.Nodes = append(g.Nodes, run.N(int64(i)*300000+1, int64(i%2*2-1)*900000000, int64(i%2*2-1)*-1800000000, "k", "v"))
		}
		b.Groups = []osmref.Group{g, {Ways: []osmref.Way{run.W(1, 1, 300001, int64(n))}}}
	case "strings":
		g := osmref.Group{}
		for i := 0; i < n; i++ {
			g.Nodes = append(g.Nodes, run.N(int64(i+1), 1, 1, "k", fmt.Sprint("v", i)))
		}
		b.Groups = []osmref.Group{g, {Ways: []osmref.Way{{ID: 1, Refs: []int64{1, int64(n)}, Tags: run.Tags("last", "one")}}}}
	case "ways":
		g := osmref.Group{}
		for i := 0; i < n; i++ {
			g.Ways = append(g.Ways, run.W(int64(2*i+1), int64(i%3+2), 1))
		}
		b.Groups = []osmref.Group{g}
	case "relations":
		g := osmref.Group{}
		for i := 0; i < n; i++ {
			g.Rels = append(g.Rels, osmref.Rel{ID: int64(2*i + 1), Members: []osmref.Member{{Type: 1, ID: int64(i + 1), Role: ""}}})
		}
		b.Groups = []osmref.Group{{Ways: []osmref.Way{run.W(1, 1)}}, g}
	case "groups":
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				b.Groups = append(b.Groups, osmref.Group{Nodes: []osmref.Node{run.N(int64(i+1), 1, 2, "k", "v")}})
			case 1:
				b.Groups = append(b.Groups, osmref.Group{Ways: []osmref.Way{run.W(int64(i+1), int64(i), 1)}})
			case 2:
				b.Groups = append(b.Groups, osmref.Group{Rels: []osmref.Rel{{ID: int64(i + 1), Members: []osmref.Member{{Type: 1, ID: int64(i), Role: "x"}}}}})
			}
		}
	case "header":
		return osmref.File{run.Header(s), run.Data(near)}
	}
	return osmref.File{b}
}

// mixedFile is a compressed block of n bytes that do not repeat themselves,
// with text, nodes, ways and relations behind each other.
func mixedFile(n int) osmref.File {
	x := uint32(n)*2 + 1
	next := func() uint32 { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x }
	text := make([]byte, n-2000)
	for i := range text {
		text[i] = byte('!' + next()%90)
	}
	third := len(text) / 3
	var nodes []osmref.Node
	var refs []int64
	for i := 0; i < 40; i++ {
		nodes = append(nodes, run.N(int64(i*3+1), int64(next()%1800000000)-900000000, int64(next()%3600000000)-1800000000, "name", fmt.Sprint("n", next())))
		refs = append(refs, int64(i*3+1), int64(next()%130))
	}
	b := run.Data(osmref.Group{Nodes: append(nodes, run.N(500, 1, 2, "long", string(text[:third])))}, osmref.Group{Ways: []osmref.Way{{ID: 1, Refs: refs, Tags: run.Tags("long", string(text[third:2*third]))}}},
		osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 1, Role: string(text[2*third:])}}}}})
	b.Zlib = true
	return osmref.File{run.Header("h"), b}
}

// whole runs every command that reads a file on f and checks everything it leaves.
func whole(r *vlib.R, d, dir string, f osmref.File, cmds string) bool {
	r.Begin(d)
	in := f.Encode()
	exp := f.Expect()
	locs := osmref.NodeLocs(exp)
	run.Fresh(dir, map[string][]byte{"in.pbf": in})
	bad := func(what, b string, x *run.Res) bool {
		r.Fail(d, what+": "+b, x.Stack, nil)
		return false
	}
	do := func(cmd, inf, out string, a ...string) (*run.Res, bool) {
		x := run.Cmd(r, dir, run.Opt{}, cmd, append([]string{"-i", dir + "/" + inf, "-o", dir + "/" + out, "-w", "1"}, a...)...)
		if b := x.Bad(); b != "" {
			return x, bad(cmd, b, x)
		}
		return x, true
	}
	if strings.Contains(cmds, "d") {
		if x, ok := do("decompress", "in.pbf", "dec"); !ok {
			return false
		} else if b := checkDecompress(in, x.Files["dec"]); b != "" {
			return bad("decompress", b, x)
		}
	}
	if strings.Contains(cmds, "f") {
		if x, ok := do("tagfilter", "in.pbf", "filt"); !ok {
			return false
		} else if b := checkFilter(f, in, x.Files["filt"]); b != "" {
			return bad("tagfilter", b, x)
		}
	}
	if !strings.Contains(cmds, "i") {
		r.Nontrivial(d)
		return true
	}
	x, ok := do("nodeindex", "in.pbf", "n.idx")
	if !ok {
		return false
	}
	got, err := osmref.ReadNodeIdx([]byte(x.Files["n.idx"]))
	if err != nil {
		return bad("nodeindex", err.Error(), x)
	}
	if a, b := locText(got), locText(locs); a != b {
		return bad("nodeindex", run.Diff(a, b), x)
	}
	if x, ok = do("rewritenodes", "in.pbf", "rw", "-x", dir+"/n.idx"); !ok {
		return false
	}
	if b := checkRewrite(in, f, locs, x.Files["rw"]); b != "" {
		return bad("rewritenodes", b, x)
	}
	want := map[int64][]int64{}
	for _, b := range rewritten(exp, locs) {
		for _, w := range b.Ways {
			want[w.ID] = osmref.Dedup(w.Refs)
		}
	}
	if x, ok = do("wayindex", "rw", "w.idx"); !ok {
		return false
	}
	_, wgot, err := osmref.ReadWayIdx([]byte(x.Files["w.idx"]))
	if err != nil {
		return bad("wayindex", err.Error(), x)
	}
	if a, b := waysText(wgot), waysText(want); a != b {
		return bad("wayindex", run.Diff(a, b), x)
	}
	for _, p := range []string{"1", "3"} {
		if x, ok = do("relindex", "in.pbf", "r.idx", "-x", dir+"/w.idx", "-p", p); !ok {
			return false
		}
		rgot, err := osmref.ReadRelIdx([]byte(x.Files["r.idx"]))
		if err != nil {
			return bad("relindex", err.Error(), x)
		}
		if a, b := osmref.RelIdxText(rgot), truth(f); a != b {
			return bad("relindex -p "+p, run.Diff(a, b), x)
		}
	}
	r.Nontrivial(d)
	return true
}

func window(a, b int) []int {
	var w []int
	for i := a; i <= b; i++ {
		w = append(w, i)
	}
	return w
}

func init() {
	vlib.Register("C28.lengths", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		type k struct {
			kind string
			unit int // bytes for each
			max  int
		}
		for _, x := range []k{{"node tag value", 1, 1 << 21}, {"way tag key", 1, 1 << 21}, {"role", 1, 1 << 21}, {"header", 1, 1 << 21}, {"refs", 1, 2000}, {"far refs", 10, 2000}, {"members", 4, 20000}, {"way tags", 1, 20000}, {"relation tags", 1, 20000},
			{"nodes", 3, 20000}, {"far nodes", 13, 20000}, {"strings", 1, 17000}, {"ways", 8, 3000}, {"relations", 8, 3000}, {"groups", 12, 2000}} {
			var ns []int
			if x.max >= 1<<20 || x.unit == 1 {
				ns = window(0, r.Pick(150, 300))
			} else {
				ns = window(0, 140/x.unit+2)
			}
			// sizes at which a length gets another byte: 2^14 and 2^21
			for _, c := range []int{1 << 14, 1 << 21} {
				lo, hi := c-r.Pick(40, 90), c+6
				if c > 1<<20 {
					lo, hi = c-r.Pick(30, 60), c+3
				}
				if x.unit > 1 {
					lo, hi = c/x.unit-r.Pick(6, 30), c/x.unit+r.Pick(2, 8)
				}
				if hi <= x.max+x.max/8 {
					ns = append(ns, window(lo, hi)...)
				}
			}
			switch x.kind {
			case "refs", "far refs":
				ns = append(ns, 1023, 1024, 1025, 1638, 1639, 1999, 2000)
			case "members":
				ns = append(ns, 8191, 8192, 8193, 16383, 16384, 16385, 20000)
			case "strings":
				ns = append(ns, 16380, 16381, 16382, 16383, 16384, 16385, 16386)
			case "nodes", "far nodes":
				ns = append(ns, 7999, 8000, 8001, 16000)
			}
			for _, n := range ns {
				d := fmt.Sprintf("%s: %d", x.kind, n)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.lengths") {
					continue
				}
				if !whole(r, d, dir, lengthFile(x.kind, n), "dfi") {
					return
				}
			}
		}
	})
	// some orders of priority, in which threads may also give way before they touch a file
	orders := func(bases ...int) (os []run.Opt) {
		for _, b := range bases {
			p := &zzs.Prio{Base: b, CancelAt: -1}
			p.Reset()
			os = append(os, run.Opt{Strategy: p, IO: true})
		}
		return os
	}
	// the buffer of relindex: relation indexes around a million words
	vlib.Register("C28.relindex", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		w2k, w1 := run.W(1), run.W(2, -3)
		for i := int64(0); i < 1999; i++ {
			w2k.Refs = append(w2k.Refs, -(1<<62)+i*i)
		}
		wf := osmref.File{run.Data(osmref.Group{Ways: []osmref.Way{w2k, w1, run.W(3)}})}
		var wix, bad string
		build := func() bool {
			if wix == "" {
				if wix, bad = buildWays(r, dir, wf, -1); bad != "" {
					r.Fail("way index", bad, "", nil)
				}
			}
			return bad == ""
		}
		// one relation of k long ways, and short ones to make up the exact size
		for _, total := range []int{1000000 - 3, 1000000 - 1, 1000000, 1000001, 1000002, 1000003, 1048575, 1048576, 1048577, 2000003, 3100000} {
			for form := 0; form < 3; form++ {
				d := fmt.Sprintf("relation index of %d words, form %d", total, form)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.relindex") {
					continue
				}
				if !build() {
					return
				}
				var rels []osmref.Rel
				words := 0
				add := func(k int) {
					x := osmref.Rel{ID: int64(len(rels) + 1)}
					words += 2
					for i := 0; i < k && words+2001 <= total; i++ {
						x.Members = append(x.Members, osmref.Member{Type: 1, ID: 1})
						words += 2001
					}
					rels = append(rels, x)
				}
				for words+2003 <= total {
					add([]int{1 << 20, 7, 1}[form])
				}
				for words < total { // relations without ways have two words, way 2 three, way 3 two
					x := osmref.Rel{ID: int64(len(rels) + 1)}
					words += 2
					if words+3 == total || words+5 == total {
						x.Members = append(x.Members, osmref.Member{Type: 1, ID: 2})
						words += 3
					}
					rels = append(rels, x)
				}
				rels = append(rels, osmref.Rel{ID: int64(len(rels) + 1), Members: []osmref.Member{{Type: 1, ID: 2}, {Type: 1, ID: 9}, {Type: 1, ID: 3}}}, osmref.Rel{ID: 1 << 40})
				relCase(r, d, dir, osmref.File{run.Data(osmref.Group{Rels: rels})}, wix, lookup(wf), []int{1, 2, 3}, nil, orders(0, 1, 4)...)
			}
		}
	})
	// the copy buffer of wayindex and nodeindex: locations around multiples of a megabyte
	vlib.Register("C28.copies", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, al := range []int{0, 3, 6} {
			for _, total := range []int{1<<20 - 8, 1 << 20, 1<<20 + 8, 2 << 20, 2<<20 + 8, 3<<20 - 8} {
				d := fmt.Sprintf("way index of about %d bytes, alignment %d", total, al)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.copies") {
					continue
				}
				// a way of n far refs takes 10n+1 bytes and is filled up to the next multiple
				var f osmref.File
				var g osmref.Group
				size, id := 0, int64(1)
				a := 1 << al
				put := func(n int) {
					w := run.W(id)
					for i := 0; i < n; i++ {
						w.Refs = append(w.Refs, []int64{-1 << 63, 1<<63 - 1}[i%2])
					}
					id++
					g.Ways = append(g.Ways, w)
					b := 10*n + 1
					size += b + a - b%a
					if len(g.Ways) == 40 {
						f = append(f, run.Data(g))
						g = osmref.Group{}
					}
				}
				for size+21000 < total {
					put(1500)
				}
				for size+10+1+a <= total {
					n := (total - size - 1 - a) / 10
					if n > 1500 {
						n = 1500
					}
					put(n)
				}
				for size+a <= total {
					put(0)
				}
				f = append(f, run.Data(g))
				wayCase(r, d, dir, f, al, []int{1, 2})
			}
		}
		// many short runs: the index part is what is long
		for _, n := range []int{1000, 65535, 65536, 65537, 140000} {
			d := fmt.Sprintf("%d runs", n)
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			g := osmref.Group{NoKV: true}
			for i := 0; i < n; i++ {
				g.Nodes = append(g.Nodes, osmref.Node{ID: int64(3*i + 1), Lat: int64(i), Lon: -int64(i)})
			}
			last := int64(3*n - 2)
			nodeCase(r, d, dir, osmref.File{run.Data(g)}, []int64{0, 1, 2, 3, 4, last - 3, last - 2, last - 1, last, last + 1, last + 2, 3*int64(n/2) + 1})
		}
		for _, n := range []int{65535, 65536, 65537, 140000} {
			d := fmt.Sprintf("%d ways", n)
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			var g osmref.Group
			for i := 0; i < n; i++ {
				g.Ways = append(g.Ways, run.W(int64(2*i+1), -int64(i)-1))
			}
			wayCase(r, d, dir, osmref.File{run.Data(g)}, -1, []int{1, 2})
		}
	})
	// blocks as large as the format allows
	vlib.Register("C28.blocks", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// nodes two apart at one place: three bytes each, two locations each
		for _, n := range []int{1 << 23, 1<<23 + 1, 11000000} {
			d := fmt.Sprintf("block of %d nodes two apart", n)
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			denseRun(r, d, dir, n)
		}
		type c struct {
			kind string
			n    int
			cmds string
		}
		for _, x := range []c{{"node tag value", 30 << 20, "dfi"}, {"far nodes", 1200000, "i"}, {"nodes", 2200000, "f"}, {"refs", 2000, "dfi"}, {"ways", 900000, "fi"}, {"members", 2200000, "fi"}, {"way tags", 100000, "dfi"}, {"relation tags", 720000, "f"}, {"relations", 900000, "fi"}, {"strings", 500000, "f"}, {"header", 60 << 10, "dfi"}} {
			d := fmt.Sprintf("block with %s: %d", x.kind, x.n)
			if !run.Mine(r, d) || r.Stop() || r.Late("C28.blocks") {
				continue
			}
			whole(r, d, dir, lengthFile(x.kind, x.n), x.cmds)
		}
		// compressed blocks whose text does not repeat itself (a reader that
		// loses its place or its window shows), around powers of two
		for _, n := range []int{1 << 15, 1 << 16, 1 << 20, 1 << 22, 1 << 23, 1 << 24, 1<<24 + 1<<23, 31 << 20} {
			for _, by := range []int{-3000, 0, 5000} {
				if n > 1<<22 && by != 5000 {
					continue
				}
				d := fmt.Sprintf("compressed block of about %d bytes", n+by)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.blocks") {
					continue
				}
				cmds := "dfi"
				whole(r, d, dir, mixedFile(n+by), cmds)
			}
		}
	})
	// more blobs than a byte, or 16 bits, can count
	vlib.Register("C28.blobs", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, n := range []int{255, 256, 257, 5000, 66000} {
			for _, cmds := range []string{"d", "f", "i"} {
				d := fmt.Sprintf("%d blobs, commands %s", n, cmds)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.blobs") {
					continue
				}
				var f osmref.File
				for i := 0; i < n; i++ {
					id := int64(i)
					f = append(f, run.Data(osmref.Group{Nodes: []osmref.Node{run.N(id*7+1, id, id, "k", "v")}, Ways: []osmref.Way{run.W(id+1, id*7+1, 1)}, Rels: []osmref.Rel{{ID: id + 1, Members: []osmref.Member{{Type: 1, ID: id/2 + 1}}}}}))
				}
				whole(r, d, dir, f, cmds)
			}
		}
	})
}

// denseRun indexes one block of n nodes with ids 1, 3, 5, ... and looks some up.
func denseRun(r *vlib.R, d, dir string, n int) {
	r.Begin(d)
	one := make([]byte, 0, n+10)
	zero := make([]byte, n)
	for i := 0; i < n; i++ {
		one = append(one, 4)
	}
	one[0] = 2
	zero[0] = 2
	dense := osmref.Field(nil, 1, one)
	dense = osmref.Field(dense, 8, zero)
	dense = osmref.Field(dense, 9, zero)
	pbk := osmref.Field(nil, 1, osmref.Field(nil, 1, nil))
	pbk = osmref.Field(pbk, 2, osmref.Field(nil, 2, dense))
	if len(pbk) > 32<<20 {
		r.Fail(d, "harness: block too large", "", nil)
		return
	}
	run.Fresh(dir, map[string][]byte{"in.pbf": osmref.EncodeBlob("OSMData", pbk, false)})
	x := run.Cmd(r, dir, run.Opt{}, "nodeindex", "-i", dir+"/in.pbf", "-o", dir+"/n.idx", "-w", "1")
	if b := x.Bad(); b != "" {
		r.Fail(d, "nodeindex: "+b, x.Stack, nil)
		return
	}
	nix := x.Files["n.idx"]
	x = nil
	want := osmref.Loc(100, 100)
	if bad := walkNodeIdx(nix, n, want); bad != "" {
		r.Fail(d, bad, "", nil)
		return
	}
	ids := []int64{0, 1, 2, 3, 1<<24 - 3, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 2, 1<<24 + 3, int64(2*n - 3), int64(2*n - 2), int64(2*n - 1), int64(2 * n), int64(2*n + 1)}
	locs := map[int64]int64{}
	for _, id := range ids {
		if id%2 == 1 && id <= int64(2*n-1) {
			locs[id] = want
		}
	}
	rewriteCase(r, d, dir, probe(ids), nix, locs)
}

// walkNodeIdx checks an index of ids 1, 3, ..., 2n-1 all at one place.
func walkNodeIdx(b string, n int, loc int64) string {
	at := func(i uint64) uint64 {
		v := uint64(0)
		for k := uint64(0); k < 8; k++ {
			v |= uint64(b[8*i+k]) << (8 * k)
		}
		return v
	}
	if at(0) != 1 {
		return "wrong version"
	}
	els := at(1)
	base := 2 + 2*els
	seen := 0
	next := uint64(1)
	for e := uint64(0); e < els; e++ {
		first, co := at(2+2*e), at(3+2*e)
		cnt, off := co&(1<<24-1), co>>24
		for j := uint64(0); j < cnt; j++ {
			l := int64(at(base + off + j))
			if l == 0 {
				continue
			}
			if first+j != next || l != loc {
				return fmt.Sprintf("id %d at %x, expected id %d at %x", first+j, uint64(l), next, uint64(loc))
			}
			next += 2
			seen++
		}
	}
	if seen != n {
		return fmt.Sprintf("%d nodes in the index, not %d", seen, n)
	}
	return ""
}

var scaleKinds = []string{"granularity", "date granularity", "latitude offset", "longitude offset"}

// scales is a file whose blocks have, one after the other, every small value
// of one of their numbers, and those around the powers of two and ten.
func scales(kind int) (f osmref.File) {
	var vs []int64
	for v := int64(1); v <= 1100; v++ {
		vs = append(vs, v)
	}
	for p := int64(2048); p < 1<<31; p *= 2 {
		vs = append(vs, p-1, p, p+1)
	}
	for p := int64(10000); p < 1<<31; p *= 10 {
		vs = append(vs, p-1, p, p+1)
	}
	vs = append(vs, 1<<31-1)
	for i, v := range vs {
		id := int64(3*i + 1)
		for _, s := range []int64{1, -1} {
			if s < 0 && (kind < 2 || i%3 > 0) {
				continue
			}
			b := run.Data(osmref.Group{Nodes: []osmref.Node{run.N(id, 1, -1, "name", fmt.Sprint("n", v*s))}}, osmref.Group{Ways: []osmref.Way{{ID: id, Refs: []int64{id}, Tags: run.Tags("highway", fmt.Sprint(v))}}})
			id++
			switch kind {
			case 0:
				b.Gran = int32(v)
			case 1:
				b.DateGran = int32(v)
			case 2:
				b.LatOff = s * v
			case 3:
				b.LonOff = s * v
			}
			f = append(f, b)
		}
	}
	return f
}
