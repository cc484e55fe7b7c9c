package cli

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// largeBlock is block k of a large file: one entity of every kind.
func largeBlock(k int) osmref.Block {
	if k == 0 {
		return run.Header("h")
	}
	id := int64(k)
	return run.Data(
		osmref.Group{Nodes: []osmref.Node{run.N(id, id*1000, id*-700, "k", fmt.Sprint("v", k))}},
		osmref.Group{Ways: []osmref.Way{{ID: id, Refs: []int64{id, id + 1, 3}, Tags: run.Tags("w", fmt.Sprint("x", k))}}},
		osmref.Group{Rels: []osmref.Rel{{ID: id, Members: []osmref.Member{{Type: 1, ID: id, Role: "r"}, {Type: 1, ID: 2}}}}},
	)
}

// steady is the output of a command without what is different in every run.
func steady(s string, sorted bool) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.Contains(l, "run time") {
			out = append(out, l)
		}
	}
	if sorted {
		sort.Strings(out)
	}
	return strings.Join(out, "\n")
}

func init() {
	// files of gigabytes: whatever a command makes of one is what it makes of
	// the same blocks without the holes
	vlib.Register("C28.large", func(r *vlib.R) {
		big := filepath.Join(r.Scratch, "large.pbf")
		defer os.Remove(big)
		sizes := [][]int64{{1<<31 - 1}, {1 << 31}, {1<<31 + 300}, {1<<32 - 1}, {1 << 32}, {1<<32 + 300}, {1 << 31, 1 << 32, 4600 << 20}, {1<<31 + 7, 1<<32 + 7, 1<<33 + 500}}
		for _, stops := range sizes {
			for _, cmd := range []string{"blockcount", "entitycount", "entityfind", "nodeindex", "tagfilter", "rewritenodes", "wayindex", "relindex"} {
				d := fmt.Sprintf("%s on a file of %d bytes (%d)", cmd, stops[len(stops)-1], stops)
				if !run.Mine(r, d) || r.Stop() || r.Late("C28.large") {
					continue
				}
				f, err := osmref.Sparse(big, largeBlock, 31<<20, stops...)
				if err != nil {
					panic(err)
				}
				e, bad := prepare(r, f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
				for _, w := range []int{1, 3} {
					var res [2]*run.Res
					for i, in := range []string{e.p("in.pbf"), big} {
						e.fresh()
						args := e.args(cmd, w)
						if cmd == "entityfind" {
							args = append(args, "-e", "2", "-e", fmt.Sprint(len(f)/2), "-e", fmt.Sprint(len(f)-1))
						}
						args[1] = in // -i
						r.Begin(d)
						x := run.Cmd(r, e.dir, run.Opt{Gentle: true}, cmd, args...)
						if b := x.Bad(); b != "" {
							r.Fail(d, b, x.Stack, nil)
							return
						}
						res[i] = x
					}
					sorted := cmd == "entityfind" && w > 1
					if a, b := steady(res[1].Stdout, sorted), steady(res[0].Stdout, sorted); a != b && (cmd != "rewritenodes" || w == 1) {
						r.Fail(d, fmt.Sprintf("w=%d: output: %s", w, run.Diff(a, b)), "", nil)
						break
					}
					a, b := res[1].Files["out"], res[0].Files["out"]
					if cmd == "tagfilter" || cmd == "rewritenodes" {
						pa, err1 := osmref.Parse([]byte(a))
						pb, err2 := osmref.Parse([]byte(b))
						if err1 != nil || err2 != nil {
							r.Fail(d, fmt.Sprint(err1, err2), "", nil)
							break
						}
						a, b = run.Text(pa), run.Text(pb)
					}
					if a != b {
						r.Fail(d, fmt.Sprintf("w=%d: %s", w, run.Diff(a, b)), "", nil)
						break
					}
					r.Nontrivial(fmt.Sprint(d, w))
				}
			}
		}
	})

	// a node index of gigabytes
	vlib.Register("C28.nodes", func(r *vlib.R) {
		dir := filepath.Join(r.Scratch, "d")
		big := filepath.Join(r.Scratch, "n.idx")
		defer os.Remove(big)
		small, _, bad := buildNodes(r, dir, osmref.File{run.Header("h"), run.Data(osmref.Group{Nodes: []osmref.Node{pt(1)}})})
		if bad != "" {
			r.Fail("a node index of one node", bad, "", nil)
			return
		}
		for _, shape := range []struct {
			runs  int
			count uint64
		}{{36, 1<<24 - 1}, {300, 1<<24 - 1}, {70, 1 << 23}, {9000, 65536}, {20, 3}} {
			d := fmt.Sprintf("node index of %d runs of %d", shape.runs, shape.count)
			if !run.MineIn(r, d) {
				continue
			}
			w, err := os.Create(big)
			if err != nil {
				panic(err)
			}
			total := uint64(shape.runs) * shape.count
			base := int64(16 + 16*shape.runs)
			first := func(i int) uint64 { return uint64(i)*(shape.count+5) + 1 }
			u := func(at int64, vs ...uint64) {
				var b []byte
				for _, v := range vs {
					b = binary.LittleEndian.AppendUint64(b, v)
				}
				if _, err := w.WriteAt(b, at); err != nil {
					panic(err)
				}
			}
			u(0, binary.LittleEndian.Uint64([]byte(small[:8])), uint64(shape.runs))
			locs := map[int64]int64{}
			put := func(at uint64) {
				if at >= total {
					return
				}
				l := osmref.Loc(int64(at%1700000000)*100, int64(at%1000)*-100)
				u(base+8*int64(at), uint64(l))
				locs[int64(first(int(at/shape.count))+at%shape.count)] = l
			}
			for i := 0; i < shape.runs; i++ {
				u(int64(16+16*i), first(i), uint64(i)*shape.count<<24|shape.count)
				if shape.runs < 1000 || i%500 < 2 {
					put(uint64(i) * shape.count)
					put(uint64(i)*shape.count + shape.count - 1)
				}
			}
			for p := uint(10); p < 34; p++ { // around powers of two, as counts and as bytes
				for o := -3; o <= 1; o++ {
					put(uint64(1<<p + o))
				}
			}
			if err := w.Truncate(base + 8*int64(total)); err != nil {
				panic(err)
			}
			w.Close()
			var g osmref.Group
			var ids []int64
			for id := range locs {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			seen := map[int64]bool{}
			for i, id := range ids {
				seen[id] = true
				wy := run.W(int64(i + 1))
				// from far away, with neighbours that are not in the index
				wy.Refs = []int64{ids[len(ids)-1-i], id, ids[len(ids)/2], id + 1<<40}
				for _, x := range []int64{id - 1, id + 1, id + 2} {
					if locs[x] == 0 {
						wy.Refs = append(wy.Refs, x)
					}
				}
				g.Ways = append(g.Ways, wy)
			}
			f := osmref.File{run.Header("h"), run.Data(g)}
			in := f.Encode()
			mib := int(total * 8 >> 20)
			for _, m := range []int{0, mib / 7, mib / 3, mib / 2, mib - 1, mib, mib + 1, 2048, 4096} {
				dd := fmt.Sprintf("%s -m %d", d, m)
				if !run.Mine(r, dd) || r.Stop() || r.Late("C28.nodes") {
					continue
				}
				if m == 0 && mib < 2 {
					dd += " in one pass"
				}
				r.Begin(dd)
				run.Fresh(dir, map[string][]byte{"in.pbf": in})
				a := []string{"-i", dir + "/in.pbf", "-x", big, "-o", dir + "/out", "-w", "2"}
				if m > 0 {
					a = append(a, "-m", fmt.Sprint(m))
				}
				x := run.Cmd(r, dir, run.Opt{Gentle: true}, "rewritenodes", a...)
				if b := x.Bad(); b != "" {
					r.Fail(dd, b, x.Stack, nil)
					continue
				}
				if b := checkRewrite(in, f, locs, x.Files["out"]); b != "" {
					r.Fail(dd, b, "", nil)
					continue
				}
				r.Nontrivial(dd)
			}
		}
	})

	// a way index of gigabytes
	vlib.Register("C28.ways", func(r *vlib.R) {
		dir := filepath.Join(r.Scratch, "d")
		big := filepath.Join(r.Scratch, "w.idx")
		defer os.Remove(big)
		for _, shape := range []struct {
			step  int64
			n     int
			shift uint
		}{{1<<28 + 8, 20, 3}, {1 << 29, 16, 0}, {1 << 28, 17, 0}, {1<<27 + 1, 40, 0}, {1 << 30, 12, 10}, {1 << 32, 9, 20}, {1 << 12, 300, 3}} {
			d := fmt.Sprintf("way index of %d ways %d bytes apart, alignment %d", shape.n, shape.step, shape.shift)
			if !run.MineIn(r, d) {
				continue
			}
			w, err := os.Create(big)
			if err != nil {
				panic(err)
			}
			locs := map[int64][]int64{}
			head := binary.LittleEndian.AppendUint64(nil, uint64(shape.n))
			head = binary.LittleEndian.AppendUint64(head, uint64(shape.shift))
			base := int64(16 + 8*shape.n)
			size := base
			var g osmref.Group
			for i := 0; i < shape.n; i++ {
				id := int64(3*i + 1)
				at := int64(i) * shape.step
				head = binary.LittleEndian.AppendUint64(head, uint64(id)<<33|uint64(at>>shape.shift))
				v := []int64{osmref.Loc(int64(i)*100, 5000), osmref.Loc(700, int64(i)*-900), int64(i + 1)}
				locs[id] = v
				var b []byte
				last := int64(0)
				for _, x := range v {
					b = osmref.Varint(b, osmref.Zig(x-last))
					last = x
				}
				b = append(b, 0)
				if _, err := w.WriteAt(b, base+at); err != nil {
					panic(err)
				}
				size = base + at + int64(len(b)+1<<shape.shift-1)>>shape.shift<<shape.shift
				g.Rels = append(g.Rels, osmref.Rel{ID: id, Members: []osmref.Member{{Type: 1, ID: id}, {Type: 1, ID: id + 1}, {Type: 1, ID: int64(3*(shape.n-1-i) + 1)}, {Type: 1, ID: id}}})
			}
			if _, err := w.WriteAt(head, 0); err != nil {
				panic(err)
			}
			if err := w.Truncate(size); err != nil {
				panic(err)
			}
			w.Close()
			f := osmref.File{run.Header("h"), run.Data(g)}
			want := osmref.RelIdxText(osmref.ExpectRelIdx(f.Expect(), func(id int64) ([]int64, bool) { v, ok := locs[id]; return v, ok }))
			for _, p := range []int{1, 2, 3, 5, 7, 16, 40} {
				dd := fmt.Sprintf("%s -p %d", d, p)
				if !run.Mine(r, dd) || r.Stop() || r.Late("C28.ways") {
					continue
				}
				r.Begin(dd)
				run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
				x := run.Cmd(r, dir, run.Opt{Gentle: true}, "relindex", "-i", dir+"/in.pbf", "-x", big, "-o", dir+"/out", "-w", "2", "-p", fmt.Sprint(p))
				if b := x.Bad(); b != "" {
					r.Fail(dd, b, x.Stack, nil)
					continue
				}
				got, err := osmref.ReadRelIdx([]byte(x.Files["out"]))
				if err != nil {
					r.Fail(dd, err.Error(), "", nil)
					continue
				}
				if a := osmref.RelIdxText(got); a != want {
					r.Fail(dd, run.Diff(a, want), "", nil)
					continue
				}
				r.Nontrivial(dd)
			}
			dd := d + " dumped"
			if run.Mine(r, dd) && !r.Stop() {
				r.Begin(dd)
				x := run.Cmd(r, dir, run.Opt{Gentle: true, NoFiles: true}, "dumpwayindex", "-i", big, "-p", "-s")
				var lines strings.Builder
				for i := 0; i < shape.n; i++ {
					l := fmt.Sprintf("%d %v\n", 3*i+1, locs[int64(3*i+1)])
					lines.WriteString(l + l)
				}
				if b := x.Bad(); b != "" {
					r.Fail(dd, b, x.Stack, nil)
				} else if x.Stdout != lines.String() {
					r.Fail(dd, run.Diff(x.Stdout, lines.String()), "", nil)
				} else {
					r.Nontrivial(dd)
				}
			}
		}
	})
}
