package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	vlib.Register("C05.rewrite", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		const mb = 131072 // locations in a megabyte
		sizes := []int{mb - 1, mb, mb + 1, 2*mb - 1, 2 * mb, 2*mb + 1, 3*mb + 7}
		if r.Thorough() {
			sizes = append(sizes, 1, 1000, 5*mb-1, 5*mb, 5*mb+1, 8*mb+3)
		}
		for _, n := range sizes {
			for kind := 0; kind < 3; kind++ {
				d := fmt.Sprintf("index of %d nodes, kind %d", n, kind)
				if !run.Mine(r, d) || r.Stop() || r.Late("C05.rewrite") {
					continue
				}
				var f osmref.File
				ids := []int64{}
				switch kind {
				case 0: // one run over several blocks
					f, _ = bigIndex(n)
					for i := 0; i <= 16; i++ {
						ids = append(ids, 1+int64(n-1)*int64(i)/16)
					}
				default: // many elements of odd lengths, with gaps inside and between them
					var g osmref.Group
					g.NoKV = true
					id := int64(1)
					run1 := []int{0, 40000, 977}[kind]
					for i := 0; i < n; i++ {
						g.Nodes = append(g.Nodes, osmref.Node{ID: id, Lat: int64(i) - 500, Lon: 1000 - 3*int64(i)})
						if i%run1 < 3 || i%(n/9+1) == 0 || i+1 == n {
							ids = append(ids, id)
							if i%run1 == 1 && len(ids) < 300 {
								ids = append(ids, id+1, id+2)
							}
						}
						id++
						if i%run1 == run1-1 {
							id += 3
						}
						if len(g.Nodes) == 50000 || i+1 == n {
							f = append(f, run.Data(g))
							g = osmref.Group{NoKV: true}
						}
					}
				}
				nix, locs, bad := buildNodes(r, dir, f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					continue
				}
				if len(ids) > 400 {
					var s []int64
					for i, x := range ids {
						if i%(len(ids)/400+1) == 0 || i+3 > len(ids) {
							s = append(s, x)
						}
					}
					ids = s
				}
				ids = append(ids, 0, int64(4*n+10))
				var ws []osmref.Way
				for i, x := range ids {
					ws = append(ws, run.W(int64(i+1), x, ids[(i*7+3)%len(ids)], ids[len(ids)-1-i]))
				}
				small := osmref.File{run.Header("h"), run.Data(osmref.Group{Ways: ws[:len(ws)/2]}), run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1, 1, 1, "a", "b")}}), run.Data(osmref.Group{Ways: ws[len(ws)/2:]})}
				first := ""
				for i, m := range []string{"", "1000", "1", "2", "3"} {
					var extra []string
					if m != "" {
						extra = []string{"-m", m}
					}
					dd := d + " memory " + m
					out := rewriteCase(r, dd, dir, small, nix, locs, extra...)
					if out == "" {
						break
					}
					if i == 0 {
						first = out
					} else if out != first {
						r.Fail(dd, "not the bytes of one pass: "+run.Diff(out, first), "", nil)
					}
				}
			}
		}
	})
	// the passes as the dump tool shows them: every node in exactly one, found only there
	vlib.Register("C05.dump", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		lens := []int{1, 2, 3, 7}
		sequences(len(lens), r.Pick(4, 5), func(s []int) {
			if len(s) == 0 && !r.Thorough() {
				// an index without nodes
				_ = s
			}
			d := fmt.Sprintf("runs of lengths %v", s)
			if !run.Mine(r, d) || r.Stop() || r.Late("C05.dump") {
				return
			}
			var g osmref.Group
			id := int64(3)
			total := 0
			for _, k := range s {
				for i := 0; i < lens[k]; i++ {
					g.Nodes = append(g.Nodes, pt(id))
					id++
					total++
				}
				id += 5
			}
			f := osmref.File{run.Header("h")}
			if len(g.Nodes) > 0 {
				f = append(f, run.Data(g))
			}
			nix, locs, bad := buildNodes(r, dir, f)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				return
			}
			counts := []int{1, 2, 3, total + 1}
			if total > 3 {
				counts = append(counts, total/2, total-1, total)
			}
			for _, c := range counts {
				dd := fmt.Sprintf("%s, %d passes", d, c)
				if !run.MineIn(r, dd) {
					continue
				}
				r.Begin(dd)
				got := map[int64]int64{}
				for p := 0; p < c; p++ {
					run.Fresh(dir, map[string][]byte{"n.idx": []byte(nix)})
					x := run.Cmd(r, dir, run.Opt{NoFiles: true}, "dumpnodeindex", "-i", dir+"/n.idx", "-p", "-s", "--sub-index-index", fmt.Sprint(p), "--sub-index-count", fmt.Sprint(c))
					if b := x.Bad(); b != "" {
						r.Fail(dd, b, x.Stack, nil)
						return
					}
					m, bad := parseDump(x.Stdout)
					if bad != "" {
						r.Fail(dd, bad, run.Short(x.Stdout), nil)
						return
					}
					for _, e := range m {
						if _, dup := got[e.id]; dup {
							r.Fail(dd, fmt.Sprintf("node %d is in two passes", e.id), "", nil)
							return
						}
						got[e.id] = e.loc
					}
				}
				if a, b := locText(got), locText(locs); a != b {
					r.Fail(dd, "the passes together hold something else: "+run.Diff(a, b), "", nil)
					return
				}
				r.Nontrivial(dd)
			}
		})
	})
	vlib.Register("C05.relindex", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// ways of sizes from these, relations over all of them
		lens := []int{0, 1, 3, 30}
		sequences(len(lens), r.Pick(4, 5), func(s []int) {
			for _, al := range []int{0, 3} {
				d := fmt.Sprintf("ways of lengths %v, alignment %d", s, al)
				if !run.Mine(r, d) || r.Stop() || r.Late("C05.relindex") {
					continue
				}
				var g, rg osmref.Group
				var ms []osmref.Member
				for i, k := range s {
					w := osmref.Way{ID: int64(2*i + 1)}
					for j := 0; j < lens[k]; j++ {
						w.Refs = append(w.Refs, -1<<62-int64(j*j*977+i))
					}
					g.Ways = append(g.Ways, w)
					ms = append(ms, osmref.Member{Type: 1, ID: w.ID}, osmref.Member{Type: 1, ID: w.ID + 1})
					rg.Rels = append(rg.Rels, osmref.Rel{ID: int64(i + 1), Members: ms[len(ms)-2:]})
				}
				rg.Rels = append(rg.Rels, osmref.Rel{ID: 100, Members: ms})
				wf := osmref.File{run.Header("h")}
				if len(g.Ways) > 0 {
					wf = append(wf, run.Data(g))
				}
				wix, bad := buildWays(r, dir, wf, al)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
				passes := []int{1, 2, 3, 4, 5, 6, 8, 13, 100}
				relCase(r, d, dir, osmref.File{run.Data(rg)}, wix, lookup(wf), passes, nil)
			}
		})
	})
}

type dumped struct{ id, loc int64 }

// parseDump reads the output of dumpnodeindex -p -s: direct reading and search
// must agree; gaps are left out.
func parseDump(s string) ([]dumped, string) {
	var out []dumped
	var cur *dumped
	skip := false
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		switch {
		case l == "":
		case l == "Extract: skip":
			skip = true
			cur = nil
		case l == " Search: skip":
			if !skip {
				return nil, "the search misses what is there: " + fmt.Sprint(cur)
			}
			skip = false
		case strings.HasPrefix(l, "Extract: "):
			var u, first, k, id uint64
			var lon, lat float64
			if _, err := fmt.Sscanf(l, "Extract: %x (%f, %f) [%d+%d=%d]", &u, &lon, &lat, &first, &k, &id); err != nil {
				return nil, "unreadable line " + l
			}
			if first+k != id {
				return nil, "wrong sum in " + l
			}
			if bad := degrees(u, lon, lat); bad != "" {
				return nil, bad + " in " + l
			}
			out = append(out, dumped{int64(id), int64(u)})
			cur = &out[len(out)-1]
		case strings.HasPrefix(l, " Search: "):
			var u uint64
			var lon, lat float64
			if _, err := fmt.Sscanf(l, " Search: %x (%f, %f)", &u, &lon, &lat); err != nil {
				return nil, "unreadable line " + l
			}
			if cur == nil || cur.loc != int64(u) {
				return nil, "direct reading and search differ at " + l
			}
			if bad := degrees(u, lon, lat); bad != "" {
				return nil, bad + " in " + l
			}
		default:
			return nil, "unexpected line " + l
		}
	}
	return out, ""
}

// degrees checks that a packed location is shown as its position.
func degrees(u uint64, lon, lat float64) string {
	a, b := unloc(int64(u))
	if fmt.Sprintf("%f", float64(b)/1e7) != fmt.Sprintf("%f", lon) || fmt.Sprintf("%f", float64(a)/1e7) != fmt.Sprintf("%f", lat) {
		return fmt.Sprintf("position is %f,%f", float64(b)/1e7, float64(a)/1e7)
	}
	return ""
}

// unloc unpacks a location to 1e-7 degrees.
func unloc(l int64) (lat, lon int32) {
	var a, o uint32
	for i := 0; i < 32; i++ {
		o |= uint32(uint64(l)>>(2*i)&1) << i
		a |= uint32(uint64(l)>>(2*i+1)&1) << i
	}
	// the top bit of the latitude is always set: the sign is the bit below
	a = a&^(1<<31) | a<<1&(1<<31)
	return int32(a), int32(o)
}
