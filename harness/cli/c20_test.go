package cli

import (
	"encoding/binary"
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// elem is an element of a node index: ids first..first+len(locs)-1.
type elem struct {
	first int64
	locs  []int64 // 0: a gap
}

// elems reads the elements of a node index.
func elems(b string) []elem {
	w := func(i uint64) uint64 { return binary.LittleEndian.Uint64([]byte(b[8*i : 8*i+8])) }
	n := w(1)
	var out []elem
	for i := uint64(0); i < n; i++ {
		e := elem{first: int64(w(2 + 2*i))}
		co := w(3 + 2*i)
		for j := uint64(0); j < co&(1<<24-1); j++ {
			e.locs = append(e.locs, int64(w(2+2*n+co>>24+j)))
		}
		out = append(out, e)
	}
	return out
}

// dumpLines is what dumpnodeindex prints of elements.
func dumpLines(es []elem, p, s bool) string {
	var b strings.Builder
	for _, e := range es {
		for i, l := range e.locs {
			lat, lon := unloc(l)
			pos := fmt.Sprintf("%x (%f, %f)", uint64(l), float64(lon)/1e7, float64(lat)/1e7)
			if p {
				if l == 0 {
					b.WriteString("Extract: skip\n")
				} else {
					fmt.Fprintf(&b, "Extract: %s [%d+%d=%d]\n", pos, e.first, i, e.first+int64(i))
				}
			}
			if s {
				if l == 0 {
					b.WriteString(" Search: skip\n")
				} else {
					fmt.Fprintf(&b, " Search: %s\n", pos)
				}
			}
		}
	}
	return b.String()
}

func init() {
	modes := [][]string{{"-p"}, {"-s"}, {"-p", "-s"}, nil}
	vlib.Register("C20.nodes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// runs of these shapes: lengths with and without gaps of one
		shapes := []string{"x", "xx", "x.x", "xxx.x.x", "x.xxxxx"}
		firsts := []int64{0, 1, 5, 1 << 40}
		sequences(len(shapes), r.Pick(3, 4), func(s []int) {
			for fi, first := range firsts {
				if fi > 1 && len(s) > 2 && !r.Thorough() {
					continue
				}
				d := fmt.Sprintf("runs %v from %d", s, first)
				if !run.Mine(r, d) || r.Stop() || r.Late("C20.nodes") {
					continue
				}
				f := osmref.File{run.Header("h")}
				id := first
				var g osmref.Group
				for i, k := range s {
					for _, c := range shapes[k] {
						if c == 'x' {
							g.Nodes = append(g.Nodes, pt(id))
						}
						id++
					}
					if i == 0 { // the second run follows in another block
						f = append(f, run.Data(g))
						g = osmref.Group{}
					} else {
						id += 4
					}
				}
				if len(g.Nodes) > 0 {
					f = append(f, run.Data(g))
				}
				nix, locs, bad := buildNodes(r, dir, f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
				es := elems(nix)
				held := map[int64]int64{}
				for _, e := range es {
					for i, l := range e.locs {
						if l != 0 {
							held[e.first+int64(i)] = l
						}
					}
				}
				if a, b := locText(held), locText(locs); a != b {
					r.Fail(d, "the index holds something else: "+run.Diff(a, b), "", nil)
					return
				}
				dump := func(dd string, a ...string) (string, bool) {
					r.Begin(dd)
					x := run.Cmd(r, dir, run.Opt{NoFiles: true}, "dumpnodeindex", append([]string{"-i", dir + "/n.idx"}, a...)...)
					if b := x.Bad(); b != "" {
						r.Fail(dd, b, x.Stack, nil)
						return "", false
					}
					r.Nontrivial(dd)
					return x.Stdout, true
				}
				run.Fresh(dir, map[string][]byte{"n.idx": []byte(nix)})
				for _, m := range modes {
					p, se := strings.Contains(strings.Join(m, ""), "p"), strings.Contains(strings.Join(m, ""), "s")
					// the whole index, and every range of elements
					for a := -1; a <= len(es)+1; a++ {
						for b := -1; b <= len(es)+1; b++ {
							args := append([]string{}, m...)
							lo, hi := 0, len(es)
							if a >= 0 {
								args = append(args, "--start-element", fmt.Sprint(a))
								lo = a
							}
							if b >= 0 {
								args = append(args, "--end-element", fmt.Sprint(b))
								if b < hi {
									hi = b
								}
							}
							if lo > hi {
								lo = hi
							}
							if a >= 0 && len(m) == 0 {
								continue
							}
							dd := fmt.Sprintf("%s, dumpnodeindex %v", d, args)
							if !run.MineIn(r, dd) {
								continue
							}
							out, ok := dump(dd, args...)
							if !ok {
								return
							}
							if want := dumpLines(es[lo:hi], p, se); out != want {
								r.Fail(dd, "wrong output: "+run.Diff(out, want), "", nil)
								return
							}
						}
					}
					// sub-indexes, and ranges of them
					for c := 1; c <= len(es)+2; c++ {
						at := 0
						for i := 0; i < c; i++ {
							dd := fmt.Sprintf("%s, dumpnodeindex %v, sub-index %d of %d", d, m, i, c)
							sub := append([]string{"--sub-index-index", fmt.Sprint(i), "--sub-index-count", fmt.Sprint(c)}, m...)
							out, ok := dump(dd, sub...)
							if !ok {
								return
							}
							end := at
							for end < len(es) && len(dumpLines(es[at:end+1], p, se)) <= len(out) {
								end++
							}
							if len(m) == 0 {
								end = len(es)
							}
							if want := dumpLines(es[at:end], p, se); out != want {
								r.Fail(dd, fmt.Sprintf("does not continue with element %d: %s", at, run.Diff(out, want)), "", nil)
								return
							}
							for a := 0; a <= 1; a++ {
								for b := 0; b <= 2 && len(m) > 0; b++ {
									lo, hi := at+a, at+b
									if hi > end {
										hi = end
									}
									if lo > hi {
										lo = hi
									}
									d3 := fmt.Sprintf("%s, elements %d to %d", dd, a, b)
									o, ok := dump(d3, append(sub[:len(sub):len(sub)], "--start-element", fmt.Sprint(a), "--end-element", fmt.Sprint(b))...)
									if !ok {
										return
									}
									if want := dumpLines(es[lo:hi], p, se); o != want {
										r.Fail(d3, "wrong output: "+run.Diff(o, want), "", nil)
										return
									}
								}
							}
							at = end
						}
						if at != len(es) {
							r.Fail(fmt.Sprintf("%s, %d sub-indexes", d, c), fmt.Sprintf("the sub-indexes print %d of %d elements", at, len(es)), "", nil)
							return
						}
					}
				}
			}
		})
	})
	vlib.Register("C20.ways", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		lens := []int{0, 1, 2, 20, 90}
		sequences(len(lens), r.Pick(3, 4), func(s []int) {
			for al := 0; al <= 4; al++ {
				d := fmt.Sprintf("ways of lengths %v, alignment %d", s, al)
				if !run.Mine(r, d) || r.Stop() || r.Late("C20.ways") {
					continue
				}
				f := osmref.File{run.Header("h")}
				for i, k := range s {
					w := osmref.Way{ID: int64(3*i + 1)}
					for j := 0; j < lens[k]; j++ {
						w.Refs = append(w.Refs, []int64{-1 << 62, 5, 1<<63 - 1, -77}[(i+j)%4]+int64(j*31))
					}
					f = append(f, run.Data(osmref.Group{Ways: []osmref.Way{w}}))
				}
				wix, bad := buildWays(r, dir, f, al)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
				var ids []int64
				refs := map[int64]string{}
				for _, b := range f.Expect() {
					for _, w := range b.Ways {
						ids = append(ids, w.ID)
						refs[w.ID] = fmt.Sprintf("%d %v", w.ID, osmref.Dedup(w.Refs))
					}
				}
				run.Fresh(dir, map[string][]byte{"w.idx": []byte(wix)})
				for _, m := range modes {
					p, se := strings.Contains(strings.Join(m, ""), "p"), strings.Contains(strings.Join(m, ""), "s")
					for c := 0; c <= len(s)+2; c++ {
						found := map[int64]int{}
						for i := 0; i < c || i == 0 && c == 0; i++ {
							args := append([]string{"-i", dir + "/w.idx"}, m...)
							if c > 0 {
								args = append(args, "--sub-index-index", fmt.Sprint(i), "--sub-index-count", fmt.Sprint(c))
							}
							dd := fmt.Sprintf("%s, dumpwayindex %v", d, args[2:])
							r.Begin(dd)
							x := run.Cmd(r, dir, run.Opt{NoFiles: true}, "dumpwayindex", args...)
							if b := x.Bad(); b != "" {
								r.Fail(dd, b, x.Stack, nil)
								return
							}
							ls := strings.Split(x.Stdout, "\n")
							at := 0
							next := func() string {
								at++
								if at <= len(ls) {
									return ls[at-1]
								}
								return "(end)"
							}
							for _, id := range ids {
								if p {
									if l := next(); l != refs[id] {
										r.Fail(dd, fmt.Sprintf("prints %q, not %q", l, refs[id]), "", nil)
										return
									}
								}
								if se {
									switch l := next(); l {
									case refs[id]:
										found[id]++
									case fmt.Sprintf("XX failed to find way %d", id):
									default:
										r.Fail(dd, fmt.Sprintf("prints %q, not %q", l, refs[id]), "", nil)
										return
									}
								}
							}
							if at != len(ls)-1 || ls[at] != "" {
								r.Fail(dd, "prints more: "+run.Short(strings.Join(ls[at:], "\n")), "", nil)
								return
							}
							r.Nontrivial(dd)
						}
						if se {
							for _, id := range ids {
								if found[id] != 1 {
									r.Fail(fmt.Sprintf("%s, %d sub-indexes", d, c), fmt.Sprintf("way %d is found in %d of the sub-indexes", id, found[id]), "", nil)
									return
								}
							}
						}
					}
				}
			}
		})
	})
}
