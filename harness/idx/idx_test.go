// Package idx checks lookups in the node index and the way index.
package idx

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestZZ(tt *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

func words(vs ...uint64) []byte {
	b := make([]byte, 8*len(vs))
	for i, v := range vs {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	return b
}

// elem is an element of a node index: the ids left out before it, and its ids.
type elem struct{ gap, count int }

func nodeFile(path string, es []elem) map[uint64]int64 {
	locs := map[uint64]int64{}
	var el, lo []uint64
	id, off := uint64(0), uint64(0)
	for _, e := range es {
		id += uint64(e.gap)
		el = append(el, id, off<<24|uint64(e.count))
		for i := 0; i < e.count; i++ {
			l := int64(-1<<63) + int64(id*7919+1)
			if i%2 == 1 && e.count%2 == 1 {
				l = 0 // a gap within a run
			}
			lo = append(lo, uint64(l))
			if l != 0 {
				locs[id] = l
			}
			id++
			off++
		}
	}
	b := words(1, uint64(len(es)))
	b = append(b, words(el...)...)
	b = append(b, words(lo...)...)
	vlib.MustWrite(path, b)
	return locs
}

// wayFile writes a way index of ways with given numbers of refs.
func wayFile(path string, ids []int64, lens []int, shift int) map[int64][]int64 {
	locs := map[int64][]int64{}
	var el []uint64
	var lo []byte
	for i, id := range ids {
		el = append(el, uint64(id)<<33|uint64(len(lo)>>shift))
		last := int64(0)
		v := []int64{}
		for k := 0; k < lens[i]; k++ {
			x := int64(id*1000+int64(k)+1) * int64(1-2*(k%2))
			if k == 2 {
				x = -1 << 62
			}
			v = append(v, x)
			lo = osmref.Varint(lo, osmref.Zig(x-last))
			last = x
		}
		lo = append(lo, 0)
		for len(lo)%(1<<shift) != 0 {
			lo = append(lo, 0)
		}
		locs[id] = v
	}
	b := words(uint64(len(ids)), uint64(shift))
	b = append(b, words(el...)...)
	b = append(b, lo...)
	vlib.MustWrite(path, b)
	return locs
}

func init() {
	// elements enumerates lists of elements.
	elements := func(n int, gaps, counts []int, f func(es []elem)) {
		var rec func(es []elem)
		rec = func(es []elem) {
			f(es)
			if len(es) < n {
				for _, g := range gaps {
					for _, c := range counts {
						rec(append(es[:len(es):len(es)], elem{g, c}))
					}
				}
			}
		}
		rec(nil)
	}
	nodes := func(r *vlib.R, d string, es []elem, passes []uint64) {
		path := filepath.Join(r.Scratch, "n.idx")
		locs := nodeFile(path, es)
		ids := []uint64{1<<63 - 1, 1 << 40}
		top := uint64(0)
		for _, e := range es {
			for i := 0; i < e.gap+e.count; i++ {
				if e.gap+e.count < 20 || i < 3 || i+3 > e.gap && i < e.gap+3 || i+3 > e.gap+e.count {
					ids = append(ids, top)
				}
				top++
			}
		}
		ids = append(ids, top, top+1, top+2)
		var timing *float64
		for _, count := range passes {
			found := map[uint64]int{}
			bad := vlib.Guard(func() {
				two := 2.0
				if len(es)%2 == 1 && count == 1 {
					timing = &two
				}
				ix := nodeindex.NewNodeIndex(path, timing)
				defer ix.Close()
				for pass := uint64(0); pass < count; pass++ {
					si := ix.SubIndex(pass, count)
					for _, id := range ids {
						want, held := locs[id]
						first, once := false, true
						for hint := 0; hint <= len(es)+1; hint++ {
							l, h, ok := si.FindNode(id, hint)
							r.Res.Transitions++
							k := func() string { return fmt.Sprintf("%s, id %d, hint %d, pass %d of %d", d, id, hint, pass, count) }
							switch {
							case ok && !held:
								r.Fail(k(), fmt.Sprintf("found %d, but the id has no location", l), "", nil)
							case ok && l != want:
								r.Fail(k(), fmt.Sprintf("found %d, not %d", l, want), "", nil)
							case h < 0:
								r.Fail(k(), fmt.Sprintf("the next hint is %d", h), "", nil)
							}
							if once {
								first, once = ok, false
							} else if ok != first {
								r.Fail(k(), fmt.Sprintf("found: %v, with hint 0: %v", ok, first), "", nil)
							}
						}
						if first {
							found[id]++
						}
					}
				}
			})
			if bad != "" {
				r.Fail(fmt.Sprintf("%s, %d passes", d, count), bad, "", nil)
				return
			}
			for _, id := range ids {
				if _, held := locs[id]; held && found[id] != 1 {
					r.Fail(fmt.Sprintf("%s, id %d, %d passes", d, id, count), fmt.Sprintf("found in %d passes", found[id]), "", nil)
					return
				}
			}
		}
	}
	group := func(r *vlib.R, what string, n int, gaps, counts []int, passes func(total int) []uint64) {
		groups := map[string][][]elem{}
		var order []string
		elements(n, gaps, counts, func(es []elem) {
			k := es
			if len(k) > 2 {
				k = k[:2]
			}
			d := fmt.Sprintf("%s that start with %v", what, k)
			if groups[d] == nil {
				order = append(order, d)
			}
			groups[d] = append(groups[d], es)
		})
		for _, d := range order {
			if !r.Case(d) {
				continue
			}
			for _, es := range groups[d] {
				total := 0
				for _, e := range es {
					total += e.count
				}
				nodes(r, fmt.Sprintf("elements %v", es), es, passes(total))
			}
			r.Nontrivial(d)
		}
	}
	vlib.Register("C04.find", func(r *vlib.R) {
		group(r, "node indexes", r.Pick(5, 6), []int{0, 1, 5}, []int{1, 2, 3}, func(int) []uint64 { return []uint64{1} })
		group(r, "large node indexes", 2, []int{0, 1 << 20}, []int{1, 255, 256, 65537}, func(int) []uint64 { return []uint64{1} })
	})
	all := func(total int) (ps []uint64) {
		for i := 1; i <= total+2; i++ {
			ps = append(ps, uint64(i))
		}
		return append(ps, 100)
	}
	vlib.Register("C05.find", func(r *vlib.R) {
		group(r, "node indexes", r.Pick(4, 5), []int{0, 3}, []int{1, 2, 3}, all)
		group(r, "node indexes with long runs", 4, []int{2}, []int{1, 7, 16}, all)
	})

	ways := func(part string, max, n, m int, passes func(n int) []int) func(r *vlib.R) {
		return func(r *vlib.R) {
			for shift := 0; shift <= 6; shift++ {
				for set := 0; set < 1<<max; set++ {
					var ids []int64
					for i := 0; i < max; i++ {
						if set>>i&1 != 0 {
							ids = append(ids, int64(1+i+i/3*7))
						}
					}
					if len(ids) > n {
						continue
					}
					d := fmt.Sprintf("%s, ways %v, alignment %d", part, ids, shift)
					if !r.Case(d) {
						continue
					}
					lens := make([]int, len(ids))
					var rec func(i int)
					rec = func(i int) {
						if i < len(ids) {
							for l := 0; l <= m; l++ {
								lens[i] = l
								rec(i + 1)
							}
							return
						}
						path := filepath.Join(r.Scratch, "w.idx")
						locs := wayFile(path, ids, lens, shift)
						for _, count := range passes(len(ids)) {
							found := map[int64]int{}
							bad := vlib.Guard(func() {
								ix := wayindex.NewWayIndex(path, nil)
								defer ix.Close()
								for pass := 0; pass < count; pass++ {
									si := ix.SubIndexWithScaledPass(pass, count)
									for _, id := range []int64{1, 2, 3, 11, 12, 13, 21, 22, 1<<31 - 1, 1 << 31, 1 << 62} {
										want, held := locs[id]
										first := false
										for hint := 0; hint <= len(ids)+1; hint++ {
											l, h, ok := si.FindLocations(id, hint)
											r.Res.Transitions++
											k := func() string {
												return fmt.Sprintf("%s, lengths %v, id %d, hint %d, pass %d of %d", d, lens, id, hint, pass, count)
											}
											switch {
											case ok && !held:
												r.Fail(k(), fmt.Sprintf("found %v, but there is no such way", l), "", nil)
											case ok && !same(l, want):
												r.Fail(k(), fmt.Sprintf("found %v, not %v", l, want), "", nil)
											case h < 0:
												r.Fail(k(), fmt.Sprintf("the next hint is %d", h), "", nil)
											case hint > 0 && ok != first:
												r.Fail(k(), fmt.Sprintf("found: %v, with hint 0: %v", ok, first), "", nil)
											}
											first = ok
										}
										if first {
											found[id]++
										}
									}
								}
							})
							if bad != "" {
								r.Fail(fmt.Sprintf("%s, lengths %v, %d passes", d, lens, count), bad, "", nil)
								return
							}
							for _, id := range ids {
								if (id < 4 || id > 10 && id < 14 || id == 21 || id == 22) && found[id] != 1 {
									r.Fail(fmt.Sprintf("%s, lengths %v, id %d, %d passes", d, lens, id, count), fmt.Sprintf("found in %d passes", found[id]), "", nil)
								}
							}
						}
					}
					rec(0)
					r.Nontrivial(d)
				}
			}
		}
	}
	vlib.Register("C06.find", func(r *vlib.R) {
		ways("one pass", 7, r.Pick(3, 6), 3, func(n int) []int { return []int{1} })(r)
		ways("passes", 5, r.Pick(4, 5), 3, func(n int) []int { return []int{2, 3, 4, 5, 9, 40} })(r)
	})
}

func same(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
