package cli

import (
	"fmt"
	"sort"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func waysText(m map[int64][]int64) string {
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d=%v ", k, m[k])
	}
	return b.String()
}

// wayCase builds a way index and looks every way up through relindex and dumpwayindex.
func wayCase(r *vlib.R, d, dir string, f osmref.File, align int, passes []int) {
	r.Begin(d)
	wix, bad := buildWays(r, dir, f, align)
	if bad != "" {
		r.Fail(d, bad, "", nil)
		return
	}
	want := map[int64][]int64{}
	var ids []int64
	for _, b := range f.Expect() {
		for _, w := range b.Ways {
			want[w.ID] = osmref.Dedup(w.Refs)
			ids = append(ids, w.ID)
		}
	}
	gids, got, err := osmref.ReadWayIdx([]byte(wix))
	if err != nil {
		r.Fail(d, "the index is not consistent: "+err.Error(), "", nil)
		return
	}
	if fmt.Sprint(gids) != fmt.Sprint(ids) {
		r.Fail(d, fmt.Sprintf("the index lists %v, not %v", gids, ids), "", nil)
		return
	}
	if a, b := waysText(got), waysText(want); a != b {
		r.Fail(d, "the index holds something else: "+run.Diff(a, b), "", nil)
		return
	}
	// lookups: a relation with each way, its neighbours and strangers
	var ms []osmref.Member
	for _, id := range ids {
		for _, x := range []int64{id, id - 1, id + 1} {
			if x > 0 && x < 1<<31 {
				ms = append(ms, osmref.Member{Type: 1, ID: x})
			}
		}
		if len(ms) > 3000 {
			break
		}
	}
	ms = append(ms, osmref.Member{Type: 1, ID: 1}, osmref.Member{Type: 1, ID: 1<<31 - 1})
	look := func(id int64) ([]int64, bool) { l, ok := want[id]; return l, ok }
	relCase(r, d, dir, osmref.File{run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: ms}}})}, wix, look, passes, nil)
}

func init() {
	vlib.Register("C06.refs", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		refs := []int64{1, -1, 63, 64, -64, -65, 1<<63 - 1, -1 << 63, 8191, 8192, -1 << 62, 1 << 40}
		var all []osmref.Way
		sequences(len(refs), r.Pick(2, 3), func(s []int) {
			w := osmref.Way{ID: int64(len(all)*2 + 1)}
			for _, k := range s {
				w.Refs = append(w.Refs, refs[k])
			}
			all = append(all, w)
			if len(s) > 0 { // and with repetitions
				v := osmref.Way{ID: int64(len(all)*2 + 1)}
				for i, x := range w.Refs {
					for k := 0; k <= (i+len(all))%3; k++ {
						v.Refs = append(v.Refs, x)
					}
				}
				all = append(all, v)
			}
		})
		for _, per := range []int{1, 3, 50, len(all)} {
			for _, al := range []int{-1, 0, 1, 2, 3, 4, 7, 12} {
				if al == 12 && per == 1 && !r.Thorough() {
					continue
				}
				d := fmt.Sprintf("all short ref lists, %d ways in a block, alignment %d", per, al)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				f := osmref.File{run.Header("h")}
				for i := 0; i < len(all); i += per {
					e := i + per
					if e > len(all) {
						e = len(all)
					}
					f = append(f, run.Data(osmref.Group{Ways: all[i : i+(e-i)/2]}, osmref.Group{Ways: all[i+(e-i)/2 : e]}))
				}
				wayCase(r, d, dir, f, al, []int{1, 2, 7})
			}
		}
	})
	// every alignment up to 2^24 (2^26), as far as it can be had with a handful of ways
	vlib.Register("C06.align", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		long := run.W(9)
		for i := int64(0); i < 3000; i++ {
			long.Refs = append(long.Refs, -i*i*1000003-1)
		}
		for al := 0; al <= r.Pick(24, 26); al++ {
			d := fmt.Sprintf("alignment %d", al)
			if !run.Mine(r, d) || r.Stop() || r.Late("C06.align") {
				continue
			}
			f := osmref.File{run.Data(osmref.Group{Ways: []osmref.Way{run.W(1, -5, -6), run.W(3)}}), run.Data(osmref.Group{Ways: []osmref.Way{run.W(7, 1, 2, 3)}}, osmref.Group{Ways: []osmref.Way{long, run.W(10, -9)}})}
			wayCase(r, d, dir, f, al, []int{1, 2})
		}
	})
	vlib.Register("C06.sets", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// every set of way ids below 7, every division over blocks, with several kinds of ref list
		n := r.Pick(6, 8)
		for set := 0; set < 1<<n; set++ {
			var s []int64
			for i := 0; i < n; i++ {
				if set>>i&1 == 1 {
					s = append(s, int64(i+1))
				}
			}
			m := len(s) - 1
			if m < 0 {
				m = 0
			}
			for div := 0; div < 1<<m; div++ {
				d := fmt.Sprintf("ways %v division %b", s, div)
				if !run.Mine(r, d) || r.Stop() || r.Late("C06.sets") {
					continue
				}
				f := osmref.File{run.Header("h")}
				b := run.Data(osmref.Group{})
				for i, id := range s {
					if i > 0 && div>>(i-1)&1 == 1 {
						f = append(f, b)
						if i%2 == 0 {
							f = append(f, run.Header(""), run.Data(osmref.Group{Nodes: []osmref.Node{pt(1)}}))
						}
						b = run.Data(osmref.Group{})
					}
					w := run.W(id)
					for j := int64(0); j < (id*5)%7; j++ {
						w.Refs = append(w.Refs, -(1<<62)-id*1000000*(j/2)-1)
					}
					b.Groups[0].Ways = append(b.Groups[0].Ways, w)
				}
				f = append(f, b)
				al := []int{-1, 0, 1, 5}[(set+div)%4]
				wayCase(r, d, dir, f, al, []int{1, 2, 3, len(s) + 1})
			}
		}
	})
	vlib.Register("C06.far", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		gaps := []int64{1, 2, 127, 1 << 16, 1 << 29}
		sequences(len(gaps), r.Pick(3, 4), func(s []int) {
			for _, first := range []int64{1, 2, 1 << 20, 1<<31 - 1 - 3<<29} {
				d := fmt.Sprintf("first way %d gaps %v", first, s)
				if !run.Mine(r, d) || r.Stop() || r.Late("C06.far") {
					continue
				}
				id := first
				g := osmref.Group{Ways: []osmref.Way{run.W(id, -5, -6)}}
				for i, k := range s {
					id += gaps[k]
					if id >= 1<<31 {
						break
					}
					g.Ways = append(g.Ways, run.W(id, -int64(i)-1, 1<<50))
				}
				wayCase(r, d, dir, osmref.File{run.Data(g)}, -1, []int{1, 2, 3})
			}
		})
		// long ways and many ways
		for _, n := range []int{1, 100, 127, 128, 129, 500, 1000, 1999, 2000} {
			for kind := 0; kind < 4; kind++ {
				d := fmt.Sprintf("way with %d refs of kind %d", n, kind)
				if !run.Mine(r, d) || r.Stop() {
					continue
				}
				w := osmref.Way{ID: 7}
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						w.Refs = append(w.Refs, -1-int64(i))
					case 1:
						w.Refs = append(w.Refs, []int64{-1 << 63, 1<<63 - 1}[i%2])
					case 2:
						w.Refs = append(w.Refs, -(1<<62)+int64(i)*int64(i)*7919*131)
					case 3:
						w.Refs = append(w.Refs, -5-int64(i/3))
					}
				}
				wayCase(r, d, dir, osmref.File{run.Data(osmref.Group{Ways: []osmref.Way{run.W(6, 1), w, run.W(8, 1)}})}, -1, []int{1, 2, 3})
			}
		}
		for _, c := range run.Corpus() {
			if run.Mine(r, "corpus "+c.Name) {
				wayCase(r, "corpus "+c.Name, dir, c.F, -1, []int{1, 2, 3, 9})
			}
		}
	})
}
