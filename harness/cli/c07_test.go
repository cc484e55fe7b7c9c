package cli

import (
	"fmt"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// sequences calls fn with every sequence over 0..k-1 of length 0..n.
func sequences(k, n int, fn func(s []int)) {
	var rec func(s []int)
	rec = func(s []int) {
		fn(s)
		if len(s) == n {
			return
		}
		for i := 0; i < k; i++ {
			rec(append(s[:len(s):len(s)], i))
		}
	}
	rec(nil)
}

// wayFile has ways 3 (short), 5 (no refs), 8 (long), 9 (equal refs), 1000.
func wayFile() osmref.File {
	long := run.W(8)
	for i := int64(0); i < 40; i++ {
		long.Refs = append(long.Refs, -(int64(1)<<62)+i*i*1000003)
	}
	return osmref.File{run.Header("h"), run.Data(osmref.Group{Ways: []osmref.Way{run.W(3, -5, -1<<63, -7), run.W(5), long}}), run.Data(osmref.Group{Ways: []osmref.Way{run.W(9, -4, -4, -4), run.W(1000, -1)}})}
}

func lookup(f osmref.File) func(int64) ([]int64, bool) {
	m := map[int64][]int64{}
	for _, b := range f.Expect() {
		for _, w := range b.Ways {
			m[w.ID] = osmref.Dedup(w.Refs)
		}
	}
	return func(id int64) ([]int64, bool) { l, ok := m[id]; return l, ok }
}

// relCase runs relindex with several pass counts and compares.
func relCase(r *vlib.R, d string, dir string, f osmref.File, wix string, look func(int64) ([]int64, bool), passes []int, pre map[string][]byte, opts ...run.Opt) {
	in := f.Encode()
	want := osmref.RelIdxText(osmref.ExpectRelIdx(f.Expect(), look))
	first := ""
	for i, p := range passes {
		dd := fmt.Sprintf("%s passes=%d", d, p)
		if !run.MineIn(r, dd) {
			continue
		}
		r.Begin(dd)
		fs := map[string][]byte{"in.pbf": in, "w.idx": []byte(wix)}
		for k, v := range pre {
			fs[k] = v
		}
		run.Fresh(dir, fs)
		x := run.Cmd(r, dir, run.Opt{}, "relindex", "-i", dir+"/in.pbf", "-x", dir+"/w.idx", "-o", dir+"/out", "-w", "2", "-p", fmt.Sprint(p))
		if b := x.Bad(); b != "" {
			r.Fail(dd, b, x.Stack, nil)
			return
		}
		got, err := osmref.ReadRelIdx([]byte(x.Files["out"]))
		if err != nil {
			r.Fail(dd, err.Error(), "", nil)
			return
		}
		if t := osmref.RelIdxText(got); t != want {
			r.Fail(dd, "wrong relation index: "+run.Diff(t, want), "got "+run.Short(t)+"\nwant "+run.Short(want), nil)
			return
		}
		if i == 0 || first == "" {
			first = x.Files["out"]
		} else if x.Files["out"] != first && first != "" {
			r.Fail(dd, "the bytes differ from those of one pass", "", nil)
			return
		}
		r.Nontrivial(dd)
		for _, o := range opts { // other schedules
			run.Fresh(dir, fs)
			x := run.Cmd(r, dir, o, "relindex", "-i", dir+"/in.pbf", "-x", dir+"/w.idx", "-o", dir+"/out", "-w", "2", "-p", fmt.Sprint(p))
			if b := x.Bad(); b != "" {
				r.Fail(dd, b, x.Stack, nil)
				return
			}
			if x.Files["out"] != first {
				r.Fail(dd, fmt.Sprintf("under the schedule %+v: %s", o.Strategy, run.Diff(x.Files["out"], first)), "", nil)
				return
			}
			r.Res.Schedules++
		}
	}
}

func members(s []int) []osmref.Member {
	var m []osmref.Member
	for i, k := range s {
		role := []string{"", "outer", "inner"}[i%3]
		switch k {
		case 0:
			m = append(m, osmref.Member{Type: 1, ID: 3, Role: role})
		case 1:
			m = append(m, osmref.Member{Type: 1, ID: 8, Role: role})
		case 2:
			m = append(m, osmref.Member{Type: 1, ID: 5, Role: role})
		case 3:
			m = append(m, osmref.Member{Type: 1, ID: 4, Role: role}) // no such way
		case 4:
			m = append(m, osmref.Member{Type: 1, ID: 5000, Role: role}) // beyond the last way
		case 5:
			m = append(m, osmref.Member{Type: 0, ID: 3, Role: role})
		case 6:
			m = append(m, osmref.Member{Type: 2, ID: 8, Role: role})
		case 7:
			m = append(m, osmref.Member{Type: 1, ID: 1000, Role: role})
		case 8:
			m = append(m, osmref.Member{Type: 1, ID: 9, Role: role})
		case 9:
			m = append(m, osmref.Member{Type: 1, ID: 1, Role: role}) // before the first way
		}
	}
	return m
}

// buildWays makes a way index with the real command.
func buildWays(r *vlib.R, dir string, f osmref.File, align int) (string, string) {
	run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
	a := []string{"-i", dir + "/in.pbf", "-o", dir + "/w.idx", "-w", "1"}
	if align >= 0 {
		a = append(a, "-a", fmt.Sprint(align))
	}
	return run.Quiet(r, dir, "w.idx", "wayindex", a...)
}

func init() {
	vlib.Register("C07.members", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		wf := wayFile()
		look := lookup(wf)
		wix, bad := buildWays(r, dir, wf, -1)
		if bad != "" {
			r.Fail("way index", bad, "", nil)
			return
		}
		n := r.Pick(3, 4)
		var rels []osmref.Rel
		id := int64(0)
		sequences(10, n, func(s []int) {
			id++
			rels = append(rels, osmref.Rel{ID: id, Members: members(s)})
		})
		// every relation alone
		for _, x := range rels[:r.Pick(111, 1111)] {
			if !run.Mine(r, fmt.Sprintf("relation %d alone %v", x.ID, x.Members)) || r.Stop() || r.Late("C07.members") {
				continue
			}
			relCase(r, fmt.Sprintf("relation %d alone %v", x.ID, x.Members), dir, osmref.File{run.Data(osmref.Group{Rels: []osmref.Rel{x}})}, wix, look, []int{1, 2, 3, 5}, nil)
		}
		// all of them, divided over blocks and groups
		for _, per := range []int{1, 7, 100, 5000} {
			for _, grp := range []int{1, 3, 1000} {
				d := fmt.Sprintf("all %d relations, %d in a block, %d in a group", len(rels), per, grp)
				if per > len(rels) && !r.Thorough() && grp == 1 {
					per = len(rels)
				}
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				f := osmref.File{run.Header("h")}
				for i := 0; i < len(rels); i += per {
					e := i + per
					if e > len(rels) {
						e = len(rels)
					}
					b := run.Data()
					for j := i; j < e; j += grp {
						k := j + grp
						if k > e {
							k = e
						}
						b.Groups = append(b.Groups, osmref.Group{Rels: rels[j:k]})
					}
					f = append(f, b)
				}
				relCase(r, d, dir, f, wix, look, []int{1, 2, 3, 4, 5, 7, 40, 1000}, nil)
			}
		}
	})
	vlib.Register("C07.mixes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		kinds := []osmref.Group{
			{Rels: []osmref.Rel{{ID: 1, Members: members([]int{0, 5, 1})}}},
			{Rels: []osmref.Rel{{ID: 2}}},
			{Nodes: []osmref.Node{run.N(1, 1, 1, "a", "b")}},
			{Ways: []osmref.Way{run.W(3, 1, 2)}},
			{},
		}
		// way indexes of several alignments, and one without ways
		type wi struct {
			name string
			f    osmref.File
			al   int
		}
		wis := []wi{{"usual", wayFile(), -1}, {"no ways", osmref.File{run.Header("h")}, -1}, {"packed", wayFile(), 0}, {"wide", wayFile(), 6}, {"one", osmref.File{run.Data(osmref.Group{Ways: []osmref.Way{run.W(8, -5)}})}, -1}}
		for _, w := range wis {
			wix, bad := buildWays(r, dir, w.f, w.al)
			if bad != "" {
				r.Fail("way index "+w.name, bad, "", nil)
				return
			}
			look := lookup(w.f)
			sequences(len(kinds), r.Pick(3, 4), func(s []int) {
				for split := 0; split < 2; split++ {
					d := fmt.Sprintf("groups %v split=%d way index %s", s, split, w.name)
					if !run.Mine(r, d) || r.Stop() || r.Late("C07.mixes") {
						continue
					}
					f := osmref.File{run.Header("h")}
					b := run.Data()
					for _, k := range s {
						b.Groups = append(b.Groups, kinds[k])
						if split == 1 {
							f = append(f, b)
							b = run.Data()
						}
					}
					f = append(f, b)
					relCase(r, d, dir, f, wix, look, []int{1, 2, 3}, nil)
				}
			})
		}
	})
}
