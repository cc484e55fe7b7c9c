package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// rewritten is the content of f after rewriting.
func rewritten(f []osmref.PBlock, locs map[int64]int64) []osmref.PBlock {
	var out []osmref.PBlock
	for _, b := range f {
		nb := b
		nb.Ways = nil
		for _, w := range b.Ways {
			nw := w
			nw.Refs = append([]int64{}, w.Refs...)
			for i, x := range w.Refs {
				if x >= 0 {
					if l, ok := locs[x]; ok {
						nw.Refs[i] = l
					}
				}
			}
			nb.Ways = append(nb.Ways, nw)
		}
		out = append(out, nb)
	}
	return out
}

// meta is what a block says besides its entities.
func meta(bs []osmref.PBlock) string {
	var s strings.Builder
	for _, b := range bs {
		fmt.Fprintf(&s, "%d/%d/%d/%d ", b.Gran, b.DateGran, b.LatOff, b.LonOff)
	}
	return s.String()
}

// checkRewrite compares an output of rewritenodes with its input.
func checkRewrite(in []byte, f osmref.File, locs map[int64]int64, out string) string {
	exp := f.Expect()
	got, err := osmref.Parse([]byte(out))
	if err != nil {
		return "the output is no valid PBF: " + err.Error()
	}
	want := rewritten(exp, locs)
	if a, b := run.Text(got), run.Text(want); a != b {
		return "wrong content: " + run.Diff(a, b)
	}
	if a, b := meta(got), meta(want); a != b {
		return "granularity or offsets changed: got " + a + " want " + b
	}
	ib, _ := osmref.ParseBlobs(in)
	ob, _ := osmref.ParseBlobs([]byte(out))
	for i := range ib {
		if len(exp[i].Ways) == 0 && string(ib[i].Framed) != string(ob[i].Framed) {
			return fmt.Sprintf("block %d has no ways, but is changed", i)
		}
	}
	return ""
}

func rewriteCase(r *vlib.R, d, dir string, f osmref.File, nix string, locs map[int64]int64, extra ...string) string {
	in := f.Encode()
	r.Begin(d)
	run.Fresh(dir, map[string][]byte{"in.pbf": in, "n.idx": []byte(nix)})
	x := run.Cmd(r, dir, run.Opt{}, "rewritenodes", append([]string{"-i", dir + "/in.pbf", "-x", dir + "/n.idx", "-o", dir + "/out", "-w", "1"}, extra...)...)
	if b := x.Bad(); b != "" {
		r.Fail(d, b, x.Stack, nil)
		return ""
	}
	out := x.Files["out"]
	if bad := checkRewrite(in, f, locs, out); bad != "" {
		r.Fail(d, bad, "", nil)
		return ""
	}
	r.Nontrivial(d)
	return out
}

func idem(r *vlib.R, d, dir, out string) {
	if out == "" {
		return
	}
	y := run.Cmd(r, dir, run.Opt{}, "rewritenodes", "-i", dir+"/out", "-x", dir+"/n.idx", "-o", dir+"/out2", "-w", "1")
	if b := y.Bad(); b != "" {
		r.Fail(d+" again", "rewriting the output again: "+b, "", nil)
		return
	}
	if y.Files["out2"] != out {
		r.Fail(d+" again", "rewriting the output again changes it: "+run.Diff(y.Files["out2"], out), "", nil)
	}
}

// buildNodes makes a node index with the real command.
func buildNodes(r *vlib.R, dir string, f osmref.File) (string, map[int64]int64, string) {
	run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
	s, bad := run.Quiet(r, dir, "n.idx", "nodeindex", "-i", dir+"/in.pbf", "-o", dir+"/n.idx", "-w", "1")
	return s, osmref.NodeLocs(f.Expect()), bad
}

func init() {
	// nodes 0, 7, 9 (8 is a gap inside a run), 100..102, 2000000000000
	nodes := func() osmref.File {
		return osmref.File{run.Data(osmref.Group{Nodes: []osmref.Node{run.N(0, 1, 2), run.N(7, -3, 900000000), run.N(9, 0, 0)}}), run.Data(osmref.Group{Nodes: []osmref.Node{run.N(100, -900000000, -1800000000), run.N(101, 5, 5), run.N(102, 5, 5), run.N(2000000000000, 77, -77)}})}
	}
	refs := []int64{7, 101, 8, 50, 3000000000000, -1 << 63, -42, 0, 102}
	vlib.Register("C08.refs", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		nix, locs, bad := buildNodes(r, dir, nodes())
		if bad != "" {
			r.Fail("node index", bad, "", nil)
			return
		}
		// every sequence of refs, as one way, as a way each, and many in one block
		var all []osmref.Way
		id := int64(0)
		sequences(len(refs), r.Pick(3, 4), func(s []int) {
			id++
			w := osmref.Way{ID: id}
			for _, k := range s {
				w.Refs = append(w.Refs, refs[k])
			}
			all = append(all, w)
			if len(s) > r.Pick(3, 4) {
				return
			}
			d := fmt.Sprintf("one way with refs %v", w.Refs)
			if !run.Mine(r, d) || r.Stop() {
				return
			}
			out := rewriteCase(r, d, dir, osmref.File{run.Header("h"), run.Data(osmref.Group{Ways: []osmref.Way{w}})}, nix, locs)
			idem(r, d, dir, out)
			d = fmt.Sprintf("ways with a ref each %v", w.Refs)
			var ws []osmref.Way
			for i, x := range w.Refs {
				ws = append(ws, run.W(int64(i+1), x))
			}
			rewriteCase(r, d, dir, osmref.File{run.Data(osmref.Group{Ways: ws})}, nix, locs)
		})
		for _, per := range []int{1, 10, 1000, len(all)} {
			d := fmt.Sprintf("all sequences of refs, %d ways in a block", per)
			if !run.Mine(r, d) || r.Stop() || r.Late(d) {
				continue
			}
			var f osmref.File
			for i := 0; i < len(all); i += per {
				e := i + per
				if e > len(all) {
					e = len(all)
				}
				f = append(f, run.Data(osmref.Group{Ways: all[i : i+(e-i)/2]}, osmref.Group{Ways: all[i+(e-i)/2 : e]}))
			}
			out := rewriteCase(r, d, dir, f, nix, locs)
			idem(r, d, dir, out)
		}
	})
	vlib.Register("C08.mixes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		nix, locs, bad := buildNodes(r, dir, nodes())
		if bad != "" {
			r.Fail("node index", bad, "", nil)
			return
		}
		kinds := []osmref.Group{
			{Ways: []osmref.Way{{ID: 4, Refs: []int64{7, 8, 9, 101}, Tags: run.Tags("a", "b", "c", ""), Info: []byte{8, 1}}, {ID: 5}}},
			{Nodes: []osmref.Node{run.N(7, 5, -5, "name", "x"), run.N(9, 1, 1)}, DenseInfo: []byte{10, 2, 0, 1}},
			{Nodes: []osmref.Node{run.N(100, 3, 4)}, NoKV: true},
			{Rels: []osmref.Rel{{ID: 8, Members: []osmref.Member{{Type: 1, ID: 4, Role: "r"}, {Type: 0, ID: 7, Role: ""}}, Tags: run.Tags("type", "x"), Info: []byte{8, 3}}}},
			{},
		}
		sequences(len(kinds), r.Pick(3, 4), func(s []int) {
			for opt := 0; opt < 6; opt++ {
				d := fmt.Sprintf("groups %v option=%d", s, opt)
				if !run.Mine(r, d) || r.Stop() || r.Late("C08.mixes") {
					continue
				}
				b := run.Data()
				for _, k := range s {
					b.Groups = append(b.Groups, kinds[k])
				}
				switch opt {
				case 1:
					b.Zlib = true
				case 2:
					b.Gran, b.LatOff, b.LonOff, b.DateGran = 1, 123456789, -987654321, 7
				case 3:
					b.StringTableLast, b.StringOrder = true, 1
				case 4:
					b.ExtraStrings = []string{"unused", strings.Repeat("long", 100)}
				case 5:
					b.Gran, b.Zlib = 100, true
				}
				f := osmref.File{run.Header("one"), b, run.Header("two")}
				out := rewriteCase(r, d, dir, f, nix, locs)
				idem(r, d, dir, out)
			}
		})
		for k, what := range scaleKinds {
			if d := "blocks with every " + what; run.Mine(r, d) {
				idem(r, d, dir, rewriteCase(r, d, dir, scales(k), nix, locs))
			}
		}
		for _, c := range run.Corpus() {
			d := "corpus " + c.Name
			if !run.Mine(r, d) || r.Stop() {
				continue
			}
			nix, locs, bad := buildNodes(r, dir, c.F)
			if bad != "" {
				r.Fail("node index of "+c.Name, bad, "", nil)
				continue
			}
			out := rewriteCase(r, d, dir, c.F, nix, locs)
			idem(r, d, dir, out)
		}
	})
}
