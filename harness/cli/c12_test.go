package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	// blocks through the commands that read and write them
	vlib.Register("C12.cmds", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		kinds := []osmref.Group{
			{Nodes: []osmref.Node{run.N(3, -1, 900000001, "a", "b"), run.N(1<<40, 2, 2)}, DenseInfo: []byte{10, 2, 1, 1}},
			{Nodes: []osmref.Node{run.N(100, 3, 4)}, NoKV: true},
			{Ways: []osmref.Way{{ID: 4, Refs: []int64{7, -8, 9, 1 << 62}, Tags: run.Tags("a", "b", "c", ""), Info: []byte{8, 1}}, {ID: 5}}},
			{Rels: []osmref.Rel{{ID: 8, Info: []byte{8, 2}, Members: []osmref.Member{{Type: 1, ID: 4, Role: "a"}, {Type: 0, ID: 7, Role: ""}, {Type: 2, ID: 1 << 50, Role: "x"}}, Tags: run.Tags("c", "x")}, {ID: 9}}},
			{},
		}
		nf := osmref.File{run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1<<30, 5, 5)}})}
		nix, locs, bad := buildNodes(r, dir, nf)
		if bad != "" {
			r.Fail("node index", bad, "", nil)
			return
		}
		sequences(len(kinds), 3, func(s []int) {
			for opt := 0; opt < 5; opt++ {
				d := fmt.Sprintf("groups %v option=%d", s, opt)
				if !r.Case(d) {
					continue
				}
				b := run.Data()
				for _, k := range s {
					b.Groups = append(b.Groups, kinds[k])
				}
				switch opt {
				case 1:
					b.Zlib, b.Gran, b.LatOff, b.LonOff, b.DateGran = true, 1, 123456789, -987654321, 7
				case 2:
					b.StringTableLast, b.StringOrder, b.ExtraStrings = true, 1, []string{"unused"}
				case 3:
					b.Gran, b.DateGran = 100, 1000
				case 4:
					b.Zlib, b.Gran, b.LatOff = true, 1<<31-1, -1
				}
				f := osmref.File{run.Header("one"), b}
				out := rewriteCase(r, d+" rewritten", dir, f, nix, locs)
				if out == "" {
					continue
				}
				in, _ := osmref.Parse(f.Encode())
				got, _ := osmref.Parse([]byte(out))
				for i := range in {
					if string(in[i].DenseInfo) != string(got[i].DenseInfo) {
						r.Fail(d+" rewritten", fmt.Sprintf("metadata of nodes is %x, not %x", got[i].DenseInfo, in[i].DenseInfo), "", nil)
					}
					for j := range in[i].Rels {
						if string(in[i].Rels[j].Info) != string(got[i].Rels[j].Info) {
							r.Fail(d+" rewritten", fmt.Sprintf("metadata of relations is %x, not %x", got[i].Rels[j].Info, in[i].Rels[j].Info), "", nil)
						}
					}
					if in[i].Strings != got[i].Strings {
						r.Fail(d+" rewritten", fmt.Sprintf("%d strings, not %d", got[i].Strings, in[i].Strings), "", nil)
					}
				}
				filterCase(r, d+" filtered", dir, f)
			}
		})
	})
	// tables of many strings, the first and the last of them used by every kind of entity
	vlib.Register("C13.wide", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, n := range []int{126, 127, 128, 254, 255, 256, 16382, 16383, 16384, 32766, 32767, 32768, 65534, 65535, 65536, 70000, r.Pick(200000, 1<<21+2)} {
			for _, by := range []int{0, 1, 2, 3} { // where the many are
				d := fmt.Sprintf("%d strings in %d", n, by)
				if by == 1 && n > 300000 { // a way of more than 2 MiB
					continue
				}
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				name := func(i int) string { return fmt.Sprintf("s%07d", i) }
				a := osmref.Node{ID: 1, Tags: run.Tags(name(0), name(n))}
				w := osmref.Way{ID: 1, Tags: run.Tags(name(1), name(n), name(n), "s"), Refs: []int64{1}}
				x := osmref.Rel{ID: 1, Tags: run.Tags(name(n-1), name(2)), Members: []osmref.Member{{Type: 1, ID: 1, Role: name(n)}, {Type: 0, ID: 1, Role: name(0)}, {Type: 2, ID: 1, Role: ""}, {Type: 1, ID: 1, Role: name(n / 2)}}}
				for i := 3; i < n-1; i++ {
					switch k := name(i); by {
					case 0:
						a.Tags = append(a.Tags, osmref.KV{K: k, V: ""})
					case 1:
						w.Tags = append(w.Tags, osmref.KV{K: k, V: k})
					case 2:
						x.Tags = append(x.Tags, osmref.KV{K: k, V: "v"})
					case 3:
						x.Members = append(x.Members, osmref.Member{Type: i % 3, ID: int64(i), Role: k})
					}
				}
				f := osmref.File{run.Data(osmref.Group{Nodes: []osmref.Node{a}}, osmref.Group{Ways: []osmref.Way{w}}, osmref.Group{Rels: []osmref.Rel{x}})}
				if out := filterCase(r, d, dir, f); out != "" {
					if bs, _ := osmref.Parse([]byte(out)); !bs[0].Blank0 || bs[0].Dup {
						r.Fail(d, fmt.Sprintf("blank string first: %v, a string twice: %v", bs[0].Blank0, bs[0].Dup), "", nil)
					}
				}
			}
		}
	})
	vlib.Register("C13.cmds", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		al := []string{"", "a", "b", "note"}
		sequences(len(al), r.Pick(4, 5), func(s []int) {
			d := fmt.Sprintf("strings %v through tagfilter", s)
			if !r.Case(d) {
				return
			}
			at := func(i int) string {
				if len(s) == 0 {
					return ""
				}
				return al[s[i%len(s)]]
			}
			g := []osmref.Group{
				{Nodes: []osmref.Node{run.N(1, 1, 1, "k", at(0)), run.N(2, 2, 2, "x"+at(1), at(2), "z", at(3)), run.N(3, 3, 3)}},
				{Ways: []osmref.Way{{ID: 1, Refs: []int64{1}, Tags: run.Tags(at(0), at(1))}, {ID: 2, Tags: run.Tags(at(2), at(3), "x", "x")}}},
				{Rels: []osmref.Rel{{ID: 1, Tags: run.Tags(at(3), at(2)), Members: []osmref.Member{{Type: 0, ID: 1, Role: at(0)}, {Type: 1, ID: 1, Role: at(1)}, {Type: 1, ID: 2, Role: at(2)}}}}},
			}
			var all osmref.File
			for m := 1; m < 8; m++ {
				b := run.Data()
				for i := range g {
					if m>>i&1 != 0 {
						b.Groups = append(b.Groups, g[i])
					}
				}
				all = append(all, b)
			}
			out := filterCase(r, d, dir, all)
			if out == "" {
				return
			}
			bs, _ := osmref.Parse([]byte(out))
			for i, b := range bs {
				if b.Type == "OSMData" && (!b.Blank0 || b.Dup) {
					r.Fail(d, fmt.Sprintf("block %d: blank string first: %v, a string twice: %v", i, b.Blank0, b.Dup), "", nil)
				}
			}
			// the same again gives the same bytes
			if again := filterCase(r, d+" again", dir, all); again != "" && strings.Compare(again, out) != 0 {
				r.Fail(d+" again", "the output differs: "+run.Diff(again, out), "", nil)
			}
		})
	})
}
