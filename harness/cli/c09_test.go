package cli

import (
	"fmt"
	"sort"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// notEmpty drops the data blocks with nothing in them.
func notEmpty(bs []osmref.PBlock) []osmref.PBlock {
	var out []osmref.PBlock
	for _, b := range bs {
		if b.Type == "OSMData" && len(b.Nodes)+len(b.Ways)+len(b.Rels) == 0 {
			continue
		}
		out = append(out, b)
	}
	return out
}

// checkFilter compares an output of tagfilter with its input.
func checkFilter(f osmref.File, in []byte, out string) string {
	got, err := osmref.Parse([]byte(out))
	if err != nil {
		return "the output is no valid PBF: " + err.Error()
	}
	exp := f.Expect()
	// what is left of each block, with the exact positions
	var want []osmref.PBlock
	for _, b := range exp {
		if b.Type != "OSMData" {
			want = append(want, b)
			continue
		}
		nb := b
		nb.Nodes = nil
		for _, n := range b.Nodes {
			m := map[string]string{}
			for k, v := range n.Tags {
				if osmref.KeepTag(k) {
					m[k] = v
				}
			}
			if len(m) > 0 {
				nb.Nodes = append(nb.Nodes, osmref.PNode{ID: n.ID, Lat: n.Lat, Lon: n.Lon, Tags: m})
			}
		}
		want = append(want, nb)
	}
	want, got = notEmpty(want), notEmpty(got)
	if len(want) != len(got) {
		return fmt.Sprintf("%d blocks, not %d: got %s want %s", len(got), len(want), run.Short(run.Text(got)), run.Short(run.Text(want)))
	}
	for i := range want {
		if len(want[i].Nodes) != len(got[i].Nodes) {
			return fmt.Sprintf("block %d: got %s want %s", i, run.Short(got[i].Text()), run.Short(want[i].Text()))
		}
		for j := range want[i].Nodes {
			a, b := &got[i].Nodes[j], want[i].Nodes[j]
			if d := a.Lat - b.Lat; d <= -100 || d >= 100 {
				return fmt.Sprintf("node %d: latitude %d, not %d", b.ID, a.Lat, b.Lat)
			}
			if d := a.Lon - b.Lon; d <= -100 || d >= 100 {
				return fmt.Sprintf("node %d: longitude %d, not %d", b.ID, a.Lon, b.Lon)
			}
			a.Lat, a.Lon = b.Lat, b.Lon
		}
		if a, b := got[i].Text(), want[i].Text(); a != b {
			return fmt.Sprintf("block %d: %s", i, run.Diff(a, b))
		}
	}
	var hi, ho []string
	ib, _ := osmref.ParseBlobs(in)
	ob, _ := osmref.ParseBlobs([]byte(out))
	for _, b := range ib {
		if b.Type != "OSMData" {
			hi = append(hi, string(b.Framed))
		}
	}
	for _, b := range ob {
		if b.Type != "OSMData" {
			ho = append(ho, string(b.Framed))
		}
	}
	if strings.Join(hi, "|") != strings.Join(ho, "|") {
		return "a header blob is changed"
	}
	return ""
}

func filterCase(r *vlib.R, d, dir string, f osmref.File) string {
	in := f.Encode()
	r.Begin(d)
	run.Fresh(dir, map[string][]byte{"in.pbf": in})
	x := run.Cmd(r, dir, run.Opt{}, "tagfilter", "-i", dir+"/in.pbf", "-o", dir+"/out", "-w", "1")
	if b := x.Bad(); b != "" {
		r.Fail(d, b, x.Stack, nil)
		return ""
	}
	if bad := checkFilter(f, in, x.Files["out"]); bad != "" {
		r.Fail(d, bad, "", nil)
		return ""
	}
	r.Nontrivial(d)
	return x.Files["out"]
}

// keys near every entry of the delete list.
func keysNear() []string {
	m := map[string]bool{}
	add := func(s string) {
		m[s] = true
		if len(s) > 0 {
			m[s[:len(s)-1]] = true
			m[s[1:]] = true
		}
		m[s+"x"] = true
		m[s+":"] = true
		m[s+"_1"] = true
		m["x"+s] = true
		m[" "+s] = true
		m[strings.ToUpper(s)] = true
		m[strings.ToLower(s)] = true
		m[strings.Replace(s, ":", "_", 1)] = true
		m[s+"\x00"] = true
		m[s+"é"] = true
	}
	for _, s := range osmref.DropTags() {
		add(s)
	}
	for _, s := range osmref.DropPrefixes {
		add(s)
	}
	for _, s := range []string{"name", "highway", "a", ":", "addr:street", "ref"} {
		m[s] = true
	}
	delete(m, "")
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	vlib.Register("C09.keys", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		ks := keysNear()
		// every key alone and with a kept and a dropped one, on nodes, ways and relations
		for _, k := range ks {
			// (a dense node cannot have an empty key: its index ends the list)
			d := fmt.Sprintf("key %q", k)
			if !run.Mine(r, d) || r.Stop() || r.Late("C09.keys") {
				continue
			}
			kv := run.Tags(k, "v")
			kv2 := run.Tags(k, "v", "keep", "1")
			kv3 := run.Tags("source", "s", k, "", "tiger:a", "b")
			f := osmref.File{run.Header("h"), run.Data(osmref.Group{Nodes: []osmref.Node{{ID: 1, Lat: 10, Lon: -10, Tags: kv}, {ID: 2, Lat: 3, Lon: 4, Tags: kv2}, {ID: 5, Tags: kv3}, {ID: 6, Lat: 1}}},
				osmref.Group{Ways: []osmref.Way{{ID: 3, Tags: run.Tags("", k)}, {ID: 1, Refs: []int64{1, 2}, Tags: kv}, {ID: 2, Tags: kv3}}}, osmref.Group{Rels: []osmref.Rel{{ID: 1, Tags: kv3, Members: []osmref.Member{{Type: 2, ID: 7, Role: k}, {Type: 0, ID: 1, Role: "v"}}}}}),
				run.Data(osmref.Group{Nodes: []osmref.Node{{ID: 7, Tags: kv}}})}
			filterCase(r, d, dir, f)
		}
		if run.Mine(r, "all keys") {
			var ns []osmref.Node
			for i, k := range ks {
				ns = append(ns, osmref.Node{ID: int64(3*i + 1), Lat: int64(i), Lon: int64(-i), Tags: run.Tags(k, fmt.Sprint(i), ks[(i*7+1)%len(ks)], "x")})
			}
			filterCase(r, "all keys", dir, osmref.File{run.Data(osmref.Group{Nodes: ns})})
		}
	})
	vlib.Register("C09.combos", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		// every list of at most three tags of these
		tags := [][2]string{{"name", "a"}, {"k", ""}, {":", "v"}, {"note", "n"}, {"source:x", "name"}, {"z", "note"}}
		var sets [][]osmref.KV
		sequences(len(tags), 3, func(s []int) {
			for i := range s {
				for j := 0; j < i; j++ {
					if s[i] == s[j] {
						return
					}
				}
			}
			var kv []osmref.KV
			for _, k := range s {
				kv = append(kv, osmref.KV{K: tags[k][0], V: tags[k][1]})
			}
			sets = append(sets, kv)
		})
		// pairs and triples of nodes
		for i := range sets {
			for j := range sets {
				d := fmt.Sprintf("nodes with tags %v and %v", sets[i], sets[j])
				if len(sets[i])+len(sets[j]) > r.Pick(4, 6) || !run.Mine(r, d) || r.Stop() || r.Late("C09.combos") {
					continue
				}
				ns := []osmref.Node{{ID: 3, Lat: 5, Lon: 6, Tags: sets[i]}, {ID: 1, Lat: -5, Lon: -600, Tags: sets[j]}, {ID: 9, Lat: 4, Lon: 4}, {ID: 10, Lat: 1, Lon: 1, Tags: sets[i]}}
				filterCase(r, d, dir, osmref.File{run.Data(osmref.Group{Nodes: ns[:2]}, osmref.Group{Nodes: ns[2:]})})
			}
		}
	})
	// ways with every short list of refs (of original and of rewritten files),
	// relations with every short list of members
	vlib.Register("C09.refs", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		vals := []int64{0, 1, 2, -1, -2, -3, -1 << 63, -1<<63 + 1, 1<<63 - 1, 1<<63 - 2, 1 << 40, 1<<40 + 1, -1<<40 - 1}
		var ws []osmref.Way
		var rels []osmref.Rel
		sequences(len(vals), r.Pick(3, 4), func(s []int) {
			w := run.W(int64(len(ws) + 1))
			x := osmref.Rel{ID: int64(len(rels) + 1)}
			for i, k := range s {
				w.Refs = append(w.Refs, vals[k])
				x.Members = append(x.Members, osmref.Member{Type: (k + i) % 3, ID: vals[k], Role: []string{"", "note", "outer"}[(k+i*i)%3]})
			}
			if len(s)%2 == 1 {
				w.Tags, x.Tags = run.Tags("note", "x", "name", "y"), run.Tags("a", "b")
			}
			ws, rels = append(ws, w), append(rels, x)
		})
		for i := 0; i < len(ws); i += 50 {
			j := i + 50
			if j > len(ws) {
				j = len(ws)
			}
			d := fmt.Sprintf("ref lists and members %d to %d", i, j)
			if !run.Mine(r, d) || r.Stop() || r.Late("C09.refs") {
				continue
			}
			b := run.Data(osmref.Group{Ways: ws[i:j]}, osmref.Group{Rels: rels[i:j]})
			b.Zlib = i%100 == 0
			filterCase(r, d, dir, osmref.File{b})
		}
	})
	vlib.Register("C09.mixes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		kinds := []osmref.Group{
			{Nodes: []osmref.Node{run.N(1, 1, 1, "note", "x"), run.N(2, 2, 2)}},
			{Nodes: []osmref.Node{run.N(3, -1, 900000001, "name", "note", "note", "name"), run.N(1<<40, 2, 2, "a", "b")}, DenseInfo: []byte{10, 2, 1, 1}},
			{Nodes: []osmref.Node{run.N(100, 3, 4)}, NoKV: true},
			{Ways: []osmref.Way{{ID: 4, Refs: []int64{7, -8, 9, 1 << 62}, Tags: run.Tags("note", "b", "c", ""), Info: []byte{8, 1}}, {ID: 5}}},
			{Rels: []osmref.Rel{{ID: 8, Members: []osmref.Member{{Type: 1, ID: 4, Role: "note"}, {Type: 0, ID: 7, Role: ""}, {Type: 2, ID: 1 << 50, Role: "x"}}, Tags: run.Tags("source", "x")}, {ID: 9}}},
			{},
		}
		sequences(len(kinds), 3, func(s []int) {
			for opt := 0; opt < 7; opt++ {
				d := fmt.Sprintf("groups %v option=%d", s, opt)
				if !run.Mine(r, d) || r.Stop() || r.Late("C09.mixes") {
					continue
				}
				b := run.Data()
				for _, k := range s {
					b.Groups = append(b.Groups, kinds[k])
				}
				switch opt {
				case 1:
					b.Zlib = true
				case 2:
					b.Gran, b.LatOff, b.LonOff, b.DateGran = 1, 123456789, -987654321, 7
				case 3:
					b.StringTableLast, b.StringOrder = true, 1
				case 4:
					b.ExtraStrings = []string{"unused", strings.Repeat("long", 100)}
				case 5:
					b.Gran, b.Zlib, b.LatOff, b.LonOff = 1000, true, 50, -50
				case 6:
					b.Gran, b.LatOff, b.LonOff = 250, -99, 99
				}
				filterCase(r, d, dir, osmref.File{run.Header("one"), b, run.Header("two")})
			}
		})
		for _, c := range run.Corpus() {
			if run.Mine(r, "corpus "+c.Name) {
				filterCase(r, "corpus "+c.Name, dir, c.F)
			}
		}
		for k, what := range scaleKinds {
			if d := "blocks with every " + what; run.Mine(r, d) {
				filterCase(r, d, dir, scales(k))
			}
		}
		// coordinates at every corner, in several granularities
		lat := []int64{-90000000000, -89999999900, -1000, -100, 0, 100, 89999999900, 90000000000}
		lon := []int64{-180000000000, -179999999900, -100, 0, 100, 179999999900, 180000000000}
		for _, g := range []int64{100, 10, 1, 1000, 100000} {
			for _, off := range []int64{0, 100000, -300000, 5} {
				d := fmt.Sprintf("corner coordinates, granularity %d offset %d", g, off)
				if !run.Mine(r, d) {
					continue
				}
				var ns []osmref.Node
				for _, a := range lat {
					for _, o := range lon {
						ns = append(ns, osmref.Node{ID: int64(len(ns) + 1), Lat: (a - off) / g, Lon: (o + off) / g, Tags: run.Tags("a", "b")})
					}
				}
				b := run.Data(osmref.Group{Nodes: ns})
				b.Gran, b.LatOff, b.LonOff = int32(g), off, -off
				filterCase(r, d, dir, osmref.File{b})
			}
		}
	})
}
