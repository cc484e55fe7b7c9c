// Package tx checks the readers and writers of blocks and string tables.
package tx

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/t"
)

func TestZZ(tt *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

func kv(ss ...string) (t []osmref.KV) {
	for i := 0; i < len(ss); i += 2 {
		t = append(t, osmref.KV{K: ss[i], V: ss[i+1]})
	}
	return
}

func nodeKinds() (out []osmref.Node) {
	tags := [][]osmref.KV{nil, kv("a", "b"), kv("b", "", "a", "a"), kv("c", "b", "é%", strings.Repeat("z", 130))}
	for _, p := range [][2]int64{{0, 0}, {-5, 7}, {900000000, -1800000000}} {
		for _, t := range tags {
			out = append(out, osmref.Node{Lat: p[0], Lon: p[1], Tags: t})
		}
	}
	return
}

var infos = [][]byte{nil, {0x08, 0x01, 0x10, 0x96, 0x01}}

func wayKinds() (out []osmref.Way) {
	for _, t := range [][]osmref.KV{nil, kv("a", "b"), kv("", "", "b", "a")} {
		for _, refs := range [][]int64{nil, {1}, {5, 3, 5}, {-1 << 62, 1 << 62, 0}, {-1 << 63, -1}} {
			for _, in := range infos {
				out = append(out, osmref.Way{ID: int64(len(out) * 77), Tags: t, Refs: refs, Info: in})
			}
		}
	}
	return
}

func relKinds() (out []osmref.Rel) {
	for _, t := range [][]osmref.KV{nil, kv("a", "b"), kv("", "", "b", "a")} {
		for _, ms := range [][]osmref.Member{nil, {{Type: 0, ID: 1}}, {{Type: 1, ID: 9, Role: "a"}, {Type: 1, ID: 9, Role: "zz"}}, {{Type: 2, ID: -5, Role: "b"}, {Type: 0, ID: 1 << 61, Role: ""}, {Type: 1, ID: 3, Role: "b"}}} {
			for _, in := range infos {
				out = append(out, osmref.Rel{ID: int64(len(out) * 133), Tags: t, Members: ms, Info: in})
			}
		}
	}
	return
}

// lists enumerates the sequences of up to n of k things.
func lists(k, n int, f func(s []int)) {
	var rec func(s []int)
	rec = func(s []int) {
		f(s)
		if len(s) < n {
			for i := 0; i < k; i++ {
				rec(append(s[:len(s):len(s)], i))
			}
		}
	}
	rec(nil)
}

// shape is what a block has besides entities.
type shape struct {
	gran, date int32
	lat, lon   int64
	extra      []string
	order      int
	last       bool
}

var shapes = []shape{
	{},
	{gran: 100, date: 1000},
	{gran: 1, date: 1, lat: 1, lon: -1},
	{gran: 1000, date: 60000, lat: -1 << 40, lon: 1 << 40, extra: []string{"q", "r"}, order: 1},
	{date: 500, lat: 5, extra: []string{"x"}, last: true},
	{gran: 7, lon: 9, order: 1, last: true},
	{gran: 1<<31 - 1, date: 1<<31 - 1},
}

func (s shape) put(b *osmref.Block) {
	b.Gran, b.DateGran, b.LatOff, b.LonOff, b.ExtraStrings, b.StringOrder, b.StringTableLast = s.gran, s.date, s.lat, s.lon, s.extra, s.order, s.last
}

func infoText(p *osmref.PBlock, dense, ways, rels bool) string {
	var s strings.Builder
	if dense {
		fmt.Fprintf(&s, "dense %x", p.DenseInfo)
	}
	if ways {
		for _, w := range p.Ways {
			fmt.Fprintf(&s, " w %x", w.Info)
		}
	}
	if rels {
		for _, r := range p.Rels {
			fmt.Fprintf(&s, " r %x", r.Info)
		}
	}
	return s.String()
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func reader(skip int) *t.PBReader {
	return &t.PBReader{SkipStringTable: skip&1 != 0, SkipDenseNodes: skip&2 != 0, SkipWays: skip&4 != 0, SkipRelations: skip&8 != 0}
}

// trip reads and writes a block.
func trip(in []byte, skip int) (out []byte, bad string) {
	copied := append([]byte{}, in...)
	bad = vlib.Guard(func() {
		var p t.PrimitiveBlock
		reader(skip).ReadPrimitiveBlock(in, &p)
		out = p.Write(nil)
		// behind other bytes, in a buffer with room
		for _, room := range []int{0, 1, len(out) / 2, len(out) + 50} {
			buf := append(make([]byte, 0, 3+room), "abc"...)
			full := buf[:cap(buf)]
			for i := 3; i < len(full); i++ {
				full[i] = 0xa5
			}
			if got := p.Write(buf); string(got) != "abc"+string(out) {
				bad = fmt.Sprintf("written behind other bytes, with room for %d, it is %x, not %x", room, got, out)
				return
			}
		}
	})
	if bad == "" && !bytes.Equal(in, copied) {
		bad = "the bytes read are changed"
	}
	return
}

// sound checks a written block against the one read.
func sound(want *osmref.PBlock, out []byte, skip int) string {
	got, err := osmref.ParsePrimitiveBlock(out)
	if err != nil {
		return "what is written is no valid block: " + err.Error()
	}
	if a, b := got.Text(), want.Text(); a != b {
		return "got " + short(a) + ", want " + short(b)
	}
	a := fmt.Sprint(got.Gran, got.DateGran, got.LatOff, got.LonOff)
	b := fmt.Sprint(want.Gran, want.DateGran, want.LatOff, want.LonOff)
	if a != b {
		return "granularities and offsets are " + a + ", not " + b
	}
	if got.Strings != want.Strings {
		return fmt.Sprintf("%d strings, not %d", got.Strings, want.Strings)
	}
	d, w, r := skip&2 != 0, skip&4 != 0, skip&8 != 0
	if a, b := infoText(got, d, w, r), infoText(want, d, w, r); a != b {
		return "metadata of unparsed parts: " + short(a) + ", not " + short(b)
	}
	return ""
}

// hl checks the high-level form of a block, and a block built from it.
func hl(in []byte, want *osmref.PBlock, back bool) (bad string) {
	m := vlib.Guard(func() {
		var p t.PrimitiveBlock
		reader(0).ReadPrimitiveBlock(in, &p)
		ns, ws, rs := p.ToNodes(), p.ToWays(), p.ToRelations()
		if bad = asText(ns, ws, rs, want); bad != "" || !back {
			return
		}
		q := t.MakePrimitiveBlock(ns, ws, rs)
		out := q.Write(nil)
		got, err := osmref.ParsePrimitiveBlock(out)
		if err != nil {
			bad = "the block built is invalid: " + err.Error()
			return
		}
		if a, b := got.Text(), want.Text(); a != b {
			bad = "the block built has " + short(a) + ", not " + short(b)
			return
		}
		if !got.Blank0 || got.Dup {
			bad = fmt.Sprintf("string table of the block built: blank string first: %v, a string twice: %v", got.Blank0, got.Dup)
			return
		}
		var p2 t.PrimitiveBlock
		reader(0).ReadPrimitiveBlock(out, &p2)
		if bad = asText(p2.ToNodes(), p2.ToWays(), p2.ToRelations(), want); bad != "" {
			bad = "after building and reading: " + bad
			return
		}
		if a := t.MakePrimitiveBlock(ns, ws, rs).Write(nil); !bytes.Equal(a, out) {
			bad = fmt.Sprintf("built again it is %x, not %x", a, out)
		}
	})
	if m != "" {
		return m
	}
	return
}

// asText compares high-level entities with those wanted.
func asText(ns t.Nodes, ws t.Ways, rs t.Relations, want *osmref.PBlock) string {
	p := osmref.PBlock{Type: "OSMData"}
	for _, n := range ns {
		p.Nodes = append(p.Nodes, osmref.PNode{ID: int64(n.Id), Lat: n.Lat, Lon: n.Lon, Tags: n.Tags})
	}
	for _, w := range ws {
		var refs []int64
		for _, n := range w.Nodes {
			refs = append(refs, int64(n))
		}
		p.Ways = append(p.Ways, osmref.PWay{ID: int64(w.Id), Refs: refs, Tags: w.Tags})
	}
	for _, r := range rs {
		x := osmref.PRel{ID: int64(r.Id), Tags: r.Tags}
		if len(r.Members) != len(r.Roles) || len(r.Members) != len(r.MemberType) {
			return fmt.Sprintf("relation %d: %d members, %d roles, %d types", r.Id, len(r.Members), len(r.Roles), len(r.MemberType))
		}
		for i := range r.Members {
			x.Members = append(x.Members, osmref.Member{Type: r.MemberType[i], ID: r.Members[i], Role: r.Roles[i]})
		}
		p.Rels = append(p.Rels, x)
	}
	if a, b := p.Text(), want.Text(); a != b {
		return "high-level form: got " + short(a) + ", want " + short(b)
	}
	return ""
}

// each judges a block with every combination of skipped parts.
func each(r *vlib.R, d string, bl osmref.Block) {
	in := bl.PrimitiveBlock()
	want := osmref.File{bl}.Expect()[0]
	if p, err := osmref.ParsePrimitiveBlock(in); err == nil {
		want.Strings, want.DenseInfo = p.Strings, p.DenseInfo
		if p.Text() != want.Text() {
			panic("the generator is wrong: " + d)
		}
	} else {
		panic(err)
	}
	for skip := 0; skip < 16; skip++ {
		out, bad := trip(in, skip)
		if bad == "" {
			bad = sound(&want, out, skip)
		}
		if bad == "" { // what was written is a block like any other
			w2 := want
			w2.DenseInfo = nil
			if p, _ := osmref.ParsePrimitiveBlock(out); p != nil {
				w2 = *p
			}
			var out2 []byte
			if out2, bad = trip(out, 15-skip); bad == "" {
				bad = sound(&w2, out2, 15-skip)
			}
			if bad != "" {
				bad = "a second time: " + bad
			}
		}
		r.Res.Transitions++
		if bad != "" {
			r.Fail(fmt.Sprintf("%s, skipped %04b", d, skip), bad, fmt.Sprintf("in %x\nout %x", in, out), nil)
			return
		}
	}
	// building divides positions by 100, so only multiples can come back
	back := true
	for _, n := range want.Nodes {
		back = back && n.Lat%100 == 0 && n.Lon%100 == 0
	}
	if bad := hl(in, &want, back); bad != "" {
		r.Fail(d+", high level", bad, fmt.Sprintf("in %x", in), nil)
	}
}

func pickNodes(s []int, ks []osmref.Node) (out []osmref.Node) {
	for i, k := range s {
		n := ks[k]
		n.ID = int64(i*i*300 + k)
		out = append(out, n)
	}
	return
}
func pickWays(s []int, ks []osmref.Way) (out []osmref.Way) {
	for _, k := range s {
		out = append(out, ks[k])
	}
	return
}
func pickRels(s []int, ks []osmref.Rel) (out []osmref.Rel) {
	for _, k := range s {
		out = append(out, ks[k])
	}
	return
}

func init() {
	kindsOf := func(r *vlib.R, what string, k, n int, make func(s []int) []osmref.Group) {
		lists(k, n, func(s []int) {
			d := fmt.Sprintf("%s %v", what, s)
			if !r.Case(d) {
				return
			}
			for gi, g := range make(s) {
				for si, sh := range shapes {
					bl := osmref.Block{Groups: []osmref.Group{g}}
					sh.put(&bl)
					each(r, fmt.Sprintf("%s, group %d, shape %d", d, gi, si), bl)
				}
			}
			r.Nontrivial(d)
		})
	}
	vlib.Register("C12.nodes", func(r *vlib.R) {
		ks := nodeKinds()
		kindsOf(r, "nodes", len(ks), r.Pick(2, 3), func(s []int) []osmref.Group {
			ns := pickNodes(s, ks)
			return []osmref.Group{{Nodes: ns}, {Nodes: ns, NoKV: true, DenseInfo: []byte{0x0a, 0x01, 0x02}}}
		})
	})
	vlib.Register("C12.ways", func(r *vlib.R) {
		ks := wayKinds()
		kindsOf(r, "ways", len(ks), r.Pick(2, 3), func(s []int) []osmref.Group {
			return []osmref.Group{{Ways: pickWays(s, ks)}}
		})
	})
	vlib.Register("C12.rels", func(r *vlib.R) {
		ks := relKinds()
		kindsOf(r, "relations", len(ks), r.Pick(2, 3), func(s []int) []osmref.Group {
			return []osmref.Group{{Rels: pickRels(s, ks)}}
		})
	})

	// groups of every kind together
	vlib.Register("C12.groups", func(r *vlib.R) {
		nk, wk, rk := nodeKinds(), wayKinds(), relKinds()
		gs := []osmref.Group{
			{},
			{Nodes: pickNodes([]int{0}, nk)},
			{Nodes: pickNodes([]int{5, 2}, nk), DenseInfo: []byte{0x0a, 0x01, 0x02}, NoKV: true},
			{Nodes: pickNodes([]int{0, 4}, nk), NoKV: true},
			{Ways: pickWays([]int{3}, wk)},
			{Ways: pickWays([]int{12, 25, 0}, wk)},
			{Rels: pickRels([]int{5}, rk)},
			{Rels: pickRels([]int{14, 23, 0}, rk)},
			{Nodes: pickNodes([]int{1}, nk), Ways: pickWays([]int{13}, wk)},
			{Ways: pickWays([]int{14, 17}, wk), Rels: pickRels([]int{21}, rk)},
			{Nodes: pickNodes([]int{3}, nk), Ways: pickWays([]int{22}, wk), Rels: pickRels([]int{12, 7}, rk)},
		}
		lists(len(gs), r.Pick(3, 4), func(s []int) {
			d := fmt.Sprintf("groups %v", s)
			if !r.Case(d) {
				return
			}
			for si, sh := range shapes {
				var bl osmref.Block
				for _, k := range s {
					bl.Groups = append(bl.Groups, gs[k])
				}
				sh.put(&bl)
				each(r, fmt.Sprintf("%s, shape %d", d, si), bl)
			}
			r.Nontrivial(d)
		})
		for si, sh := range shapes {
			d := fmt.Sprintf("no string table, shape %d", si)
			if r.Case(d) {
				bl := osmref.Block{Groups: []osmref.Group{gs[1], {Ways: []osmref.Way{{ID: 4, Refs: []int64{9}}}}}, NoStringTable: true}
				bl.Groups[0].NoKV = true
				sh.put(&bl)
				bl.NoStringTable, bl.ExtraStrings = true, nil
				each(r, d, bl)
				r.Nontrivial(d)
			}
		}
		// every small number a block may have, and those around the powers of two
		var vs []int64
		for v := int64(1); v <= int64(r.Pick(1100, 4000)); v++ {
			vs = append(vs, v)
		}
		for e := uint(12); e <= 31; e++ {
			vs = append(vs, 1<<e-2, 1<<e-1, 1<<e, 1<<e+1)
		}
		for _, v := range vs {
			d := fmt.Sprintf("a block with the number %d", v)
			if !r.Case(d) {
				continue
			}
			for k := 0; k < 6; k++ {
				bl := osmref.Block{Groups: []osmref.Group{gs[1], gs[4]}}
				switch k {
				case 0, 1:
					if v >= 1<<31 {
						continue
					}
					if k == 0 {
						bl.Gran = int32(v)
					} else {
						bl.DateGran = int32(v)
					}
				case 2:
					bl.LatOff = v
				case 3:
					bl.LatOff = -v
				case 4:
					bl.LonOff = v
				case 5:
					bl.LonOff = -v
				}
				each(r, fmt.Sprintf("%s (%d)", d, k), bl)
			}
			r.Nontrivial(d)
		}
	})

	// long lists and strings: every length prefix grows by a byte
	vlib.Register("C12.sizes", func(r *vlib.R) {
		var sizes []int
		for n := 0; n <= r.Pick(150, 600); n++ {
			sizes = append(sizes, n)
		}
		for _, e := range []int{1 << 14, 1 << 15} {
			for i := -3; i <= 3; i++ {
				sizes = append(sizes, e+i, e/2+i, e/3+i)
			}
		}
		for _, n := range sizes {
			d := fmt.Sprintf("size %d", n)
			if !r.Case(d) {
				continue
			}
			var refs []int64
			var ms []osmref.Member
			var ns []osmref.Node
			for i := 0; i < n; i++ {
				refs = append(refs, int64(i%7)-3)
				ms = append(ms, osmref.Member{Type: i % 3, ID: int64(i%5) - 2, Role: []string{"", "a", "bb"}[i%3]})
				ns = append(ns, osmref.Node{ID: int64(i), Lat: int64(i % 60), Lon: int64(-i % 60), Tags: [][]osmref.KV{nil, kv("a", "b")}[i%2]})
			}
			for i, g := range []osmref.Group{
				{Ways: []osmref.Way{{ID: 5, Refs: refs}, {ID: 6, Tags: kv("a", "b")}}},
				{Rels: []osmref.Rel{{ID: 5, Members: ms}, {ID: 6, Tags: kv("a", "b")}}},
				{Nodes: ns},
				{Ways: []osmref.Way{{ID: 5, Tags: kv("k", strings.Repeat("v", n))}}},
				{Ways: []osmref.Way{{ID: 5, Info: append([]byte{0x0a}, osmref.Varint(nil, uint64(n))...)}}, Nodes: []osmref.Node{{ID: 1, Tags: kv(strings.Repeat("k", n+1), "v")}}},
			} {
				each(r, fmt.Sprintf("%s, group %d", d, i), osmref.Block{Groups: []osmref.Group{g}})
			}
			r.Nontrivial(d)
		}
	})

	// blobs and their headers
	vlib.Register("C12.blobs", func(r *vlib.R) {
		var sizes []int
		for n := 0; n <= r.Pick(300, 1000); n++ {
			sizes = append(sizes, n)
		}
		for _, e := range []int{1 << 14, 1 << 21} {
			for i := -3; i <= 3; i++ {
				sizes = append(sizes, e+i)
			}
		}
		for _, n := range sizes {
			d := fmt.Sprintf("payload of %d bytes", n)
			if !r.Case(d) {
				continue
			}
			payload := make([]byte, n)
			for i := range payload {
				payload[i] = byte(i*i + i/256)
			}
			// read what others write
			for _, z := range []bool{false, true} {
				framed := osmref.EncodeBlob("OSMData", payload, z)
				bad := vlib.Guard(func() {
					var pbr t.PBReader
					hn := int(framed[0])<<24 | int(framed[1])<<16 | int(framed[2])<<8 | int(framed[3])
					bh := pbr.ReadBlobHeader(framed[4 : 4+hn])
					if bh.Type != "OSMData" || int(bh.DataSize) != len(framed)-4-hn {
						r.Fail(fmt.Sprintf("%s header, zlib %v", d, z), fmt.Sprintf("read as %+v", bh), "", nil)
					}
					var b t.Blob
					pbr.ReadBlob(framed[4+hn:], &b)
					bb := b.GetRawData()
					if !bytes.Equal(bb.Buffer, payload) {
						r.Fail(fmt.Sprintf("%s, zlib %v", d, z), fmt.Sprintf("%d bytes read, not the %d written", len(bb.Buffer), n), "", nil)
					}
				})
				if bad != "" {
					r.Fail(fmt.Sprintf("%s, zlib %v", d, z), bad, "", nil)
				}
			}
			// write, and have others read
			for way := 0; way < 3; way++ {
				var b t.Blob
				size := int32(n)
				switch way {
				case 0:
					b.Raw = payload
				case 1:
					b.RawFunc = func(buf []byte) []byte { return append(buf, payload...) }
				case 2:
					b.Raw, b.RawSize = payload, &size
				}
				bad := vlib.Guard(func() {
					out := b.Write([]byte("abc"))
					if string(out[:3]) != "abc" {
						r.Fail(fmt.Sprintf("%s, way %d", d, way), "bytes before it are changed", "", nil)
						return
					}
					out = out[3:]
					bh := t.BlobHeader{Type: "OSMData", DataSize: int32(len(out))}
					h := bh.Write(nil)
					file := append([]byte{byte(len(h) >> 24), byte(len(h) >> 16), byte(len(h) >> 8), byte(len(h))}, h...)
					rb, err := osmref.ParseBlobs(append(file, out...))
					if err != nil || len(rb) != 1 || rb[0].Type != "OSMData" || !bytes.Equal(rb[0].Payload, payload) {
						r.Fail(fmt.Sprintf("%s, way %d", d, way), fmt.Sprintf("others cannot read it (%v)", err), "", nil)
						return
					}
					var pbr t.PBReader
					var c t.Blob
					pbr.ReadBlob(out, &c)
					if !bytes.Equal(c.GetRawData().Buffer, payload) {
						r.Fail(fmt.Sprintf("%s, way %d", d, way), "it is read back as something else", "", nil)
					}
				})
				if bad != "" {
					r.Fail(fmt.Sprintf("%s, way %d", d, way), bad, "", nil)
				}
			}
			r.Nontrivial(d)
		}
	})

	// string tables
	table := func(adds []string, byMap map[string]string, maps []map[string]string) string {
		count := map[string]int{}
		b := t.NewStringTableBuilder()
		for _, s := range adds {
			b.AddString(s)
			count[s]++
		}
		if byMap != nil {
			b.AddMap(byMap)
			for k, v := range byMap {
				count[k]++
				count[v]++
			}
		}
		b.Finalize()
		st := b.ToStringTable().S
		if len(st) == 0 || st[0] != "" {
			return fmt.Sprintf("%q does not start with the blank string", st)
		}
		seen := map[string]bool{}
		for i, s := range st {
			if seen[s] {
				return fmt.Sprintf("%q has %q twice", st, s)
			}
			seen[s] = true
			if s != "" && count[s] == 0 {
				return fmt.Sprintf("%q has %q, which was not added", st, s)
			}
			if i > 1 && count[st[i-1]] < count[s] {
				return fmt.Sprintf("%q: %q was added more often than %q", st, s, st[i-1])
			}
		}
		var all []string
		for s := range count {
			if !seen[s] {
				return fmt.Sprintf("%q lacks %q", st, s)
			}
			if i := b.GetIndex(s); int(i) >= len(st) || st[i] != s {
				return fmt.Sprintf("index %d of %q in %q", i, s, st)
			}
			all = append(all, s)
		}
		if b.GetIndex("") != 0 {
			return "the index of the blank string is not 0"
		}
		// the same strings in order give the same table
		sort.Strings(all)
		c := t.NewStringTableBuilder()
		for _, s := range all {
			for i := 0; i < count[s]; i++ {
				c.AddString(s)
			}
		}
		c.Finalize()
		if s2 := c.ToStringTable().S; !reflect.DeepEqual(st, s2) {
			return fmt.Sprintf("added in another order the table is %q, not %q", s2, st)
		}
		// written and read
		raw := b.ToStringTable().Write(nil)
		var rd t.StringTable
		t.ReadStringTable(raw, &rd)
		if !reflect.DeepEqual(rd.S, st) {
			return fmt.Sprintf("read back as %q, not %q", rd.S, st)
		}
		p := osmref.Field(nil, 1, raw)
		if q, err := osmref.ParsePrimitiveBlock(p); err != nil || q.Strings != len(st) {
			return fmt.Sprintf("others cannot read it: %x", raw)
		}
		for _, m := range maps {
			ks, vs := b.ToKeyVals(m)
			l := b.ToKeyValLinear(m)
			if len(ks) != len(m) || len(vs) != len(m) || len(l) != 2*len(m) {
				return fmt.Sprintf("%v gives %v, %v and %v", m, ks, vs, l)
			}
			m1, m2 := map[string]string{}, map[string]string{}
			for i := range ks {
				if int(ks[i]) >= len(st) || int(vs[i]) >= len(st) || int(l[2*i]) >= len(st) || int(l[2*i+1]) >= len(st) || l[2*i] < 0 || l[2*i+1] < 0 {
					return fmt.Sprintf("%v gives %v, %v and %v, with %d strings", m, ks, vs, l, len(st))
				}
				m1[st[ks[i]]] = st[vs[i]]
				m2[st[l[2*i]]] = st[l[2*i+1]]
			}
			if !reflect.DeepEqual(m1, m) || !reflect.DeepEqual(m2, m) {
				return fmt.Sprintf("%v resolves back to %v and %v", m, m1, m2)
			}
			for try := 0; try < 4 && len(m) > 1; try++ {
				// a map filled in another order
				n := map[string]string{}
				var keys []string
				for k := range m {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for i := range keys {
					k := keys[(i+try)%len(keys)]
					n[k] = m[k]
				}
				k2, v2 := b.ToKeyVals(n)
				l2 := b.ToKeyValLinear(n)
				if !reflect.DeepEqual(k2, ks) || !reflect.DeepEqual(v2, vs) || !reflect.DeepEqual(l2, l) {
					return fmt.Sprintf("%v gives %v %v %v, and the next time %v %v %v", m, ks, vs, l, k2, v2, l2)
				}
			}
		}
		return ""
	}
	mapsOver := func(al []string) (out []map[string]string) {
		out = append(out, map[string]string{})
		var rec func(i int, m map[string]string)
		rec = func(i int, m map[string]string) {
			if i == len(al) {
				if len(m) > 0 && len(m) <= 3 {
					c := map[string]string{}
					for k, v := range m {
						c[k] = v
					}
					out = append(out, c)
				}
				return
			}
			rec(i+1, m)
			for _, v := range al {
				m[al[i]] = v
				rec(i+1, m)
			}
			delete(m, al[i])
		}
		rec(0, map[string]string{})
		return
	}
	vlib.Register("C13.adds", func(r *vlib.R) {
		al := []string{"", "a", "b", "ab", "é"}
		lists(len(al), 2, func(head []int) {
			d := fmt.Sprintf("additions that start with %v", head)
			if !r.Case(d) {
				return
			}
			rest := 0
			if len(head) == 2 {
				rest = r.Pick(5, 6)
			}
			lists(len(al), rest, func(tail []int) {
				s := append(head[:len(head):len(head)], tail...)
				var adds, uniq []string
				has := map[string]bool{}
				for _, i := range s {
					adds = append(adds, al[i])
					if !has[al[i]] {
						has[al[i]] = true
						uniq = append(uniq, al[i])
					}
				}
				var ms []map[string]string
				if len(uniq) <= 3 && len(s) <= 5 || len(uniq) <= 4 && len(s) <= 4 {
					ms = mapsOver(uniq)
				}
				var bad string
				if m := vlib.Guard(func() { bad = table(adds, nil, ms) }); m != "" {
					bad = m
				}
				r.Res.Transitions++
				if bad != "" {
					r.Fail(fmt.Sprintf("added %q", adds), bad, "", nil)
				}
			})
			r.Nontrivial(d)
		})
	})
	vlib.Register("C13.maps", func(r *vlib.R) {
		al := []string{"", "a", "b", "ab"}
		for _, m := range mapsOver(al) {
			d := fmt.Sprintf("map %q with additions", fmt.Sprint(m))
			if !r.Case(d) {
				continue
			}
			lists(len(al), r.Pick(5, 6), func(s []int) {
				var adds []string
				for _, i := range s {
					adds = append(adds, al[i])
				}
				var bad string
				if g := vlib.Guard(func() { bad = table(adds, m, []map[string]string{m}) }); g != "" {
					bad = g
				}
				r.Res.Transitions++
				if bad != "" {
					r.Fail(fmt.Sprintf("added %q and %v", adds, m), bad, "", nil)
				}
			})
			r.Nontrivial(d)
		}
	})
	// many strings, and strings of every length
	vlib.Register("C13.many", func(r *vlib.R) {
		for n := 0; n <= r.Pick(400, 2000); n++ {
			d := fmt.Sprintf("%d strings", n)
			if !r.Case(d) {
				continue
			}
			var adds []string
			m := map[string]string{}
			for i := 0; i < n; i++ {
				s := fmt.Sprintf("%d", i*7919%n)
				if i%5 == 0 {
					s = strings.Repeat("s", i)
				}
				for k := 0; k <= i*31%5; k++ {
					adds = append(adds, s)
				}
				if i%3 == 0 && i < 40 {
					m[s] = s
				}
			}
			var bad string
			if g := vlib.Guard(func() { bad = table(adds, m, []map[string]string{m}) }); g != "" {
				bad = g
			}
			if bad != "" {
				r.Fail(d, short(bad), "", nil)
			}
			r.Nontrivial(d)
		}
		// strings that come so often that a narrower counter would start again
		for _, n := range []int{127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 131073, 1<<20 + 1, 1<<24 + 1} {
			for _, often := range []string{"b", ""} {
				d := fmt.Sprintf("%q added %d times", often, n)
				if n > 1<<17 && often == "" || n > 1<<22 && !r.Thorough() || !r.Case(d) {
					continue
				}
				var adds []string
				for i := 0; i < n; i++ {
					adds = append(adds, often)
				}
				adds = append(adds, "a", "a", "c", "")
				for i := 0; i < n-1 && n < 1<<17; i++ {
					adds = append(adds, "a")
				}
				adds = append(adds, often, "d", "d", "d")
				if bad := table(adds, nil, nil); bad != "" {
					r.Fail(d, short(bad), "", nil)
				}
				r.Nontrivial(d)
			}
		}
		for _, n := range []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<14 + 1, 1<<21 + 1} {
			d := fmt.Sprintf("a string of %d bytes and %d strings", n, n/8)
			if !r.Case(d) {
				continue
			}
			adds := []string{strings.Repeat("x", n), "y"}
			for i := 0; i < n/8; i++ {
				adds = append(adds, fmt.Sprint(i))
			}
			if bad := table(adds, nil, nil); bad != "" {
				r.Fail(d, short(bad), "", nil)
			}
			r.Nontrivial(d)
		}
	})
}
