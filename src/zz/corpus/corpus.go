// Package corpus is a set of small files that the harnesses share.
package corpus

import (
	"fmt"

	. "zz.local/zz/osmref"
)

// Named is a file of the corpus.
type Named struct {
	Name string
	F    File
}

// Header makes a header blob.
func Header(payload string) Block { return Block{Type: "OSMHeader", Payload: []byte(payload)} }

// Data makes a data block of groups.
func Data(gs ...Group) Block { return Block{Groups: gs} }

func N(id, lat, lon int64, kv ...string) Node {
	return Node{ID: id, Lat: lat, Lon: lon, Tags: Tags(kv...)}
}

func Tags(kv ...string) []KV {
	var t []KV
	for i := 0; i+1 < len(kv); i += 2 {
		t = append(t, KV{kv[i], kv[i+1]})
	}
	return t
}

func W(id int64, refs ...int64) Way { return Way{ID: id, Refs: refs} }

// hdr is a plausible header block.
func hdr() string {
	var h []byte
	h = Field(h, 4, []byte("OsmSchema-V0.6"))
	h = Field(h, 4, []byte("DenseNodes"))
	h = Field(h, 16, []byte("zz"))
	return string(h)
}

// Corpus is a set of small files that between them have every kind of block.
func Corpus() []Named {
	var out []Named
	add := func(name string, f File) { out = append(out, Named{name, f}) }
	z := func(b Block) Block { b.Zlib = true; return b }

	nodes := []Node{
		N(1, 10, 20, "name", "a", "source", "s"), N(2, -5, 7), N(3, 0, 0, "created_by", "x"), N(5, 900000000, 1800000000, "highway", "stop"),
		N(9, -900000000, -1800000000, "tiger:x", "1", "name", "b"), N(20, 1, 1), N(300, 123456789, -987654321, "k", ""),
	}
	ways := []Way{
		{ID: 4, Refs: []int64{1, 2, 3}, Tags: Tags("highway", "x", "source", "kept")},
		{ID: 5, Refs: []int64{5, 5, 9, 1}}, {ID: 7}, {ID: 70, Refs: []int64{4, 300, 1000, 20}, Tags: Tags("a", "b"), Info: []byte{8, 1}},
	}
	rels := []Rel{
		{ID: 2, Members: []Member{{1, 4, "outer"}, {1, 6, "inner"}, {0, 1, ""}, {2, 9, "sub"}, {1, 70, ""}}, Tags: Tags("type", "multipolygon", "note", "kept")},
		{ID: 3}, {ID: 9, Members: []Member{{0, 3, "x"}}, Info: []byte{8, 2}}, {ID: 10, Members: []Member{{1, 5, ""}, {1, 7, ""}, {1, 5, ""}}},
	}
	add("mixed", File{z(Header(hdr())), z(Data(Group{Nodes: nodes[:4]})), z(Data(Group{Nodes: nodes[4:], DenseInfo: []byte{10, 1, 0}})), z(Data(Group{Ways: ways[:2]})), Data(Group{Ways: ways[2:]}), z(Data(Group{Rels: rels}))})
	add("oneblock", File{Header(hdr()), Data(Group{Nodes: nodes[:3]}, Group{Nodes: nodes[3:]}, Group{Ways: ways}, Group{Rels: rels})})
	add("onegroup", File{Header(hdr()), z(Data(Group{Nodes: nodes, Ways: ways, Rels: rels}))})
	add("headeronly", File{Header(hdr())})
	add("nodesonly", File{Header(hdr()), z(Data(Group{Nodes: nodes}))})
	add("waysonly", File{Header(hdr()), Data(Group{Ways: ways})})
	add("relsonly", File{Header(hdr()), Data(Group{Rels: rels})})
	add("noheader", File{Data(Group{Nodes: nodes, NoKV: false}), Data(Group{Ways: ways}), Data(Group{Rels: rels})})
	add("headers between", File{Header(hdr()), Data(Group{Nodes: nodes}), Header("x"), z(Header("")), Data(Group{Ways: ways}), Header(hdr()), Data(Group{Rels: rels}), Header("end")})
	add("empty blocks", File{Header(hdr()), Data(), Data(Group{Nodes: nodes}), Data(Group{}), {NoStringTable: true}, Data(Group{Ways: ways}), Data(), Data(Group{Rels: rels}), Data()})
	{
		b1 := Data(Group{Nodes: []Node{N(1, 5, 5, "name", "n"), N(2, -5, -5, "source", "x"), N(3, 17, -17)}})
		b1.Gran, b1.LatOff, b1.LonOff, b1.DateGran = 1000, 10000, -20000, 500
		b2 := Data(Group{Nodes: []Node{N(4, 5, 5, "name", "n"), N(6, 10000, -5)}}, Group{Ways: []Way{W(1, 1, 2, 3, 4, 6)}})
		b2.Gran, b2.LatOff, b2.LonOff, b2.StringTableLast = 100, -1000000, 3000000, true
		b3 := Data(Group{Ways: []Way{W(3, 6, 1)}}, Group{Rels: rels[:2]})
		b3.Gran, b3.StringOrder, b3.ExtraStrings = 100, 1, []string{"unused", "more"}
		add("granularity", File{Header(hdr()), b1, z(b2), b3})
	}
	{
		f := File{Header(hdr())}
		for i := int64(0); i < 6; i++ {
			f = append(f, z(Data(Group{Nodes: []Node{N(10*i+1, i, -i, "k", fmt.Sprint(i)), N(10*i+2, 7*i, 9*i)}})))
		}
		for i := int64(0); i < 6; i++ {
			f = append(f, Data(Group{Ways: []Way{W(3*i+1, 10*i+1, 10*i+2, 1), W(3*i+2, 2, 2, 10*i+5)}}))
		}
		for i := int64(0); i < 4; i++ {
			f = append(f, Data(Group{Rels: []Rel{{ID: i + 1, Members: []Member{{1, 3*i + 1, "r"}, {1, 3*i + 3, "r"}}}}}))
		}
		add("many blocks", f)
	}
	{
		f := File{Header(hdr())}
		f = append(f, Data(Group{Nodes: nodes[:3]}), Data(Group{Ways: ways[:1]}), Data(Group{Nodes: nodes[3:5]}), Data(Group{Rels: rels[:1]}), Data(Group{Nodes: nodes[5:]}), Data(Group{Ways: ways[1:]}), Data(Group{Rels: rels[1:]}))
		add("interleaved kinds", f)
	}
	return out
}

// ByName finds a file of the corpus.
func ByName(n string) File {
	for _, c := range Corpus() {
		if c.Name == n {
			return c.F
		}
	}
	panic("no corpus file " + n)
}

// Multi is a file of n data blocks that each have nodes, ways and relations
// (ids ascending over the file, refs and members mostly to other blocks).
func Multi(n int, header bool) File {
	var f File
	if header {
		f = append(f, Header(hdr()))
	}
	for k := 0; k < n; k++ {
		i := int64(k)
		b := Data(Group{
			Nodes: []Node{N(10*i+1, 1000+i, -i, "name", fmt.Sprint("n", k), "source", "x"), N(10*i+2, 7*i+3, 9*i), N(10*i+5, -i-1, 5, "k", "v")},
		}, Group{
			Ways: []Way{{ID: 3*i + 1, Refs: []int64{10*i + 1, 10*i + 2, 1, 10*i + 12}, Tags: Tags("highway", fmt.Sprint("h", k))}, W(3*i+2, 2, 2, 10*i+5)},
		}, Group{
			Rels: []Rel{{ID: 2*i + 1, Members: []Member{{1, 3*i + 1, "outer"}, {1, 2, ""}, {0, 1, "x"}, {1, 3*i + 5, fmt.Sprint("r", k)}}, Tags: Tags("type", fmt.Sprint("t", k))}},
		})
		b.Zlib = k%2 == 0
		f = append(f, b)
	}
	return f
}
