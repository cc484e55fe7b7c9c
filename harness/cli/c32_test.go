package cli

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// C32: the same data, encoded in every way the format allows, give the same results.

// tree is a file whose messages can be encoded in other ways.
type tree []part

type part struct {
	typ     string
	block   *osmref.Msg // of data blobs
	payload []byte      // of others
}

func treeOf(f osmref.File) tree {
	var t tree
	for i := range f {
		p := part{typ: f[i].BlobType()}
		if p.typ == "OSMData" {
			p.block = osmref.ParseMsg("block", f[i].Content())
		} else {
			p.payload = f[i].Content()
		}
		t = append(t, p)
	}
	return t
}

// bytesTree is the tree of an encoded file.
func bytesTree(b []byte) tree {
	rb, err := osmref.ParseBlobs(b)
	if err != nil {
		panic(err)
	}
	var t tree
	for _, x := range rb {
		p := part{typ: x.Type}
		if x.Type == "OSMData" {
			p.block = osmref.ParseMsg("block", x.Payload)
		} else {
			p.payload = x.Payload
		}
		t = append(t, p)
	}
	return t
}

func (t tree) clone() tree {
	c := append(tree{}, t...)
	for i := range c {
		if c[i].block != nil {
			c[i].block = c[i].block.Clone()
		}
	}
	return c
}

func (t tree) walk(kind string, f func(*osmref.Msg)) {
	for _, p := range t {
		if p.block != nil {
			p.block.Walk(func(m *osmref.Msg) {
				if m.Kind == kind {
					f(m)
				}
			})
		}
	}
}

// pack says how blobs are stored.
type pack struct {
	zip    func(i int) bool
	level  int
	flush  int  // flush the compressor after so many bytes (0: only at the end)
	window int  // what the stream says of its window, 0: as it comes
	size   bool // give the size of raw blobs too
	swap   bool // size after the data
	head   int  // order of the blob header
	pad    func(int) int
}

func (t tree) encode(k pack) []byte { b, _ := t.encodeN(k); return b }

func (t tree) encodeN(k pack) ([]byte, int) {
	e := &osmref.Enc{Pad: k.pad}
	var out []byte
	for i, p := range t {
		body := p.payload
		if p.block != nil {
			body = e.Msg(p.block)
		}
		data := osmref.Fld{ID: 1, Wire: 2, B: body}
		size := osmref.Fld{ID: 2, V: uint64(len(body))}
		z := k.zip != nil && k.zip(i)
		if z {
			var zb bytes.Buffer
			zw, err := zlib.NewWriterLevel(&zb, k.level)
			if err != nil {
				panic(err)
			}
			for k.flush > 0 && len(body) > k.flush {
				_, _ = zw.Write(body[:k.flush])
				_ = zw.Flush()
				body = body[k.flush:]
			}
			_, _ = zw.Write(body)
			_ = zw.Close()
			s := zb.Bytes()
			if k.window > 0 {
				s[0] = byte(k.window-8)<<4 | 8
				s[1] &^= 31
				s[1] += byte(31 - (int(s[0])<<8|int(s[1]))%31)
			}
			data = osmref.Fld{ID: 3, Wire: 2, B: s}
		}
		m := &osmref.Msg{Kind: "blob", F: []osmref.Fld{data}}
		if z || k.size {
			m.F = append(m.F, size)
			if !k.swap {
				m.F[0], m.F[1] = m.F[1], m.F[0]
			}
		}
		out = append(out, e.Frame(p.typ, e.Msg(m), k.head)...)
	}
	return out, e.N
}

// encSet is a file with all that is needed to run every command on encodings of it.
type encSet struct {
	e    *env
	in   tree
	rw   tree
	info bool // metadata are the same too
	want map[string]string
	ids  []string

	usual string
}

var encCmds = []string{"decompress", "tagfilter", "nodeindex", "rewritenodes", "wayindex", "relindex", "entitycount", "blockcount", "entityfind"}

func encPrepare(r *vlib.R, f osmref.File) *encSet {
	e, bad := prepare(r, f)
	if bad != "" {
		r.Fail("prepare", bad, "", nil)
		return nil
	}
	s := &encSet{e: e, in: treeOf(f), rw: bytesTree([]byte(e.rw)), info: true}
	seen := map[int64]bool{}
	for _, b := range f.Expect() {
		for _, n := range b.Nodes {
			seen[n.ID] = true
		}
		for _, w := range b.Ways {
			seen[w.ID] = true
		}
		for _, x := range b.Rels {
			seen[x.ID] = true
		}
	}
	var ids []int64
	for id := range seen {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		s.ids = append(s.ids, "-e", fmt.Sprint(id))
	}
	var bad2 string
	s.usual = string(s.in.encode(pack{}))
	s.want, bad2 = s.results(s.in.encode(pack{}), s.rw.encode(pack{}))
	if bad2 != "" {
		r.Fail("as usual", bad2, "", nil)
		return nil
	}
	return s
}

// results are those of all commands on an encoding of the file and of the rewritten file.
func (s *encSet) results(in, rw []byte) (map[string]string, string) {
	e := s.e
	out := map[string]string{}
	for _, cmd := range encCmds {
		run.Fresh(e.dir, map[string][]byte{"in.pbf": in, "n.idx": []byte(e.nix), "rw.pbf": rw, "w.idx": []byte(e.wix)})
		var args []string
		switch cmd {
		case "entitycount", "blockcount":
			args = []string{"-i", e.p("in.pbf"), "-w", "1"}
		case "entityfind":
			args = append([]string{"-i", e.p("in.pbf"), "-w", "1"}, s.ids...)
		default:
			args = e.args(cmd, 1)
		}
		x := run.Cmd(e.r, e.dir, run.Opt{Gentle: true}, cmd, args...)
		if b := x.Bad(); b != "" {
			return nil, cmd + ": " + b
		}
		var lines []string
		for _, l := range strings.Split(x.Stdout, "\n") {
			if !strings.Contains(l, "run time") {
				lines = append(lines, l)
			}
		}
		o := strings.Join(lines, "\n")
		if f, ok := x.Files["out"]; ok {
			switch cmd {
			case "decompress", "tagfilter", "rewritenodes":
				bs, err := osmref.Parse([]byte(f))
				if err != nil {
					return nil, cmd + ": " + err.Error()
				}
				o += "\n" + run.Text(bs)
				if s.info {
					for _, b := range bs {
						o += fmt.Sprintf("%x %d", b.DenseInfo, b.DateGran)
						for _, w := range b.Ways {
							o += fmt.Sprintf(" %x", w.Info)
						}
						for _, w := range b.Rels {
							o += fmt.Sprintf(" %x", w.Info)
						}
					}
				}
			default:
				o += "\n" + f
			}
		} else if strings.HasPrefix(args[2], "-o") {
			return nil, cmd + ": no output"
		}
		out[cmd] = o
	}
	return out, ""
}

// check runs every command on a variant.
func (s *encSet) check(d string, vary func(t tree), k pack) {
	s.checkKind(d, func(t tree) []byte {
		t = t.clone()
		if vary != nil {
			vary(t)
		}
		return t.encode(k)
	})
}

func (s *encSet) checkKind(d string, enc func(t tree) []byte) {
	if !s.e.r.Case(d) {
		return
	}
	in, rw := enc(s.in), enc(s.rw)
	got, bad := s.results(in, rw)
	if bad != "" {
		s.e.r.Fail(d, bad, fmt.Sprintf("%x", in), nil)
		return
	}
	if string(in) != s.usual {
		s.e.r.Nontrivial(string(in))
	}
	for _, c := range encCmds {
		if got[c] != s.want[c] {
			s.e.r.Fail(d, c+" gives something else than with the usual encoding: "+run.Diff(got[c], s.want[c]), fmt.Sprintf("%x", in), nil)
			return
		}
	}
}

func encFiles() []struct {
	name string
	f    osmref.File
} {
	nodes := []osmref.Node{run.N(1, 10, -20, "name", "x"), run.N(2, 11, 22), run.N(4, -900000000, 1799999999, "note", "x", "a", ""), run.N(300, 5, 5)}
	ways := []osmref.Way{{ID: 5, Refs: []int64{1, 2, 300}, Tags: run.Tags("a", "name"), Info: []byte{8, 1}}, {ID: 70, Refs: []int64{4, 1, 4}}}
	rels := []osmref.Rel{{ID: 9, Members: []osmref.Member{{Type: 1, ID: 5, Role: "x"}, {Type: 0, ID: 4, Role: ""}, {Type: 1, ID: 70, Role: "a"}}, Tags: run.Tags("name", "a"), Info: []byte{8, 2}}, {ID: 11}}
	wide := func(b osmref.Block) osmref.Block {
		b.Gran, b.DateGran, b.LatOff, b.LonOff = 50, 7, 1000, -3000
		return b
	}
	return []struct {
		name string
		f    osmref.File
	}{
		{"three blocks", osmref.File{run.Header("h"),
			wide(run.Data(osmref.Group{Nodes: nodes[:2], DenseInfo: []byte{10, 2, 1, 1}}, osmref.Group{Nodes: nodes[2:]})),
			wide(run.Data(osmref.Group{Ways: ways[:1]}, osmref.Group{Ways: ways[1:]})),
			wide(run.Data(osmref.Group{Rels: rels[:1]}, osmref.Group{Rels: rels[1:]}))}},
		{"one group", osmref.File{run.Header("h"), wide(run.Data(osmref.Group{Nodes: nodes, Ways: ways, Rels: rels, DenseInfo: []byte{10, 4, 1, 1, 1, 1}}))}},
	}
}

// slots of a kind: the fields whose order varies. Fields that repeat keep their order among themselves.
var slots = map[string][]int{
	"block": {1, 2, 2, 17, 18, 19, 20},
	"group": {2, 3, 3, 4, 4},
	"dense": {1, 5, 8, 9, 10},
	"way":   {1, 2, 3, 4, 8},
	"rel":   {1, 2, 3, 4, 8, 9, 10},
}

// reorder puts the fields of all messages of a kind into an order of its slots.
func reorder(t tree, kind string, order []int) {
	sl := slots[kind]
	t.walk(kind, func(m *osmref.Msg) {
		seen := map[int]int{}
		rank := make([]int, len(m.F))
		for i, f := range m.F {
			n, k := seen[f.ID], 0
			seen[f.ID]++
			for pos, s := range order {
				if sl[s] == f.ID {
					rank[i] = pos
					if k == n {
						break
					}
					k++
				}
			}
		}
		ix := make([]int, len(m.F))
		for i := range ix {
			ix[i] = i
		}
		sort.SliceStable(ix, func(a, b int) bool { return rank[ix[a]] < rank[ix[b]] })
		fs := make([]osmref.Fld, 0, len(m.F))
		for _, i := range ix {
			fs = append(fs, m.F[i])
		}
		m.F = fs
	})
}

func orders(kind string, f func(o []int)) { osmref.Orders(slots[kind], f) }

func set(m *osmref.Msg, f osmref.Fld) {
	for i := range m.F {
		if m.F[i].ID == f.ID {
			m.F[i] = f
			return
		}
	}
	m.F = append(m.F, f)
}

func has(m *osmref.Msg, id int) bool {
	for _, f := range m.F {
		if f.ID == id {
			return true
		}
	}
	return false
}

func drop(m *osmref.Msg, id int) {
	fs := m.F[:0]
	for _, f := range m.F {
		if f.ID != id {
			fs = append(fs, f)
		}
	}
	m.F = fs
}

func init() {
	vlib.Register("C32.order", func(r *vlib.R) {
		for fi, c := range encFiles() {
			s := encPrepare(r, c.f)
			if s == nil {
				return
			}
			for _, kind := range []string{"block", "group", "dense", "way", "rel"} {
				if fi == 0 && kind == "group" {
					continue // its groups have one kind of entity
				}
				n := 0
				orders(kind, func(o []int) {
					n++
					if !r.Thorough() && fi == 1 && len(o) > 6 && n%5 != 0 {
						return
					}
					o = append([]int{}, o...)
					s.check(fmt.Sprintf("%s: fields of each %s in the order %v", c.name, kind, o), func(t tree) { reorder(t, kind, o) }, pack{})
				})
			}
			// two kinds at once
			for _, a := range []string{"dense", "way"} {
				if fi == 1 {
					break
				}
				rev := func(k string) []int {
					var o []int
					for i := len(slots[k]) - 1; i >= 0; i-- {
						o = append(o, i)
					}
					return o
				}
				orders(a, func(o []int) {
					o = append([]int{}, o...)
					s.check(fmt.Sprintf("%s: fields of each %s in the order %v, of blocks and relations reversed", c.name, a, o), func(t tree) {
						reorder(t, a, o)
						reorder(t, "rel", rev("rel"))
						reorder(t, "block", []int{6, 5, 4, 3, 1, 2, 0})
					}, pack{})
				})
			}
			if r.Thorough() {
				orders("dense", func(a []int) {
					a = append([]int{}, a...)
					orders("way", func(b []int) {
						b = append([]int{}, b...)
						s.check(fmt.Sprintf("%s: fields of nodes in the order %v, of ways %v", c.name, a, b), func(t tree) {
							reorder(t, "dense", a)
							reorder(t, "way", b)
						}, pack{})
					})
				})
			}
		}
	})

	vlib.Register("C32.defaults", func(r *vlib.R) {
		f := osmref.File{run.Header("h"),
			run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1, 10, -20), run.N(2, 11, 22)}}, osmref.Group{Nodes: []osmref.Node{run.N(4, 5, 6, "a", "b")}}),
			run.Data(osmref.Group{Ways: []osmref.Way{{ID: 5, Refs: []int64{1, 2}}, {ID: 6, Tags: run.Tags("a", "")}, {ID: 7}}}),
			run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 9, Members: []osmref.Member{{Type: 1, ID: 5}}}, {ID: 10, Tags: run.Tags("a", "b")}, {ID: 11}}})}
		s := encPrepare(r, f)
		if s == nil {
			return
		}
		s.info = false
		if s.want, _ = s.results(s.in.encode(pack{}), s.rw.encode(pack{})); s.want == nil {
			return
		}
		def := func(id int, v uint64) func(tree) {
			return func(t tree) {
				t.walk("block", func(m *osmref.Msg) { set(m, osmref.Fld{ID: id, V: v}) })
			}
		}
		empty := func(kind string, ids ...int) func(tree) {
			return func(t tree) {
				t.walk(kind, func(m *osmref.Msg) {
					for _, id := range ids {
						if !has(m, id) {
							m.F = append(m.F, osmref.Fld{ID: id, Wire: 2, Packed: true})
						}
					}
				})
			}
		}
		gone := func(kind string, ids ...int) func(tree) {
			return func(t tree) {
				t.walk(kind, func(m *osmref.Msg) {
					for _, id := range ids {
						for _, f := range m.F {
							if f.ID == id && len(f.P) == 0 {
								drop(m, id)
								break
							}
						}
					}
				})
			}
		}
		kv := func(mode int) func(tree) {
			return func(t tree) {
				t.walk("dense", func(m *osmref.Msg) {
					for i, f := range m.F {
						if f.ID == 10 {
							for _, v := range f.P {
								if v != 0 {
									return
								}
							}
							if mode == 0 {
								drop(m, 10)
							} else {
								m.F[i].P = nil
							}
							return
						}
					}
				})
			}
		}
		info := func(kind string, id int) func(tree) {
			return func(t tree) {
				t.walk(kind, func(m *osmref.Msg) { set(m, osmref.Fld{ID: id, Wire: 2, B: []byte{8, 1, 16, 5}}) })
			}
		}
		extra := func(at int, m *osmref.Msg) func(tree) {
			return func(t tree) {
				t.walk("block", func(b *osmref.Msg) {
					for i := range b.F {
						if b.F[i].ID == 2 {
							if at == 0 {
								b.F = append(b.F[:i], append([]osmref.Fld{{ID: 2, Wire: 2, M: m}}, b.F[i:]...)...)
							} else {
								b.F = append(b.F, osmref.Fld{ID: 2, Wire: 2, M: m})
							}
							return
						}
					}
				})
			}
		}
		none := &osmref.Msg{Kind: "group"}
		noNodes := &osmref.Msg{Kind: "group", F: []osmref.Fld{{ID: 2, Wire: 2, M: &osmref.Msg{Kind: "dense"}}}}
		for _, id := range []int{1, 8, 9} {
			noNodes.F[0].M.F = append(noNodes.F[0].M.F, osmref.Fld{ID: id, Wire: 2, Packed: true})
		}
		// groups of which at most one applies
		ways := []struct {
			name string
			f    []func(tree)
		}{
			{"granularity", []func(tree){nil, def(17, 100)}},
			{"date granularity", []func(tree){nil, def(18, 1000)}},
			{"offsets", []func(tree){nil, def(19, 0), def(20, 0)}},
			{"tags of nodes without tags", []func(tree){nil, kv(0), kv(1)}},
			{"lists of ways", []func(tree){nil, gone("way", 2, 3, 8), empty("way", 2, 3), empty("way", 8), empty("way", 2, 3, 8)}},
			{"lists of relations", []func(tree){nil, gone("rel", 2, 3, 8, 9, 10), empty("rel", 2, 3), empty("rel", 8, 9, 10), empty("rel", 2, 3, 8, 9, 10)}},
			{"metadata", []func(tree){nil, info("dense", 5), info("way", 4), info("rel", 4)}},
			{"empty groups", []func(tree){nil, extra(0, none), extra(1, none), extra(0, noNodes), extra(1, noNodes)}},
		}
		pick := make([]int, len(ways))
		var rec func(i, used int)
		rec = func(i, used int) {
			if i == len(ways) {
				p := append([]int{}, pick...)
				s.check(fmt.Sprintf("defaults %v", p), func(t tree) {
					for i, k := range p {
						if f := ways[i].f[k]; f != nil {
							f(t)
						}
					}
				}, pack{})
				return
			}
			for k := range ways[i].f {
				if k > 0 && used >= r.Pick(3, 5) {
					break
				}
				pick[i] = k
				u := used
				if k > 0 {
					u++
				}
				rec(i+1, u)
			}
			pick[i] = 0
		}
		rec(0, 0)
	})

	vlib.Register("C32.varints", func(r *vlib.R) {
		for _, c := range encFiles() {
			s := encPrepare(r, c.f)
			if s == nil {
				return
			}
			for z := 0; z < 2; z++ {
				k := pack{level: 6, zip: func(int) bool { return z == 1 }}
				_, n := s.in.encodeN(k)
				if _, m := s.rw.encodeN(k); m > n {
					n = m
				}
				if z == 1 && !r.Thorough() {
					n = 0
				}
				for by := 1; by <= 9; by++ {
					k := k
					k.pad = func(int) int { return by }
					s.check(fmt.Sprintf("%s zlib=%d: every varint %d bytes longer", c.name, z, by), nil, k)
					for i := 0; i < n; i++ {
						if !r.Thorough() && by != 1 && by != 9 {
							break
						}
						k.pad = func(j int) int {
							if i == j {
								return by
							}
							return 0
						}
						s.check(fmt.Sprintf("%s zlib=%d: varint %d %d bytes longer", c.name, z, i, by), nil, k)
					}
				}
			}
		}
	})

	vlib.Register("C32.strings", func(r *vlib.R) {
		for fi, c := range encFiles() {
			s := encPrepare(r, c.f)
			if s == nil {
				return
			}
			// table maps a list of strings with, for each, which of the old it is (-1: a new one)
			table := func(t tree, mk func(n int) []int, turn bool) {
				for _, p := range t {
					if p.block == nil {
						continue
					}
					p.block.Walk(func(m *osmref.Msg) {
						if m.Kind != "block" {
							return
						}
						var st *osmref.Msg
						for _, f := range m.F {
							if f.ID == 1 {
								st = f.M
							}
						}
						if st == nil || len(st.F) == 0 {
							return
						}
						old := st.F
						list := mk(len(old))
						where := map[int][]uint64{}
						st.F = nil
						for i, o := range list {
							if o < 0 {
								st.F = append(st.F, osmref.Fld{ID: 1, Wire: 2, B: []byte("unused")})
								continue
							}
							st.F = append(st.F, old[o])
							where[o] = append(where[o], uint64(i))
						}
						n := 0
						ref := func(v uint64) uint64 {
							w := where[int(v)]
							n++
							if turn {
								return w[n%len(w)]
							}
							return w[0]
						}
						m.Walk(func(x *osmref.Msg) {
							for i, f := range x.F {
								if x.Kind == "dense" && f.ID == 10 || (x.Kind == "way" || x.Kind == "rel") && (f.ID == 2 || f.ID == 3) || x.Kind == "rel" && f.ID == 8 {
									for j, v := range f.P {
										if v != 0 {
											x.F[i].P[j] = ref(v)
										}
									}
								}
							}
						})
					})
				}
			}
			most := 0
			s.in.walk("strings", func(m *osmref.Msg) {
				if len(m.F) > most {
					most = len(m.F)
				}
			})
			s.rw.walk("strings", func(m *osmref.Msg) {
				if len(m.F) > most {
					most = len(m.F)
				}
			})
			ids := []int{}
			for i := 1; i < most; i++ {
				ids = append(ids, i)
			}
			osmref.Orders(ids, func(o []int) {
				o = append([]int{}, o...)
				s.check(fmt.Sprintf("%s: strings in the order %v", c.name, o), func(t tree) {
					table(t, func(n int) []int {
						l := []int{0}
						for _, k := range o {
							if k+1 < n {
								l = append(l, k+1)
							}
						}
						return l
					}, false)
				}, pack{})
			})
			for at := 1; at <= most; at++ {
				for _, n := range []int{1, 126, 127, 128, 200} {
					if n > 1 && fi == 1 && at > 1 {
						continue
					}
					s.check(fmt.Sprintf("%s: %d unused strings at %d", c.name, n, at), func(t tree) {
						table(t, func(have int) []int {
							var l []int
							for i := 0; i < have; i++ {
								if i == at {
									for j := 0; j < n; j++ {
										l = append(l, -1)
									}
								}
								l = append(l, i)
							}
							return l
						}, false)
					}, pack{})
				}
				for _, turn := range []bool{false, true} {
					s.check(fmt.Sprintf("%s: string %d twice, both used: %v", c.name, at, turn), func(t tree) {
						table(t, func(have int) []int {
							var l []int
							for i := 0; i < have; i++ {
								l = append(l, i)
							}
							if at < have {
								l = append(l, at)
							}
							return l
						}, turn)
					}, pack{})
				}
			}
		}
	})

	vlib.Register("C32.blobs", func(r *vlib.R) {
		for _, c := range encFiles() {
			s := encPrepare(r, c.f)
			if s == nil {
				return
			}
			for mask := 0; mask < 1<<uint(len(s.in)); mask++ {
				for opt := 0; opt < 8; opt++ {
					k := pack{level: 6, zip: func(i int) bool { return mask>>uint(i)&1 != 0 }, size: opt&1 != 0, swap: opt&2 != 0, head: opt >> 2}
					s.check(fmt.Sprintf("%s: blobs %b compressed, size of raw blobs %v, size last %v, header order %d", c.name, mask, k.size, k.swap, k.head), nil, k)
				}
			}
			all := func(int) bool { return true }
			longest := 0
			for _, p := range s.rw {
				if p.block != nil {
					if n := len((&osmref.Enc{}).Msg(p.block)); n > longest {
						longest = n
					}
				}
			}
			for level := -2; level <= 9; level++ {
				for window := 8; window <= 15; window++ {
					s.check(fmt.Sprintf("%s: level %d window %d", c.name, level, window), nil, pack{zip: all, level: level, window: window})
				}
				for n := 1; n <= longest; n++ {
					if !r.Thorough() && level != 0 && level != 6 {
						break
					}
					s.check(fmt.Sprintf("%s: level %d, a piece for every %d bytes", c.name, level, n), nil, pack{zip: all, level: level, flush: n})
				}
			}
		}
	})

	vlib.Register("C32.scale", func(r *vlib.R) {
		const m = 1000000
		pos := [][2]int64{{0, 0}, {1, -1}, {-90000, 180000}, {90000, -180000}, {33333, 151515}, {-5, 7}}
		var ns []osmref.Node
		for i, p := range pos {
			ns = append(ns, run.N(int64(i*i+i), p[0]*m/100, p[1]*m/100, "name", "x"))
		}
		f := osmref.File{run.Header("h"), run.Data(osmref.Group{Nodes: ns[:2]}, osmref.Group{Nodes: ns[2:]}),
			run.Data(osmref.Group{Nodes: []osmref.Node{run.N(500, 10000, 20000)}, Ways: []osmref.Way{{ID: 5, Refs: []int64{0, 2, 6, 500}}}})}
		s := encPrepare(r, f)
		if s == nil {
			return
		}
		for g := int64(1); g <= m; g++ {
			if m%g != 0 {
				continue
			}
			offs := []int64{0, g, -g, 7 * g, 90000 * m, -180000 * m}
			if r.Thorough() {
				offs = append(offs, 123456789/g*g, -987654321/g*g, m, -m, 1<<40/g*g)
			}
			for _, lat := range offs {
				for _, lon := range offs {
					for date := int64(0); date < 2; date++ {
						s.check(fmt.Sprintf("granularity %d, latitude from %d, longitude from %d, date granularity set: %d", g, lat, lon, date), func(t tree) {
							t.walk("block", func(b *osmref.Msg) {
								b.Walk(func(d *osmref.Msg) {
									if d.Kind != "dense" {
										return
									}
									for i, f := range d.F {
										off := lat
										if f.ID == 9 {
											off = lon
										}
										if f.ID != 8 && f.ID != 9 {
											continue
										}
										var at, last int64
										for j, v := range f.P {
											at += osmref.Unzig(v)
											raw := (at*100 - off) / g
											d.F[i].P[j] = osmref.Zig(raw - last)
											last = raw
										}
									}
								})
								set(b, osmref.Fld{ID: 17, V: uint64(g)})
								set(b, osmref.Fld{ID: 19, V: uint64(lat)})
								set(b, osmref.Fld{ID: 20, V: uint64(lon)})
								if date == 1 {
									set(b, osmref.Fld{ID: 18, V: 1000})
								}
							})
						}, pack{})
					}
				}
			}
		}
	})
}
