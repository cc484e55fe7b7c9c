// Package osmref is an independent reference for the formats osmindex reads
// and writes: a PBF generator and parser, readers for the three index
// formats, and the expected result of every command.  It shares no code with
// the repository.
package osmref

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"sort"
	"strings"
)

type KV struct{ K, V string }

type Node struct {
	ID       int64
	Lat, Lon int64 // raw units of the block (nanodeg = off + gran*raw)
	Tags     []KV
}

type Way struct {
	ID   int64
	Refs []int64
	Tags []KV
	Info []byte
}

type Member struct {
	Type int // 0 node, 1 way, 2 relation
	ID   int64
	Role string
}

type Rel struct {
	ID      int64
	Members []Member
	Tags    []KV
	Info    []byte
}

type Group struct {
	Nodes     []Node
	DenseInfo []byte
	NoKV      bool // leave the key/value column out when no node has tags
	Ways      []Way
	Rels      []Rel
}

type Block struct {
	Type            string // "" means OSMData
	Payload         []byte // used as the payload when Type is OSMHeader (or RawPayload is set)
	RawPayload      bool
	Gran            int32 // 0: left out (default 100)
	DateGran        int32
	LatOff          int64
	LonOff          int64
	Groups          []Group
	Zlib            bool
	ExtraStrings    []string // strings nobody uses
	StringOrder     int      // 0: first use, 1: reversed
	NoStringTable   bool
	StringTableLast bool
}

type File []Block

// ---- protobuf ----

func Varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func Zig(v int64) uint64   { return uint64(v)<<1 ^ uint64(v>>63) }
func Unzig(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func Field(b []byte, id int, payload []byte) []byte {
	b = Varint(b, uint64(id)<<3|2)
	b = Varint(b, uint64(len(payload)))
	return append(b, payload...)
}

func FieldV(b []byte, id int, v uint64) []byte {
	b = Varint(b, uint64(id)<<3)
	return Varint(b, v)
}

func packedDelta(vs []int64) []byte {
	var b []byte
	last := int64(0)
	for _, v := range vs {
		b = Varint(b, Zig(v-last))
		last = v
	}
	return b
}

func packedU(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = Varint(b, v)
	}
	return b
}

// PrimitiveBlock encodes the payload of a data block.
func (bl *Block) PrimitiveBlock() []byte {
	idx := map[string]uint64{}
	tab := []string{""}
	add := func(s string) {
		if _, ok := idx[s]; !ok {
			idx[s] = 1
			tab = append(tab, s)
		}
	}
	idx[""] = 0
	for _, s := range bl.ExtraStrings {
		add(s)
	}
	kvs := func(t []KV) {
		for _, kv := range t {
			add(kv.K)
			add(kv.V)
		}
	}
	for _, g := range bl.Groups {
		for _, n := range g.Nodes {
			kvs(n.Tags)
		}
		for _, w := range g.Ways {
			kvs(w.Tags)
		}
		for _, r := range g.Rels {
			kvs(r.Tags)
			for _, m := range r.Members {
				add(m.Role)
			}
		}
	}
	if bl.StringOrder == 1 {
		for i, j := 1, len(tab)-1; i < j; i, j = i+1, j-1 {
			tab[i], tab[j] = tab[j], tab[i]
		}
	}
	for i, s := range tab {
		idx[s] = uint64(i)
	}
	var st []byte
	for _, s := range tab {
		st = Field(st, 1, []byte(s))
	}
	var out []byte
	if !bl.NoStringTable && !bl.StringTableLast {
		out = Field(out, 1, st)
	}
	keyvals := func(t []KV) (k, v []uint64) {
		for _, kv := range t {
			k = append(k, idx[kv.K])
			v = append(v, idx[kv.V])
		}
		return
	}
	for _, g := range bl.Groups {
		var gb []byte
		if len(g.Nodes) > 0 {
			var ids, lats, lons []int64
			var kv []uint64
			any := false
			for _, n := range g.Nodes {
				ids = append(ids, n.ID)
				lats = append(lats, n.Lat)
				lons = append(lons, n.Lon)
				for _, t := range n.Tags {
					kv = append(kv, idx[t.K], idx[t.V])
					any = true
				}
				kv = append(kv, 0)
			}
			var d []byte
			d = Field(d, 1, packedDelta(ids))
			if g.DenseInfo != nil {
				d = Field(d, 5, g.DenseInfo)
			}
			d = Field(d, 8, packedDelta(lats))
			d = Field(d, 9, packedDelta(lons))
			if any || !g.NoKV {
				d = Field(d, 10, packedU(kv))
			}
			gb = Field(gb, 2, d)
		}
		for _, w := range g.Ways {
			var b []byte
			b = FieldV(b, 1, uint64(w.ID))
			k, v := keyvals(w.Tags)
			if len(k) > 0 {
				b = Field(b, 2, packedU(k))
				b = Field(b, 3, packedU(v))
			}
			if w.Info != nil {
				b = Field(b, 4, w.Info)
			}
			if len(w.Refs) > 0 {
				b = Field(b, 8, packedDelta(w.Refs))
			}
			gb = Field(gb, 3, b)
		}
		for _, r := range g.Rels {
			var b []byte
			b = FieldV(b, 1, uint64(r.ID))
			k, v := keyvals(r.Tags)
			if len(k) > 0 {
				b = Field(b, 2, packedU(k))
				b = Field(b, 3, packedU(v))
			}
			if r.Info != nil {
				b = Field(b, 4, r.Info)
			}
			var roles, types []uint64
			var ids []int64
			for _, m := range r.Members {
				roles = append(roles, idx[m.Role])
				types = append(types, uint64(m.Type))
				ids = append(ids, m.ID)
			}
			if len(ids) > 0 {
				b = Field(b, 8, packedU(roles))
				b = Field(b, 9, packedDelta(ids))
				b = Field(b, 10, packedU(types))
			}
			gb = Field(gb, 4, b)
		}
		out = Field(out, 2, gb)
	}
	if bl.Gran != 0 {
		out = FieldV(out, 17, uint64(bl.Gran))
	}
	if bl.DateGran != 0 {
		out = FieldV(out, 18, uint64(bl.DateGran))
	}
	if bl.LatOff != 0 {
		out = FieldV(out, 19, uint64(bl.LatOff))
	}
	if bl.LonOff != 0 {
		out = FieldV(out, 20, uint64(bl.LonOff))
	}
	if !bl.NoStringTable && bl.StringTableLast {
		out = Field(out, 1, st)
	}
	return out
}

// Content is the uncompressed payload of the block.
func (bl *Block) Content() []byte {
	if bl.Type == "OSMHeader" || bl.RawPayload {
		return bl.Payload
	}
	return bl.PrimitiveBlock()
}

func (bl *Block) BlobType() string {
	if bl.Type == "" {
		return "OSMData"
	}
	return bl.Type
}

// EncodeBlob makes one framed blob.
func EncodeBlob(typ string, payload []byte, z bool) []byte {
	var blob []byte
	if z {
		var zb bytes.Buffer
		zw := zlib.NewWriter(&zb)
		_, _ = zw.Write(payload)
		_ = zw.Close()
		blob = FieldV(blob, 2, uint64(len(payload)))
		blob = Field(blob, 3, zb.Bytes())
	} else {
		blob = Field(blob, 1, payload)
	}
	var h []byte
	h = Field(h, 1, []byte(typ))
	h = FieldV(h, 3, uint64(len(blob)))
	out := make([]byte, 4, 4+len(h)+len(blob))
	binary.BigEndian.PutUint32(out, uint32(len(h)))
	out = append(out, h...)
	return append(out, blob...)
}

func (f File) Encode() []byte {
	var out []byte
	for i := range f {
		out = append(out, EncodeBlob(f[i].BlobType(), f[i].Content(), f[i].Zlib)...)
	}
	return out
}

// Ends returns the file offsets at which each blob ends.
func (f File) Ends() []int {
	var r []int
	at := 0
	for i := range f {
		at += len(EncodeBlob(f[i].BlobType(), f[i].Content(), f[i].Zlib))
		r = append(r, at)
	}
	return r
}

// ---- parsing ----

type pf struct {
	id  int
	v   uint64
	b   []byte
	typ int
}

func parseFields(b []byte) ([]pf, error) {
	var out []pf
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad key")
		}
		b = b[n:]
		f := pf{id: int(k >> 3), typ: int(k & 7)}
		switch f.typ {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, fmt.Errorf("bad varint in field %d", f.id)
			}
			f.v = v
			b = b[n:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return nil, fmt.Errorf("bad length in field %d", f.id)
			}
			f.b = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return nil, fmt.Errorf("bad wire type %d", f.typ)
		}
		out = append(out, f)
	}
	return out, nil
}

type RawBlob struct {
	Type    string
	Payload []byte
	Stored  bool // stored raw
	RawSize int64
	Framed  []byte // the blob with its header, as in the file
}

// ParseBlobs splits a PBF file.
func ParseBlobs(b []byte) ([]RawBlob, error) {
	var out []RawBlob
	for len(b) > 0 {
		if len(b) < 4 {
			return out, fmt.Errorf("truncated blob header size")
		}
		whole := b
		hs := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		if hs > len(b) {
			return out, fmt.Errorf("truncated blob header")
		}
		fs, err := parseFields(b[:hs])
		if err != nil {
			return out, err
		}
		b = b[hs:]
		var rb RawBlob
		ds := -1
		for _, f := range fs {
			switch f.id {
			case 1:
				rb.Type = string(f.b)
			case 3:
				ds = int(f.v)
			}
		}
		if ds < 0 {
			return out, fmt.Errorf("blob header without datasize")
		}
		if ds > len(b) {
			return out, fmt.Errorf("truncated blob")
		}
		fs, err = parseFields(b[:ds])
		if err != nil {
			return out, err
		}
		b = b[ds:]
		rb.Framed = whole[:len(whole)-len(b)]
		got := false
		rb.RawSize = -1
		for _, f := range fs {
			switch f.id {
			case 1:
				rb.Payload = append([]byte{}, f.b...)
				rb.Stored = true
				got = true
			case 2:
				rb.RawSize = int64(f.v)
			case 3:
				zr, err := zlib.NewReader(bytes.NewReader(f.b))
				if err != nil {
					return out, err
				}
				p, err := io.ReadAll(zr)
				if err != nil {
					return out, err
				}
				rb.Payload = p
				got = true
			}
		}
		if !got {
			return out, fmt.Errorf("blob without data")
		}
		out = append(out, rb)
	}
	return out, nil
}

// PNode and friends are what a parsed file says, with absolute coordinates.
type PNode struct {
	ID       int64
	Lat, Lon int64 // nanodegrees
	Tags     map[string]string
}

type PWay struct {
	ID   int64
	Refs []int64
	Tags map[string]string
	Info []byte
}

type PRel struct {
	ID      int64
	Members []Member
	Tags    map[string]string
	Info    []byte
}

type PBlock struct {
	Type           string
	Payload        []byte // for non-data blobs
	Gran, DateGran int64
	LatOff, LonOff int64
	Nodes          []PNode
	Ways           []PWay
	Rels           []PRel
	DenseInfo      []byte
	Strings        int
	Blank0         bool
	Dup            bool // a string appears twice in the table
}

func unpack(b []byte) ([]uint64, error) {
	var out []uint64
	for len(b) > 0 {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, fmt.Errorf("bad packed varint")
		}
		out = append(out, v)
		b = b[n:]
	}
	return out, nil
}

func undelta(b []byte) ([]int64, error) {
	us, err := unpack(b)
	if err != nil {
		return nil, err
	}
	out := make([]int64, len(us))
	last := int64(0)
	for i, u := range us {
		last += Unzig(u)
		out[i] = last
	}
	return out, nil
}

func ParsePrimitiveBlock(b []byte) (*PBlock, error) {
	pb := &PBlock{Type: "OSMData", Gran: 100, DateGran: 1000}
	fs, err := parseFields(b)
	if err != nil {
		return nil, err
	}
	var st []string
	for _, f := range fs {
		switch f.id {
		case 1:
			ss, err := parseFields(f.b)
			if err != nil {
				return nil, err
			}
			for _, s := range ss {
				st = append(st, string(s.b))
			}
		case 17:
			pb.Gran = int64(int32(f.v))
		case 18:
			pb.DateGran = int64(int32(f.v))
		case 19:
			pb.LatOff = int64(f.v)
		case 20:
			pb.LonOff = int64(f.v)
		}
	}
	pb.Strings = len(st)
	pb.Blank0 = len(st) > 0 && st[0] == ""
	dup := map[string]bool{}
	for _, s := range st {
		if dup[s] {
			pb.Dup = true
		}
		dup[s] = true
	}
	str := func(i uint64) (string, error) {
		if i >= uint64(len(st)) {
			return "", fmt.Errorf("string index %d of %d", i, len(st))
		}
		return st[i], nil
	}
	tags := func(k, v []byte) (map[string]string, error) {
		ks, err := unpack(k)
		if err != nil {
			return nil, err
		}
		vs, err := unpack(v)
		if err != nil {
			return nil, err
		}
		if len(ks) != len(vs) {
			return nil, fmt.Errorf("%d keys, %d values", len(ks), len(vs))
		}
		m := map[string]string{}
		for i := range ks {
			a, err := str(ks[i])
			if err != nil {
				return nil, err
			}
			b, err := str(vs[i])
			if err != nil {
				return nil, err
			}
			m[a] = b
		}
		return m, nil
	}
	for _, f := range fs {
		if f.id != 2 {
			continue
		}
		gs, err := parseFields(f.b)
		if err != nil {
			return nil, err
		}
		for _, g := range gs {
			es, err := parseFields(g.b)
			if err != nil {
				return nil, err
			}
			get := func(id int) []byte {
				var r []byte
				for _, e := range es {
					if e.id == id {
						r = append(r, e.b...)
					}
				}
				return r
			}
			getv := func(id int) uint64 {
				for _, e := range es {
					if e.id == id {
						return e.v
					}
				}
				return 0
			}
			switch g.id {
			case 2:
				ids, err := undelta(get(1))
				if err != nil {
					return nil, err
				}
				lats, err := undelta(get(8))
				if err != nil {
					return nil, err
				}
				lons, err := undelta(get(9))
				if err != nil {
					return nil, err
				}
				if len(ids) != len(lats) || len(ids) != len(lons) {
					return nil, fmt.Errorf("dense columns differ in length")
				}
				kv, err := unpack(get(10))
				if err != nil {
					return nil, err
				}
				if di := get(5); di != nil {
					pb.DenseInfo = append(pb.DenseInfo, di...)
				}
				at := 0
				for i := range ids {
					m := map[string]string{}
					if len(kv) > 0 {
						for {
							if at >= len(kv) {
								return nil, fmt.Errorf("key/value column too short")
							}
							if kv[at] == 0 {
								at++
								break
							}
							if at+1 >= len(kv) {
								return nil, fmt.Errorf("key without value")
							}
							a, err := str(kv[at])
							if err != nil {
								return nil, err
							}
							b, err := str(kv[at+1])
							if err != nil {
								return nil, err
							}
							m[a] = b
							at += 2
						}
					}
					pb.Nodes = append(pb.Nodes, PNode{ids[i], pb.LatOff + pb.Gran*lats[i], pb.LonOff + pb.Gran*lons[i], m})
				}
				if at != len(kv) {
					return nil, fmt.Errorf("key/value column too long")
				}
			case 3:
				m, err := tags(get(2), get(3))
				if err != nil {
					return nil, err
				}
				refs, err := undelta(get(8))
				if err != nil {
					return nil, err
				}
				pb.Ways = append(pb.Ways, PWay{int64(getv(1)), refs, m, get(4)})
			case 4:
				m, err := tags(get(2), get(3))
				if err != nil {
					return nil, err
				}
				roles, err := unpack(get(8))
				if err != nil {
					return nil, err
				}
				ids, err := undelta(get(9))
				if err != nil {
					return nil, err
				}
				ty, err := unpack(get(10))
				if err != nil {
					return nil, err
				}
				if len(roles) != len(ids) || len(ids) != len(ty) {
					return nil, fmt.Errorf("relation columns differ in length")
				}
				r := PRel{ID: int64(getv(1)), Tags: m, Info: get(4)}
				for i := range ids {
					s, err := str(roles[i])
					if err != nil {
						return nil, err
					}
					r.Members = append(r.Members, Member{int(ty[i]), ids[i], s})
				}
				pb.Rels = append(pb.Rels, r)
			}
		}
	}
	return pb, nil
}

// Parse reads a whole PBF file.
func Parse(b []byte) ([]PBlock, error) {
	rb, err := ParseBlobs(b)
	if err != nil {
		return nil, err
	}
	var out []PBlock
	for i, r := range rb {
		if r.Type == "OSMData" {
			p, err := ParsePrimitiveBlock(r.Payload)
			if err != nil {
				return nil, fmt.Errorf("block %d: %v", i, err)
			}
			out = append(out, *p)
		} else {
			out = append(out, PBlock{Type: r.Type, Payload: r.Payload})
		}
	}
	return out, nil
}

// ---- canonical text, for comparisons ----

func tagText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%q,", k, m[k])
	}
	return b.String()
}

func (n PNode) String() string {
	return fmt.Sprintf("n%d(%d,%d){%s}", n.ID, n.Lat, n.Lon, tagText(n.Tags))
}
func (w PWay) String() string { return fmt.Sprintf("w%d%v{%s}", w.ID, w.Refs, tagText(w.Tags)) }
func (r PRel) String() string { return fmt.Sprintf("r%d%v{%s}", r.ID, r.Members, tagText(r.Tags)) }

// Text is the content of a block without the layout.
func (p PBlock) Text() string {
	if p.Type != "OSMData" {
		return fmt.Sprintf("%s:%x", p.Type, p.Payload)
	}
	var b strings.Builder
	b.WriteString("OSMData")
	for _, n := range p.Nodes {
		b.WriteString(" " + n.String())
	}
	for _, w := range p.Ways {
		b.WriteString(" " + w.String())
	}
	for _, r := range p.Rels {
		b.WriteString(" " + r.String())
	}
	return b.String()
}

func tagMap(t []KV) map[string]string {
	m := map[string]string{}
	for _, kv := range t {
		m[kv.K] = kv.V
	}
	return m
}

// Expect is the parsed form of the file as generated.
func (f File) Expect() []PBlock {
	var out []PBlock
	for _, bl := range f {
		if bl.Type == "OSMHeader" {
			out = append(out, PBlock{Type: bl.Type, Payload: bl.Payload})
			continue
		}
		p := PBlock{Type: "OSMData", Gran: 100, DateGran: 1000, LatOff: bl.LatOff, LonOff: bl.LonOff}
		if bl.Gran != 0 {
			p.Gran = int64(bl.Gran)
		}
		if bl.DateGran != 0 {
			p.DateGran = int64(bl.DateGran)
		}
		for _, g := range bl.Groups {
			for _, n := range g.Nodes {
				p.Nodes = append(p.Nodes, PNode{n.ID, p.LatOff + p.Gran*n.Lat, p.LonOff + p.Gran*n.Lon, tagMap(n.Tags)})
			}
			for _, w := range g.Ways {
				p.Ways = append(p.Ways, PWay{w.ID, append([]int64{}, w.Refs...), tagMap(w.Tags), w.Info})
			}
			for _, r := range g.Rels {
				p.Rels = append(p.Rels, PRel{r.ID, append([]Member{}, r.Members...), tagMap(r.Tags), r.Info})
			}
		}
		out = append(out, p)
	}
	return out
}

// ---- locations ----

// Loc packs a location: longitude in the even bits, latitude in the odd ones,
// both in 1e-7 degrees as 32-bit two's complement, with the top bit set.
func Loc(latNano, lonNano int64) int64 {
	lat := uint32(int32(latNano / 100))
	lon := uint32(int32(lonNano / 100))
	lat |= 1 << 31
	var r uint64
	for i := 0; i < 32; i++ {
		r |= uint64(lon>>i&1) << (2 * i)
		r |= uint64(lat>>i&1) << (2*i + 1)
	}
	return int64(r)
}

// NodeLocs is the location of every node of the file.
func NodeLocs(f []PBlock) map[int64]int64 {
	m := map[int64]int64{}
	for _, b := range f {
		for _, n := range b.Nodes {
			m[n.ID] = Loc(n.Lat, n.Lon)
		}
	}
	return m
}

// ---- index readers ----

func u64s(b []byte) []uint64 {
	r := make([]uint64, len(b)/8)
	for i := range r {
		r[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	return r
}

// ReadNodeIdx reads a node index and returns every id with a location.
func ReadNodeIdx(b []byte) (map[int64]int64, error) {
	if len(b)%8 != 0 || len(b) < 16 {
		return nil, fmt.Errorf("node index of %d bytes", len(b))
	}
	u := u64s(b)
	if u[0] != 1 {
		return nil, fmt.Errorf("node index version %d", u[0])
	}
	n := u[1]
	if uint64(len(u)-2) < 2*n {
		return nil, fmt.Errorf("node index with %d elements in %d words", n, len(u))
	}
	el := u[2 : 2+2*n]
	loc := u[2+2*n:]
	m := map[int64]int64{}
	next := uint64(0)
	lastEnd := int64(-1)
	for i := uint64(0); i < n; i++ {
		first := el[2*i]
		cnt := el[2*i+1] & (1<<24 - 1)
		off := el[2*i+1] >> 24
		if cnt == 0 {
			return nil, fmt.Errorf("element %d is empty", i)
		}
		if off != next {
			return nil, fmt.Errorf("element %d at offset %d, not %d", i, off, next)
		}
		next += cnt
		if next > uint64(len(loc)) {
			return nil, fmt.Errorf("element %d runs past the locations", i)
		}
		if int64(first) <= lastEnd {
			return nil, fmt.Errorf("element %d not in order", i)
		}
		lastEnd = int64(first + cnt - 1)
		for j := uint64(0); j < cnt; j++ {
			if l := loc[off+j]; l != 0 {
				m[int64(first+j)] = int64(l)
			}
		}
	}
	if next != uint64(len(loc)) {
		return nil, fmt.Errorf("%d locations for %d ids", len(loc), next)
	}
	return m, nil
}

// ReadWayIdx reads a way index.
func ReadWayIdx(b []byte) (ids []int64, locs map[int64][]int64, err error) {
	if len(b) < 16 {
		return nil, nil, fmt.Errorf("way index of %d bytes", len(b))
	}
	n := binary.LittleEndian.Uint64(b)
	sh := binary.LittleEndian.Uint64(b[8:])
	if uint64(len(b)-16) < 8*n {
		return nil, nil, fmt.Errorf("way index with %d ways in %d bytes", n, len(b))
	}
	el := u64s(b[16 : 16+8*n])
	loc := b[16+8*n:]
	locs = map[int64][]int64{}
	for _, e := range el {
		id := int64(e >> 33)
		off := (e & (1<<33 - 1)) << sh
		if off >= uint64(len(loc)) {
			return nil, nil, fmt.Errorf("way %d at offset %d of %d", id, off, len(loc))
		}
		var vs []int64
		last := int64(0)
		p := loc[off:]
		for {
			u, k := binary.Uvarint(p)
			if k <= 0 {
				return nil, nil, fmt.Errorf("way %d: no end", id)
			}
			p = p[k:]
			if u == 0 {
				break
			}
			last += Unzig(u)
			vs = append(vs, last)
		}
		if len(ids) > 0 && ids[len(ids)-1] >= id {
			return nil, nil, fmt.Errorf("way %d out of order", id)
		}
		ids = append(ids, id)
		locs[id] = vs
	}
	return ids, locs, nil
}

type RelIdx struct {
	ID   int64
	Ways []RelIdxWay
}

type RelIdxWay struct {
	ID   int64
	Locs []int64
}

// ReadRelIdx reads a relation index.
func ReadRelIdx(b []byte) ([]RelIdx, error) {
	if len(b)%8 != 0 {
		return nil, fmt.Errorf("relation index of %d bytes", len(b))
	}
	u := u64s(b)
	var out []RelIdx
	i := 0
	for i < len(u) {
		if i+2 > len(u) {
			return nil, fmt.Errorf("relation index ends inside a relation")
		}
		r := RelIdx{ID: int64(u[i])}
		n := u[i+1]
		i += 2
		for j := uint64(0); j < n; j++ {
			if i+2 > len(u) {
				return nil, fmt.Errorf("relation %d ends inside a way", r.ID)
			}
			w := RelIdxWay{ID: int64(u[i])}
			c := u[i+1]
			i += 2
			if c > uint64(len(u)-i) {
				return nil, fmt.Errorf("relation %d way %d: %d locations, %d words left", r.ID, w.ID, c, len(u)-i)
			}
			for k := uint64(0); k < c; k++ {
				w.Locs = append(w.Locs, int64(u[i]))
				i++
			}
			r.Ways = append(r.Ways, w)
		}
		out = append(out, r)
	}
	return out, nil
}

// Dedup drops consecutive duplicates.
func Dedup(v []int64) []int64 {
	var out []int64
	for i, x := range v {
		if i == 0 || x != v[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// ExpectRelIdx is the relation index of a file against a way lookup.
func ExpectRelIdx(f []PBlock, way func(id int64) ([]int64, bool)) []RelIdx {
	var out []RelIdx
	for _, b := range f {
		for _, r := range b.Rels {
			ri := RelIdx{ID: r.ID}
			for _, m := range r.Members {
				if m.Type != 1 {
					continue
				}
				l, _ := way(m.ID)
				ri.Ways = append(ri.Ways, RelIdxWay{m.ID, l})
			}
			out = append(out, ri)
		}
	}
	return out
}

func RelIdxText(rs []RelIdx) string {
	var b strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&b, "r%d[", r.ID)
		for _, w := range r.Ways {
			fmt.Fprintf(&b, "w%d%v ", w.ID, w.Locs)
		}
		b.WriteString("] ")
	}
	return b.String()
}

// ---- tag filter ----

var dropTags = map[string]bool{}

func init() {
	for _, t := range strings.Fields("note source source_ref attribution comment fixme created_by odbl odbl:note project:eurosha_2012 ref:UrbIS accuracy:meters sub_sea:type waterway:type statscan:rbuid ref:ruian:addr ref:ruian building:ruian:type dibavod:id uir_adr:ADRESA_KOD gst:feat_id maaamet:ETAK ref:FR:FANTOIR 3dshapes:ggmodelk AND_nosr_r OPPDATERIN addr:city:simc addr:street:sym_ul building:usage:pl building:use:pl teryt:simc raba:id dcgis:gis_id nycdoitt:bin chicago:building_id lojic:bgnum massgis:way_id import import_uuid OBJTYPE SK53_bulk:load") {
		dropTags[t] = true
	}
}

// DropTags lists the exact tag keys removed; DropPrefixes the prefixes.
func DropTags() []string {
	var r []string
	for k := range dropTags {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var DropPrefixes = []string{"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:", "yh:", "LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:"}

func KeepTag(k string) bool {
	if dropTags[k] {
		return false
	}
	for _, p := range DropPrefixes {
		if len(k) >= len(p) && k[:len(p)] == p {
			return false
		}
	}
	return true
}

// ExpectTagFilter is the file after filtering: the blocks that remain.
func ExpectTagFilter(f []PBlock) []PBlock {
	var out []PBlock
	for _, b := range f {
		if b.Type != "OSMData" {
			out = append(out, b)
			continue
		}
		nb := PBlock{Type: "OSMData", Ways: b.Ways, Rels: b.Rels}
		for _, n := range b.Nodes {
			m := map[string]string{}
			for k, v := range n.Tags {
				if KeepTag(k) {
					m[k] = v
				}
			}
			if len(m) > 0 {
				nb.Nodes = append(nb.Nodes, PNode{n.ID, n.Lat / 100 * 100, n.Lon / 100 * 100, m})
			}
		}
		if len(nb.Nodes)+len(nb.Ways)+len(nb.Rels) > 0 {
			out = append(out, nb)
		}
	}
	return out
}
