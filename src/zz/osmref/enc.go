package osmref

import (
	"encoding/binary"
	"sort"
)

// A message as a tree, so that it can be encoded in every way the format allows.

// Msg is a message.
type Msg struct {
	Kind string // block, strings, group, dense, way, rel, blob, header
	F    []Fld
}

// Fld is a field of a message.
type Fld struct {
	ID     int
	Wire   int // 0 or 2
	V      uint64
	B      []byte
	M      *Msg
	Packed bool
	P      []uint64
}

// Schema says what is below a kind of message: another kind, or packed for lists of varints.
var Schema = map[string]map[int]string{
	"block":   {1: "strings", 2: "group"},
	"strings": {},
	"group":   {2: "dense", 3: "way", 4: "rel"},
	"dense":   {1: "packed", 8: "packed", 9: "packed", 10: "packed"},
	"way":     {2: "packed", 3: "packed", 8: "packed"},
	"rel":     {2: "packed", 3: "packed", 8: "packed", 9: "packed", 10: "packed"},
	"blob":    {},
	"header":  {},
}

// ParseMsg reads a message of a kind.
func ParseMsg(kind string, b []byte) *Msg {
	m := &Msg{Kind: kind}
	fs, err := parseFields(b)
	if err != nil {
		panic(err)
	}
	for _, f := range fs {
		x := Fld{ID: f.id, Wire: f.typ, V: f.v, B: f.b}
		if f.typ == 2 {
			switch k := Schema[kind][f.id]; k {
			case "":
			case "packed":
				x.Packed = true
				if x.P, err = unpack(f.b); err != nil {
					panic(err)
				}
			default:
				x.M = ParseMsg(k, f.b)
			}
		}
		m.F = append(m.F, x)
	}
	return m
}

// Enc encodes messages; Pad says how many bytes more than needed the n-th varint takes.
type Enc struct {
	Pad func(n int) int
	N   int // varints so far
}

func (e *Enc) varint(b []byte, v uint64) []byte {
	pad := 0
	if e.Pad != nil {
		pad = e.Pad(e.N)
	}
	e.N++
	b = Varint(b, v)
	n := 1
	for x := v >> 7; x != 0; x >>= 7 {
		n++
	}
	for ; pad > 0 && n < 10; pad, n = pad-1, n+1 {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// Msg encodes a message.
func (e *Enc) Msg(m *Msg) []byte {
	var b []byte
	for _, f := range m.F {
		b = e.varint(b, uint64(f.ID<<3|f.Wire))
		if f.Wire == 0 {
			b = e.varint(b, f.V)
			continue
		}
		body := f.B
		if f.M != nil {
			body = e.Msg(f.M)
		} else if f.Packed {
			body = nil
			for _, v := range f.P {
				body = e.varint(body, v)
			}
		}
		b = e.varint(b, uint64(len(body)))
		b = append(b, body...)
	}
	return b
}

// Frame makes a framed blob of a blob message; order 1 puts the size before the type.
func (e *Enc) Frame(typ string, blob []byte, order int) []byte {
	fs := []Fld{{ID: 1, Wire: 2, B: []byte(typ)}, {ID: 3, V: uint64(len(blob))}}
	if order == 1 {
		fs[0], fs[1] = fs[1], fs[0]
	}
	h := e.Msg(&Msg{Kind: "header", F: fs})
	out := make([]byte, 4, 4+len(h)+len(blob))
	binary.BigEndian.PutUint32(out, uint32(len(h)))
	return append(append(out, h...), blob...)
}

// Clone copies a message.
func (m *Msg) Clone() *Msg {
	c := &Msg{Kind: m.Kind, F: append([]Fld{}, m.F...)}
	for i := range c.F {
		if c.F[i].M != nil {
			c.F[i].M = c.F[i].M.Clone()
		}
		c.F[i].P = append([]uint64{}, c.F[i].P...)
	}
	return c
}

// Walk visits a message and all below it.
func (m *Msg) Walk(f func(*Msg)) {
	f(m)
	for _, x := range m.F {
		if x.M != nil {
			x.M.Walk(f)
		}
	}
}

// Orders gives every order of the fields of a message in which fields with the same number stay in order.
func Orders(ids []int, f func(order []int)) {
	left := map[int][]int{}
	for i, id := range ids {
		left[id] = append(left[id], i)
	}
	var keys []int
	for id := range left {
		keys = append(keys, id)
	}
	sort.Ints(keys)
	order := make([]int, 0, len(ids))
	var rec func()
	rec = func() {
		if len(order) == len(ids) {
			f(order)
			return
		}
		for _, id := range keys {
			q := left[id]
			if len(q) == 0 {
				continue
			}
			left[id] = q[1:]
			order = append(order, q[0])
			rec()
			order = order[:len(order)-1]
			left[id] = q
		}
	}
	rec()
}
