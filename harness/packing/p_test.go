// Package packing checks the entries of the indexes.
package packing

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// around gives the values around 0, every power of two and every extra value.
func around(extra ...uint64) []uint64 {
	seen := map[uint64]bool{}
	var vs []uint64
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			vs = append(vs, v)
		}
	}
	for k := 0; k < 64; k++ {
		for d := -2; d <= 2; d++ {
			add(uint64(1)<<k + uint64(d))
		}
	}
	for _, e := range extra {
		for d := -2; d <= 2; d++ {
			add(e + uint64(d))
		}
	}
	return vs
}

func init() {
	vlib.Register("C15.count", func(r *vlib.R) {
		vs := around(0x555555, 0xaaaaaa, 0x5555555555, 0xaaaaaaaaaa, 0xffffff, 0xffffffffff)
		for i := uint64(0); i < 24; i++ {
			vs = append(vs, 0xffffff>>i<<i, 0xffffffffff>>i<<i, 0x5a5a5a>>i, 0x5a5a5a5a5a>>i)
		}
		for _, c := range vs {
			d := fmt.Sprintf("count %#x with every offset", c)
			if !r.Case(d) {
				continue
			}
			for _, o := range vs {
				var co nodeindex.CountOffset
				m := vlib.Guard(func() { co = nodeindex.NewCountOffset(c, o) })
				in := c < 1<<24 && o < 1<<40
				switch {
				case m != "" && in:
					r.Fail(d, fmt.Sprintf("offset %#x refused: %s", o, m), "", nil)
					return
				case m == "" && !in:
					r.Fail(d, fmt.Sprintf("offset %#x stored as count %#x offset %#x", o, co.Count(), co.Offset()), "", nil)
					return
				case m == "" && (co.Count() != c || co.Offset() != o):
					r.Fail(d, fmt.Sprintf("offset %#x gives back count %#x offset %#x", o, co.Count(), co.Offset()), "", nil)
					return
				}
			}
			r.Count("pairs", len(vs))
			r.Nontrivial(d)
		}
		step := uint64(r.Pick(3, 1))
		for hi := uint64(0); hi < 1<<24; hi += 1 << 18 {
			d := fmt.Sprintf("every count from %#x", hi)
			if !r.Case(d) {
				continue
			}
			for i := uint64(0); i < 1<<18; i += step {
				c := hi + i
				for _, o := range []uint64{0, c, c << 16, 1<<40 - 1 - c} {
					if co := nodeindex.NewCountOffset(c, o); co.Count() != c || co.Offset() != o {
						r.Fail(d, fmt.Sprintf("count %#x offset %#x gives back %#x %#x", c, o, co.Count(), co.Offset()), "", nil)
						return
					}
				}
			}
			r.Nontrivial(d)
		}
	})

	vlib.Register("C15.way", func(r *vlib.R) {
		vs := around(0x55555555, 0x2aaaaaaa, 0x1ffffffff, 0x155555555, 0x0aaaaaaaa)
		for i := uint64(0); i < 32; i++ {
			vs = append(vs, 0x7fffffff>>i<<i, 0x1ffffffff>>i<<i, 0x5a5a5a5a>>i, 0x15a5a5a5a>>i)
		}
		for _, w := range vs {
			d := fmt.Sprintf("way %d with every offset", int64(w))
			if !r.Case(d) {
				continue
			}
			for _, o := range vs {
				id, off := int64(w), int64(o)
				var x wayindex.WayIndexData
				m := vlib.Guard(func() { x = wayindex.MakeIndexData(id, off) })
				in := id >= 0 && id < 1<<31 && off >= 0 && off < 1<<33
				switch {
				case m != "" && in:
					r.Fail(d, fmt.Sprintf("offset %#x refused: %s", off, m), "", nil)
					return
				case m == "" && !in:
					r.Fail(d, fmt.Sprintf("offset %#x stored as way %#x offset %#x", off, x.WayID(), x.Offset()), "", nil)
					return
				case m == "" && (x.WayID() != id || x.Offset() != off):
					r.Fail(d, fmt.Sprintf("offset %#x gives back way %#x offset %#x", off, x.WayID(), x.Offset()), "", nil)
					return
				}
			}
			// entries are searched as numbers: they are in the order of their ids
			if id := int64(w); id >= 0 && id < 1<<31-1 {
				if wayindex.MakeIndexData(id, 1<<33-1) >= wayindex.MakeIndexData(id+1, 0) {
					r.Fail(d, "not below the entry of the next way", "", nil)
					return
				}
			}
			r.Count("pairs", len(vs))
			r.Nontrivial(d)
		}
	})

	// the elements of an index file: ids around them
	vlib.Register("C15.range", func(r *vlib.R) {
		firsts := []uint64{0, 1, 2, 255, 256, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<40 + 3, 1 << 53, 1<<62 + 1}
		counts := []uint64{1, 2, 3, 4, 5, 255, 256, 257, 65535, 65536, 1<<20 + 1, 1<<23 - 1, 1 << 23, 1<<24 - 2, 1<<24 - 1}
		offs := []uint64{0, 1, 2, 127, 1<<16 - 1, 1 << 16, 1<<24 - 1, 1 << 24, 1<<32 - 1, 1 << 32, 1<<39 + 5, 1<<40 - 1}
		for _, f := range firsts {
			for _, c := range counts {
				d := fmt.Sprintf("%d ids from %d", c, f)
				if !r.Case(d) {
					continue
				}
				_ = os.MkdirAll(r.Scratch, 0o755)
				fn := filepath.Join(r.Scratch, "n.idx")
				b := binary.LittleEndian.AppendUint64(nil, 1)
				b = binary.LittleEndian.AppendUint64(b, uint64(len(offs)))
				for _, o := range offs {
					b = binary.LittleEndian.AppendUint64(b, f)
					b = binary.LittleEndian.AppendUint64(b, o<<24|c)
				}
				vlib.MustWrite(fn, b)
				x := nodeindex.NewNodeIndex(fn, nil)
				si := x.SubIndex(0, 1)
				if si.ElementCount() != len(offs) {
					r.Fail(d, fmt.Sprintf("%d elements, not %d", si.ElementCount(), len(offs)), "", nil)
					return
				}
				for i, o := range offs {
					e := si.Element(i)
					if e.FirstID() != f || e.LastID() != f+c-1 || e.Count() != c || e.Offset() != o {
						r.Fail(d, fmt.Sprintf("at offset %d: first %d last %d count %d offset %d", o, e.FirstID(), e.LastID(), e.Count(), e.Offset()), "", nil)
						return
					}
					for _, k := range append(around(c, c-1, c/2), ids(c)...) {
						id := f + k
						if id >= 1<<63 { // also ids before the first one
							id = f - (-k)
						}
						in := id >= f && id <= f+c-1
						var got uint64
						m := vlib.Guard(func() { got = e.OffsetForID(id) })
						if (m == "") != in || in && got != o+(id-f) {
							r.Fail(d, fmt.Sprintf("at offset %d: id %d (in: %v) has offset %d %s", o, id, in, got, m), "", nil)
							return
						}
						r.Count("ids", 1)
					}
				}
				x.Close()
				r.Nontrivial(d)
			}
		}
	})
}

func ids(c uint64) []uint64 {
	var out []uint64
	for i := uint64(0); i < 40 && i <= c+2; i++ {
		out = append(out, i, c-1-i)
	}
	return out
}
