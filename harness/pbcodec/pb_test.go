// Package pbcodec checks the protobuf primitives against encoding/binary and the
// wire format, value by value and sequence by sequence.
package pbcodec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/pb"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

func zig(v int64) uint64 {
	if v >= 0 {
		return uint64(v) * 2
	}
	return uint64(-(v+1))*2 + 1
}

// u64s are the values around 0 and every power of two, and every pattern of one
// byte in every byte position over zeroes and over ones.
func u64s() []uint64 {
	seen := map[uint64]bool{}
	var out []uint64
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for v := uint64(0); v < 600; v++ {
		add(v)
	}
	for k := 0; k < 64; k++ {
		for d := -3; d <= 3; d++ {
			add(uint64(1)<<k + uint64(d))
			add(^(uint64(1)<<k + uint64(d)))
		}
	}
	for pos := 0; pos < 64; pos += 7 {
		for b := uint64(0); b < 128; b++ {
			add(b << pos)
			add(^(b << pos))
		}
	}
	for pos := 0; pos < 64; pos += 8 {
		for b := uint64(0); b < 256; b++ {
			add(b << pos)
			add(^(b << pos))
		}
	}
	return out
}

// surroundings of an encoding: what is in the buffer before it and the room left
var before = [][]byte{nil, {}, {0x80}, {0xff, 0, 7}, bytes.Repeat([]byte{0xa5}, 63)}
var room = []int{0, 1, 9, 64}
var after = [][]byte{nil, {0}, {0xff, 0xff}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1}}

// appended checks that enc appends exactly want to every kind of buffer.
func appended(what string, enc func(b []byte) []byte, want []byte) string {
	for _, p := range before {
		for _, x := range room {
			var b []byte
			if p != nil {
				b = make([]byte, len(p), len(p)+x)
				copy(b, p)
			}
			keep := string(p)
			var got []byte
			if m := vlib.Guard(func() { got = enc(b) }); m != "" {
				return fmt.Sprintf("%s: %s", what, m)
			}
			if len(got) < len(p) || string(got[:len(p)]) != keep || string(b) != keep {
				return fmt.Sprintf("%s changed what was in the buffer: %x, then %x", what, keep, got)
			}
			if !bytes.Equal(got[len(p):], want) {
				return fmt.Sprintf("%s appends %s, the wire format is %s", what, hex(got[len(p):]), hex(want))
			}
			if len(want) > 4096 {
				return ""
			}
		}
	}
	return ""
}

func hex(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%x... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// decoded checks that dec reads enc to the end wherever it lies.
func decoded(what string, enc []byte, dec func(b []byte, n *int) string, want string) string {
	for _, p := range before {
		for _, s := range after {
			b := append(append(append([]byte(nil), p...), enc...), s...)
			b = b[:len(b):len(b)]
			keep := string(b)
			n := len(p)
			var got string
			if m := vlib.Guard(func() { got = dec(b, &n) }); m != "" {
				return fmt.Sprintf("%s of %s: %s", what, hex(enc), m)
			}
			if got != want {
				return fmt.Sprintf("%s of %s gives %s, not %s", what, hex(enc), short(got), short(want))
			}
			if n != len(p)+len(enc) {
				return fmt.Sprintf("%s of %s (%d bytes) moves on by %d", what, hex(enc), len(enc), n-len(p))
			}
			if string(b) != keep {
				return fmt.Sprintf("%s of %s changes the buffer", what, hex(enc))
			}
			if len(enc) > 4096 {
				return ""
			}
		}
	}
	return ""
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// try reports the first complaint.
func try(r *vlib.R, d string, bad ...string) bool {
	for _, b := range bad {
		if b != "" {
			r.Fail(d, b, "", nil)
			return false
		}
	}
	return true
}

func text(v any) string { return fmt.Sprint(v) }

func lenPrefixed(b []byte) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(b))), b...)
}

func init() {
	// every interesting value through every single-value function
	vlib.Register("C11.values", func(r *vlib.R) {
		vs := u64s()
		for lo := 0; lo < len(vs); lo += 64 {
			d := fmt.Sprintf("values %#x...", vs[lo])
			if !r.Case(d) {
				continue
			}
			for _, v := range vs[lo:min(len(vs), lo+64)] {
				v := v
				enc := binary.AppendUvarint(nil, v)
				s := int64(v)
				zenc := binary.AppendUvarint(nil, zig(s))
				one := func(f func(b []byte, n *int) any) func(b []byte, n *int) string {
					return func(b []byte, n *int) string { return text(f(b, n)) }
				}
				ok := try(r, fmt.Sprintf("value %#x", v),
					appended("EncodeVarInt", func(b []byte) []byte { return pb.EncodeVarInt(b, v) }, enc),
					decoded("DecodeVarInt", enc, one(func(b []byte, n *int) any { return pb.DecodeVarInt(b, n) }), text(v)),
					decoded("DecodeU64", enc, one(func(b []byte, n *int) any { return pb.DecodeU64(b, n) }), text(v)),
					decoded("DecodeU64Opt", enc, one(func(b []byte, n *int) any { return *pb.DecodeU64Opt(b, n) }), text(v)),
					decoded("DecodeI64", enc, one(func(b []byte, n *int) any { return pb.DecodeI64(b, n) }), text(s)),
					decoded("DecodeI64Opt", enc, one(func(b []byte, n *int) any { return *pb.DecodeI64Opt(b, n) }), text(s)),
					decoded("DecodeS64", zenc, one(func(b []byte, n *int) any { return pb.DecodeS64(b, n) }), text(s)),
					decoded("DecodeS64Opt", zenc, one(func(b []byte, n *int) any { return *pb.DecodeS64Opt(b, n) }), text(s)),
				)
				if !ok {
					return
				}
				if got := pb.EncodeZigZag(s); got != zig(s) {
					r.Fail(fmt.Sprintf("zigzag %d", s), fmt.Sprintf("EncodeZigZag gives %#x, not %#x", got, zig(s)), "", nil)
					return
				}
				if got := pb.DecodeZigZag(v); zig(got) != v {
					r.Fail(fmt.Sprintf("zigzag %#x", v), fmt.Sprintf("DecodeZigZag gives %d", got), "", nil)
					return
				}
				// 32 bit values: those whose 32 bits v has, signed ones widened to 64
				i32, u32 := int32(v), uint32(v)
				ienc := binary.AppendUvarint(nil, uint64(int64(i32)))
				uenc := binary.AppendUvarint(nil, uint64(u32))
				z32 := binary.AppendUvarint(nil, zig(int64(i32)))
				ok = try(r, fmt.Sprintf("value %#x in 32 bits", v),
					decoded("DecodeU32", uenc, one(func(b []byte, n *int) any { return pb.DecodeU32(b, n) }), text(u32)),
					decoded("DecodeU32Opt", uenc, one(func(b []byte, n *int) any { return *pb.DecodeU32Opt(b, n) }), text(u32)),
					decoded("DecodeI32", ienc, one(func(b []byte, n *int) any { return pb.DecodeI32(b, n) }), text(i32)),
					decoded("DecodeI32Opt", ienc, one(func(b []byte, n *int) any { return *pb.DecodeI32Opt(b, n) }), text(i32)),
					decoded("DecodeS32", z32, one(func(b []byte, n *int) any { return pb.DecodeS32(b, n) }), text(i32)),
					decoded("DecodeS32Opt", z32, one(func(b []byte, n *int) any { return *pb.DecodeS32Opt(b, n) }), text(i32)),
				)
				if !ok {
					return
				}
				// an id and its value; a field number has at most 29 bits
				for _, id := range []uint64{1, 15, 16, 34, 2047, 2048, 1<<29 - 1} {
					w := append(binary.AppendUvarint(nil, id<<3), enc...)
					if !try(r, fmt.Sprintf("field %d value %#x", id, v),
						appended("EncodeIdVarInt", func(b []byte) []byte { return pb.EncodeIdVarInt(b, id, v) }, w)) {
						return
					}
				}
				r.Count("values", 1)
			}
			r.Nontrivial(d)
		}
	})

	// every encoding of up to three bytes, and longer ones that are not the shortest
	vlib.Register("C11.bytes", func(r *vlib.R) {
		for b0 := 0; b0 < 256; b0++ {
			d := fmt.Sprintf("encodings that start with %02x", b0)
			if !r.Case(d) {
				continue
			}
			top := r.Pick(1<<16, 1<<24)
			for rest := 0; rest < top; rest++ {
				b := []byte{byte(b0), byte(rest), byte(rest >> 8), byte(rest >> 16)}
				want, k := binary.Uvarint(b)
				if k <= 0 {
					b = append(b, 1)
					want, k = binary.Uvarint(b)
				}
				b = b[:k]
				n := 0
				var got uint64
				if m := vlib.Guard(func() { got = pb.DecodeVarInt(b, &n) }); m != "" || got != want || n != k {
					r.Fail(d, fmt.Sprintf("DecodeVarInt of %x gives %d after %d bytes, not %d after %d %s", b, got, n, want, k, m), "", nil)
					return
				}
				if e := pb.EncodeVarInt(nil, got); !bytes.Equal(e, binary.AppendUvarint(nil, got)) {
					r.Fail(d, fmt.Sprintf("EncodeVarInt of %d gives %x", got, e), "", nil)
					return
				}
			}
			r.Count("encodings", top)
			// longer: all lengths, one byte differs, others all alike
			for l := 1; l <= 10; l++ {
				for _, fill := range []byte{0x80, 0x81, 0xc0, 0xff} {
					for pos := 0; pos < l; pos++ {
						b := bytes.Repeat([]byte{fill}, l)
						b[l-1] &= 0x7f
						if l == 10 {
							b[l-1] &= 1
						}
						b[pos] = byte(b0)
						want, k := binary.Uvarint(b)
						if k != l && !(k > 0) {
							continue
						}
						n := 0
						var got uint64
						if m := vlib.Guard(func() { got = pb.DecodeVarInt(b, &n) }); m != "" || got != want || n != k {
							r.Fail(d, fmt.Sprintf("DecodeVarInt of %x gives %d after %d bytes, not %d after %d %s", b, got, n, want, k, m), "", nil)
							return
						}
					}
				}
			}
			r.Nontrivial(d)
		}
	})

	type alpha[T any] []T
	s32 := alpha[int32]{0, 1, -1, 2, 63, -64, 64, -65, 8191, -8192, 8192, 1<<20 - 1, 1 << 20, 1<<27 - 1, -1 << 27, 1<<31 - 1, -1 << 31}
	u32 := alpha[uint32]{0, 1, 127, 128, 255, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	s64 := alpha[int64]{0, 1, -1, 2, 63, -64, 64, -65, 8192, 1<<34 - 1, -1 << 34, 1 << 34, 1 << 41, 1 << 48, 1 << 55, -1 << 55, 1<<62 - 1, -1 << 62, 1 << 62, 1<<63 - 1, -1 << 63}
	u64 := alpha[uint64]{0, 1, 127, 128, 16384, 1 << 21, 1 << 28, 1 << 35, 1 << 42, 1 << 49, 1<<56 - 1, 1 << 56, 1<<63 - 1, 1 << 63, 1<<64 - 1}

	// every list of up to three (four) values, and long ones, through every list function
	vlib.Register("C11.lists", func(r *vlib.R) {
		depth := r.Pick(3, 4)
		lists(r, "s32", s32, depth, func(l []int32) []string {
			var z, iv, dz []byte
			last := int32(0)
			fits := true
			for _, v := range l {
				z = binary.AppendUvarint(z, zig(int64(v)))
				iv = binary.AppendUvarint(iv, uint64(int64(v)))
				x := int64(v) - int64(last)
				fits = fits && x == int64(int32(x))
				dz = binary.AppendUvarint(dz, zig(x))
				last = v
			}
			out := []string{
				appended("EncodeS32Packed", func(b []byte) []byte { return pb.EncodeS32Packed(b, l) }, lenPrefixed(z)),
				appended("EncodeI32Packed", func(b []byte) []byte { return pb.EncodeI32Packed(b, l) }, lenPrefixed(iv)),
				appended("EncodeI32PackedFunc", func(b []byte) []byte { return pb.EncodeI32PackedFunc(l)(b) }, iv),
				decoded("DecodeS32Packed", lenPrefixed(z), func(b []byte, n *int) string { return text(pb.DecodeS32Packed(b, n)) }, text(l)),
				decoded("DecodeI32Packed", lenPrefixed(iv), func(b []byte, n *int) string { return text(pb.DecodeI32Packed(b, n)) }, text(l)),
			}
			if fits {
				out = append(out, appended("EncodeS32PackedDelta", func(b []byte) []byte { return pb.EncodeS32PackedDelta(b, l) }, lenPrefixed(dz)))
			} else {
				// differences that do not fit wrap around, as the values do when read
				n := 0
				sum := int32(0)
				var got []int32
				for _, x := range pb.DecodeS32Packed(pb.EncodeS32PackedDelta(nil, l), &n) {
					sum += x
					got = append(got, sum)
				}
				if text(got) != text(l) {
					out = append(out, fmt.Sprintf("EncodeS32PackedDelta of %v is read as %v", l, got))
				}
			}
			return out
		})
		lists(r, "u32", u32, depth, func(l []uint32) []string {
			var u []byte
			for _, v := range l {
				u = binary.AppendUvarint(u, uint64(v))
			}
			return []string{
				appended("EncodeU32PackedFunc", func(b []byte) []byte { return pb.EncodeU32PackedFunc(l)(b) }, u),
				decoded("DecodeU32Packed", lenPrefixed(u), func(b []byte, n *int) string { return text(pb.DecodeU32Packed(b, n)) }, text(l)),
			}
		})
		lists(r, "u64", u64, depth, func(l []uint64) []string {
			var u []byte
			for _, v := range l {
				u = binary.AppendUvarint(u, v)
			}
			return []string{
				appended("EncodeU64Packed", func(b []byte) []byte { return pb.EncodeU64Packed(l)(b) }, u),
				decoded("DecodeU64Packed", lenPrefixed(u), func(b []byte, n *int) string { return text(pb.DecodeU64Packed(b, n)) }, text(l)),
			}
		})
		lists(r, "s64", s64, depth, func(l []int64) []string {
			var z, dz []byte
			last := int64(0)
			zero := false
			for _, v := range l {
				z = binary.AppendUvarint(z, zig(v))
				dz = binary.AppendUvarint(dz, zig(v-last))
				zero = zero || v == last
				last = v
			}
			out := []string{
				decoded("DecodeS64Packed", lenPrefixed(z), func(b []byte, n *int) string { return text(pb.DecodeS64Packed(b, n)) }, text(l)),
				appended("EncodeS64PackedDelta", func(b []byte) []byte { return pb.EncodeS64PackedDelta(b, l) }, lenPrefixed(dz)),
				appended("EncodeS64PackedDeltaFunc", func(b []byte) []byte { return pb.EncodeS64PackedDeltaFunc(l)(b) }, dz),
				decoded("DecodeS64PackedDelta", lenPrefixed(dz), func(b []byte, n *int) string { return text(pb.DecodeS64PackedDelta(b, n)) }, text(l)),
				appended("EncodeS64PackedDeltaZero", func(b []byte) []byte { return pb.EncodeS64PackedDeltaZero(b, l) }, append(dz[:len(dz):len(dz)], 0)),
			}
			if !zero { // a list with two equal neighbours cannot be told from its end
				for _, s := range after {
					b := append(append(dz[:len(dz):len(dz)], 0), s...)
					var got []int64
					if m := vlib.Guard(func() { got = pb.DecodeS64PackedDeltaZero(b) }); m != "" || text(got) != text(l) {
						out = append(out, fmt.Sprintf("DecodeS64PackedDeltaZero of %s gives %s, not %s %s", hex(b), short(text(got)), short(text(l)), m))
					}
				}
			}
			return out
		})
	})

	// buffers and strings of every length, and around every threshold
	vlib.Register("C11.buffers", func(r *vlib.R) {
		var ls []int
		for l := 0; l <= 700; l++ {
			ls = append(ls, l)
		}
		for _, t := range []int{16384, 65536, 2097152, r.Pick(1<<23, 268435456)} {
			ls = append(ls, t-2, t-1, t, t+1)
		}
		for _, l := range ls {
			d := fmt.Sprintf("buffer of %d bytes", l)
			if !r.Case(d) {
				continue
			}
			p := make([]byte, l)
			for i := range p {
				p[i] = byte(i*7 + i>>8)
			}
			w := lenPrefixed(p)
			bad := []string{
				appended("EncodeBuffer", func(b []byte) []byte { return pb.EncodeBuffer(b, p) }, w),
				appended("EncodeString", func(b []byte) []byte { return pb.EncodeString(b, string(p)) }, w),
				decoded("DecodeBytes", w, func(b []byte, n *int) string { return string(pb.DecodeBytes(b, n)) }, string(p)),
				decoded("ReadBytes", w, func(b []byte, n *int) string { return string(pb.ReadBytes(b, n)) }, string(p)),
				decoded("DecodeString", w, func(b []byte, n *int) string { return pb.DecodeString(b, n) }, string(p)),
				decoded("DecodeStringOpt", w, func(b []byte, n *int) string { return *pb.DecodeStringOpt(b, n) }, string(p)),
				decoded("SkipBytes", w, func(b []byte, n *int) string { pb.SkipBytes(b, n); return "" }, ""),
			}
			for _, id := range []uint64{1, 15, 16, 34, 2047, 2048} {
				bad = append(bad, appended("EncodeIdBuffer", func(b []byte) []byte { return pb.EncodeIdBuffer(b, id, p) },
					append(binary.AppendUvarint(nil, id<<3|2), w...)))
			}
			if try(r, d, bad...) {
				r.Nontrivial(d)
			}
		}
	})

	type emb struct {
		name  string
		limit int
		embed func(uint64, pb.Embedder, []byte) []byte
		put   func(b []byte, v int)
		res   func(b []byte) []byte
	}
	embs := []emb{
		{"128", 128, pb.Embed128, pb.EmbedInt128, pb.Reserve128},
		{"16384", 16384, pb.Embed16384, pb.EmbedInt16384, pb.Reserve16384},
		{"2097152", 2097152, pb.Embed2097152, pb.EmbedInt2097152, pb.Reserve2097152},
		{"268435456", 268435456, pb.Embed268435456, pb.EmbedInt268435456, pb.Reserve268435456},
	}
	// embedded reads a field from b and returns what follows it
	field := func(b []byte) (id uint64, payload, rest []byte, ok bool) {
		t, k := binary.Uvarint(b)
		if k <= 0 || t&7 != 2 {
			return 0, nil, nil, false
		}
		l, m := binary.Uvarint(b[k:])
		if m <= 0 || uint64(len(b)-k-m) < l {
			return 0, nil, nil, false
		}
		return t >> 3, b[k+m : k+m+int(l)], b[k+m+int(l):], true
	}
	vlib.Register("C11.embed", func(r *vlib.R) {
		for _, e := range embs {
			var ls []int
			for l := 0; l < 300; l++ {
				ls = append(ls, l)
			}
			for _, t := range []int{16384, 32768, 2097152, 1 << 22} {
				ls = append(ls, t-2, t-1, t, t+1)
			}
			if e.limit > 2097152 {
				ls = append(ls, e.limit-1, e.limit)
			}
			for _, l := range ls {
				d := fmt.Sprintf("message of %d bytes embedded with room for %s", l, e.name)
				if !r.Case(d) {
					continue
				}
				p := bytes.Repeat([]byte{0x5a, 0x80, 0}, l/3+1)[:l]
				ids := []uint64{1, 16, 2048}
				befores := before
				if l > 1<<20 {
					ids, befores = ids[:1], before[3:4]
				}
				for _, id := range ids {
					for _, pre := range befores {
						var got []byte
						b := append(make([]byte, 0, len(pre)+r.Pick(2, 0)), pre...)
						m := vlib.Guard(func() { got = e.embed(id, func(b []byte) []byte { return append(b, p...) }, b) })
						if m != "" {
							if l < e.limit {
								r.Fail(d, "refused: "+m, "", nil)
								return
							}
							r.Count("refused", 1)
							continue
						}
						if len(got) < len(pre) || !bytes.Equal(got[:len(pre)], pre) {
							r.Fail(d, "changed what was in the buffer", hex(got), nil)
							return
						}
						gid, gp, rest, ok := field(got[len(pre):])
						if !ok || gid != id || !bytes.Equal(gp, p) || len(rest) != 0 {
							r.Fail(d, "written wrong", fmt.Sprintf("field %d: %s", id, hex(got)), nil)
							return
						}
						n := len(pre)
						var dp []byte
						m = vlib.Guard(func() { pb.DecodeVarInt(got, &n); dp = pb.DecodeBytes(got, &n) })
						if m != "" || !bytes.Equal(dp, p) || n != len(got) {
							r.Fail(d, "not read back "+m, hex(got), nil)
							return
						}
						r.Count("embedded", 1)
					}
				}
				r.Nontrivial(d)
			}
			// messages in messages: each pair of kinds
			for _, o := range embs {
				d := fmt.Sprintf("messages with room for %s in a message with room for %s", e.name, o.name)
				if !r.Case(d) {
					continue
				}
				for a := 0; a < 60; a++ {
					for b := 0; b < 60; b++ {
						x, y := bytes.Repeat([]byte{1}, a), bytes.Repeat([]byte{2}, b)
						var got []byte
						if m := vlib.Guard(func() {
							got = o.embed(3, func(buf []byte) []byte {
								buf = e.embed(1, func(q []byte) []byte { return append(q, x...) }, buf)
								return e.embed(2, func(q []byte) []byte { return append(q, y...) }, buf)
							}, nil)
						}); m != "" {
							if a+b+10 < o.limit {
								r.Fail(d, "refused: "+m, fmt.Sprint(a, b), nil)
								return
							}
							continue
						}
						_, in, rest, ok := field(got)
						i1, p1, in2, ok1 := field(in)
						i2, p2, end, ok2 := field(in2)
						if !ok || !ok1 || !ok2 || len(rest) != 0 || len(end) != 0 || i1 != 1 || i2 != 2 || !bytes.Equal(p1, x) || !bytes.Equal(p2, y) {
							r.Fail(d, "written wrong", fmt.Sprint(a, b, hex(got)), nil)
							return
						}
					}
				}
				r.Nontrivial(d)
			}
			// the length alone: every one that fits (up to 2 MiB), and around every power of two
			d := fmt.Sprintf("every length in the room for %s", e.name)
			if r.Case(d) {
				bad := func(v int) string {
					b := e.res([]byte{0x11})
					size := len(b) - 1
					b = append(b, 0x22)
					m := vlib.Guard(func() { e.put(b[1:], v) })
					if m != "" {
						if v < e.limit {
							return "refused: " + m
						}
						return ""
					}
					got, k := binary.Uvarint(b[1:])
					if k != size || got != uint64(v) || b[0] != 0x11 || b[len(b)-1] != 0x22 {
						return fmt.Sprintf("written as %x", b)
					}
					return ""
				}
				var vs []int
				for k := 0; k < 40; k++ {
					for x := -2; x <= 2; x++ {
						if v := 1<<k + x; v >= 0 {
							vs = append(vs, v)
						}
					}
				}
				step := 1
				if e.limit > 1<<21 {
					step = r.Pick(61, 1)
				}
				for v := 0; v < min(e.limit+5, r.Pick(1<<27, 1<<29)); v += step {
					if x := bad(v); x != "" {
						r.Fail(d, fmt.Sprintf("length %d: %s", v, x), "", nil)
						return
					}
				}
				for _, v := range vs {
					if x := bad(v); x != "" {
						r.Fail(d, fmt.Sprintf("length %d: %s", v, x), "", nil)
						return
					}
				}
				r.Nontrivial(d)
			}
		}
	})
}

// lists runs f on every list of up to depth values of the alphabet, and on long lists.
func lists[T any](r *vlib.R, name string, al []T, depth int, f func(l []T) []string) {
	run := func(d string, l []T) bool {
		l = append([]T(nil), l...)
		keep := text(l)
		var bad []string
		if m := vlib.Guard(func() { bad = f(l) }); m != "" {
			bad = []string{m}
		}
		if text(l) != keep {
			bad = append(bad, "the list was changed")
		}
		r.Count("lists", 1)
		return try(r, d+" "+short(keep), bad...)
	}
	if d := name + " []"; r.Case(d) {
		if run(d, nil) {
			r.Nontrivial(d)
		}
	}
	for i, v := range al {
		d := fmt.Sprintf("%s lists that start with %v", name, v)
		if !r.Case(d) {
			continue
		}
		ok := true
		var rec func(l []T)
		rec = func(l []T) {
			if !ok {
				return
			}
			if !run(d, l) {
				ok = false
				return
			}
			if len(l) == depth {
				return
			}
			for _, w := range al {
				rec(append(l[:len(l):len(l)], w))
			}
		}
		rec([]T{al[i]})
		if ok {
			r.Nontrivial(d)
		}
	}
	for _, n := range []int{10, 63, 64, 65, 126, 127, 128, 129, 1000, 16383, 16384, 16385, 65536, 2097151, 2097152} {
		for k := 0; k < 3; k++ {
			d := fmt.Sprintf("%s list of %d values, kind %d", name, n, k)
			if !r.Case(d) {
				continue
			}
			l := make([]T, n)
			for i := range l {
				switch k {
				case 0:
					l[i] = al[1+i%2]
				case 1:
					l[i] = al[i%len(al)]
				case 2:
					l[i] = al[len(al)-1-i%2]
				}
			}
			if n > 100000 && k > 0 && !r.Thorough() {
				continue
			}
			if run(d, l) {
				r.Nontrivial(d)
			}
		}
	}
}
