// Package mortonx checks the packing of locations.
package mortonx

import (
	"fmt"
	"os"
	"testing"

	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/morton"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

const maxLon, maxLat = 1800000000, 900000000

// spread puts the bits of v at the even places.
func spread(v uint32) uint64 {
	x := uint64(v)
	x = (x | x<<16) & 0x0000ffff0000ffff
	x = (x | x<<8) & 0x00ff00ff00ff00ff
	x = (x | x<<4) & 0x0f0f0f0f0f0f0f0f
	x = (x | x<<2) & 0x3333333333333333
	x = (x | x<<1) & 0x5555555555555555
	return x
}

func pack(e, o int32) uint64 { return spread(uint32(e)) | spread(uint32(o))<<1 }

func inRange(lon, lat int64) bool {
	return lon >= -maxLon && lon <= maxLon && lat >= -maxLat && lat <= maxLat
}

func check(lon, lat int32) string {
	p := morton.Encode(lon, lat)
	if w := pack(lon, lat); p != w {
		return fmt.Sprintf("Encode(%d, %d) gives %#x, not %#x", lon, lat, p, w)
	}
	if e, o := morton.Decode(p); int32(e) != lon || int32(o) != lat {
		return fmt.Sprintf("Decode of the packed %d %d gives %d %d", lon, lat, int32(e), int32(o))
	}
	if inRange(int64(lon), int64(lat)) {
		for _, q := range []uint64{p, p | 1<<63} {
			if a, b := morton.DecodeLocation(q); a != lon || b != lat {
				return fmt.Sprintf("DecodeLocation of %#x gives %d %d, not %d %d", q, a, b, lon, lat)
			}
		}
	}
	return ""
}

func init() {
	// all pairs of boundary values: of the range, of every power of two, of every decimal
	vlib.Register("C14.pairs", func(r *vlib.R) {
		seen := map[int32]bool{}
		var vs []int32
		add := func(v int64) {
			if w := int32(v); int64(w) == v && !seen[w] {
				seen[w] = true
				vs = append(vs, w)
			}
		}
		for k := 0; k < 32; k++ {
			for d := int64(-2); d <= 2; d++ {
				add(1<<k + d)
				add(-(1 << k) + d)
			}
		}
		for _, b := range []int64{maxLon, maxLat, 1e6, 1e7, 1e8, 1e9, 123456789, 0x55555555, 0x2aaaaaaa, 0x33333333, 0x0f0f0f0f} {
			for d := int64(-2); d <= 2; d++ {
				add(b + d)
				add(-b + d)
			}
		}
		for pos := 0; pos < 32; pos += 8 {
			for b := int64(0); b < 256; b++ {
				add(int64(int32(b << pos)))
				add(int64(^int32(b << pos)))
			}
		}
		for _, x := range vs {
			d := fmt.Sprintf("longitude %d with every boundary latitude", x)
			if !r.Case(d) {
				continue
			}
			for _, y := range vs {
				if bad := check(x, y); bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
			}
			r.Count("pairs", len(vs))
			r.Nontrivial(d)
		}
	})
	// every value of a coordinate, the other at five values
	vlib.Register("C14.each", func(r *vlib.R) {
		other := []int32{0, -1, 1, maxLat, -maxLat}
		step := r.Pick(29, 1)
		for hi := -0x8000; hi < 0x8000; hi += 16 {
			d := fmt.Sprintf("coordinates from %#x0000", hi)
			if !r.Case(d) {
				continue
			}
			for i := 0; i < 16<<16; i += step {
				v := int32(hi<<16) + int32(i)
				o := other[(i/step)%5]
				bad := check(v, o)
				if bad == "" {
					bad = check(o, v)
				}
				if bad != "" {
					r.Fail(d, bad, "", nil)
					return
				}
			}
			r.Count("coordinates", 2*(16<<16)/step)
			r.Nontrivial(d)
		}
	})
}
