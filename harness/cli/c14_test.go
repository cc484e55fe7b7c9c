package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func init() {
	// positions with every boundary of both coordinates, through nodeindex and dumpnodeindex
	vlib.Register("C14.index", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		var lons, lats []int64
		seen := map[string]bool{}
		add := func(v int64) {
			if seen[fmt.Sprint(v)] {
				return
			}
			seen[fmt.Sprint(v)] = true
			if v >= -1800000000 && v <= 1800000000 {
				lons = append(lons, v)
			}
			if v >= -900000000 && v <= 900000000 {
				lats = append(lats, v)
			}
		}
		for k := 0; k < 31; k++ {
			for x := int64(-1); x <= 1; x++ {
				add(1<<k + x)
				add(-(1 << k) + x)
			}
		}
		for _, b := range []int64{1800000000, 900000000, 0x55555555, 0x2aaaaaaa, 123456789} {
			for x := int64(-1); x <= 1; x++ {
				add(b + x)
				add(-b + x)
			}
		}
		for lo := 0; lo < len(lats); lo += 16 {
			d := fmt.Sprintf("latitude %d and the next 15 with every longitude", lats[lo])
			if !run.Mine(r, d) || r.Stop() || r.Late(d) {
				continue
			}
			r.Begin(d)
			var ns []osmref.Node
			want := map[int64]int64{}
			for _, la := range lats[lo:min(lo+16, len(lats))] {
				for _, lon := range lons {
					id := int64(len(ns) + 1)
					ns = append(ns, osmref.Node{ID: id, Lat: la, Lon: lon})
					want[id] = osmref.Loc(la*100, lon*100)
				}
			}
			f := osmref.File{run.Data(osmref.Group{NoKV: true, Nodes: ns})}
			run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
			x := run.Cmd(r, dir, run.Opt{}, "nodeindex", "-i", dir+"/in.pbf", "-o", dir+"/n.idx", "-w", "1")
			if b := x.Bad(); b != "" {
				r.Fail(d, "nodeindex: "+b, x.Stack, nil)
				return
			}
			got, err := osmref.ReadNodeIdx([]byte(x.Files["n.idx"]))
			if err != nil || len(got) != len(want) {
				r.Fail(d, fmt.Sprintf("%d locations, not %d: %v", len(got), len(want), err), "", nil)
				return
			}
			distinct := map[int64]bool{}
			for i, n := range ns {
				l := got[n.ID]
				if l >= 0 || l != want[n.ID] || distinct[l] {
					r.Fail(d, fmt.Sprintf("position %d %d is packed as %x, not %x", n.Lon, n.Lat, uint64(l), uint64(want[n.ID])), fmt.Sprint("seen: ", distinct[l], " node ", i), nil)
					return
				}
				distinct[l] = true
			}
			y := run.Cmd(r, dir, run.Opt{NoFiles: true}, "dumpnodeindex", "-i", dir+"/n.idx", "-p")
			if b := y.Bad(); b != "" {
				r.Fail(d, "dumpnodeindex: "+b, y.Stack, nil)
				return
			}
			i := 0
			for _, l := range strings.Split(strings.TrimSpace(y.Stdout), "\n") {
				var v uint64
				var lon, lat float64
				if k, _ := fmt.Sscanf(l, "Extract: %x (%f, %f)", &v, &lon, &lat); k != 3 || i >= len(ns) {
					r.Fail(d, "dumpnodeindex prints "+run.Short(l), "", nil)
					return
				}
				n := ns[i]
				dx, dy := lon-float64(n.Lon)/1e7, lat-float64(n.Lat)/1e7
				if v != uint64(want[n.ID]) || dx > 1e-6 || dx < -1e-6 || dy > 1e-6 || dy < -1e-6 {
					r.Fail(d, fmt.Sprintf("position %d %d is shown as %s", n.Lon, n.Lat, l), "", nil)
					return
				}
				i++
			}
			if i != len(ns) {
				r.Fail(d, fmt.Sprintf("%d positions shown, not %d", i, len(ns)), "", nil)
				return
			}
			r.Count("positions", len(ns))
			r.Nontrivial(d)
		}
	})

	// way ids around the limit: exact below it, refused from it on
	vlib.Register("C15.ways", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		ids := []int64{1, 2, 1<<16 - 1, 1 << 16, 1<<30 - 1, 1 << 30, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 5, 1 << 33, 1<<33 + 7, 1 << 40, 1<<62 + 9}
		for _, id := range ids {
			for _, before := range []int64{0, 1, 7} {
				for _, align := range []int{0, 3} {
					d := fmt.Sprintf("way %d after %d with alignment %d", id, before, align)
					if id <= before || !run.Mine(r, d) || r.Stop() || r.Late(d) {
						continue
					}
					var ws []osmref.Way
					if before > 0 {
						ws = append(ws, osmref.Way{ID: before, Refs: []int64{-5, 6, 7}})
					}
					ws = append(ws, osmref.Way{ID: id, Refs: []int64{-1, 2, -3}})
					f := osmref.File{run.Data(osmref.Group{Ways: ws})}
					if id < 1<<31 {
						wayCase(r, d, dir, f, align, []int{1, 2})
						continue
					}
					r.Begin(d)
					if _, bad := buildWays(r, dir, f, align); bad == "" {
						r.Fail(d, "an id that does not fit was not refused", "", nil)
						return
					}
					r.Count("refused", 1)
					r.Nontrivial(d)
				}
			}
		}
	})

	// runs of nodes around powers of two, at first ids of every magnitude
	vlib.Register("C15.nodes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, first := range []int64{0, 1, 1<<31 - 2, 1<<32 - 1, 1 << 40, 1<<62 + 1} {
			for _, n := range []int{1, 2, 3, 127, 128, 255, 256, 257, 16383, 16384, 65535, 65536} {
				d := fmt.Sprintf("%d nodes from %d, three times", n, first)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				var f osmref.File
				var look []int64
				id := first
				for k := 0; k < 3; k++ {
					var ns []osmref.Node
					look = append(look, id-2, id-1, id, id+1)
					for i := 0; i < n; i++ {
						ns = append(ns, pt(id))
						id++
					}
					look = append(look, id-2, id-1, id, id+1)
					id += 5
					f = append(f, run.Data(osmref.Group{NoKV: true, Nodes: ns}))
				}
				var ok []int64
				for _, v := range look {
					if v >= 0 {
						ok = append(ok, v)
					}
				}
				nodeCase(r, d, dir, f, ok)
			}
		}
	})
}
