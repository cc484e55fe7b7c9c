package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// ends holds the lengths a prefix of whole blobs of a PBF can have.
func ends(b string) map[int]bool {
	m := map[int]bool{0: true}
	bs, err := osmref.ParseBlobs([]byte(b))
	if err != nil {
		return m
	}
	n := 0
	for _, x := range bs {
		n += len(x.Framed)
		m[n] = true
	}
	return m
}

// cancelled judges a run that may have been cancelled.
func cancelled(cmd, ref string, multi bool) run.Check {
	es := ends(ref)
	return func(x *run.Res) string {
		switch {
		case x.Crash != "":
			return "crash: " + x.Crash
		case x.Deadlock != "":
			return "deadlock: " + x.Deadlock
		case x.Leak != "":
			return "goroutines left behind: " + x.Leak
		case x.Exit > 0 && !x.Cancelled:
			return fmt.Sprintf("exit status %d", x.Exit)
		}
		for n := range x.Files {
			switch n {
			case "in.pbf", "n.idx", "rw.pbf", "w.idx", "out":
			default:
				return "left behind: " + n
			}
		}
		got, ok := x.Files["out"]
		if !x.Cancelled {
			if !ok {
				return "no output"
			}
			if got != ref {
				return "not the output of the reference run: " + run.Diff(got, ref)
			}
			return ""
		}
		switch cmd {
		case "decompress", "tagfilter", "rewritenodes":
			if multi {
				return ""
			}
			if !strings.HasPrefix(ref, got) {
				return "the output of a cancelled run is no prefix: " + run.Diff(got, ref)
			}
			if !es[len(got)] {
				return fmt.Sprintf("the output of a cancelled run stops inside a blob (%d of %d bytes)", len(got), len(ref))
			}
		}
		return ""
	}
}

// ended judges a run that was left alone.
func ended(x *run.Res) string { return x.Bad() }

func init() {
	vlib.Register("C03.end", func(r *vlib.R) {
		for _, c := range run.Corpus() {
			for _, cmd := range append([]string{"blockcount", "entitycount", "entityfind"}, outCmds...) {
				for _, w := range []int{1, 2, 3, 7, 40} {
					d := fmt.Sprintf("%s on %s with %d workers", cmd, c.Name, w)
					if !run.Mine(r, d) {
						continue
					}
					if r.Late(d) || r.Stop() {
						return
					}
					r.Begin(d)
					e, bad := prepare(r, c.F)
					if bad != "" {
						r.Fail("prepare "+c.Name, bad, "", nil)
						continue
					}
					args := e.args(cmd, w)
					switch cmd {
					case "blockcount", "entitycount":
						args = []string{"-i", e.p("in.pbf"), "-w", fmt.Sprint(w)}
					case "entityfind":
						args = []string{"-i", e.p("in.pbf"), "-w", fmt.Sprint(w), "-e", "5"}
					}
					s := run.Sweep{Threads: w + 3, Last: true}
					if w > 3 {
						s.Bases = []int{0, 1, 2, 3, 8, 9}
					}
					if w == 2 {
						s.Changes, s.Stride = 1, r.Pick(3, 1)
						s.Bases = []int{0, 1}
					}
					run.Prio(r, d, s, e.one(cmd, args), ended)
				}
			}
		}
	})
	cancelOn := func(r *vlib.R, name string, f osmref.File, v variant, w int, fn func(d string, one run.One, ck run.Check)) {
		d := fmt.Sprintf("%v on %s with %d workers", v, name, w)
		if !run.Mine(r, d) || r.Stop() || r.Late(d) {
			return
		}
		r.Begin(d)
		e, bad := prepare(r, f)
		if bad != "" {
			r.Fail("prepare "+name, bad, "", nil)
			return
		}
		ref := e.one(v.cmd, e.args(v.cmd, 1, v.extra...))(run.Opt{})
		if b := ref.Bad(); b != "" {
			r.Fail(d+" reference", b, "", nil)
			return
		}
		fn(d, e.one(v.cmd, e.args(v.cmd, w, v.extra...)), cancelled(v.cmd, ref.Files["out"], false))
	}
	vlib.Register("C03.cancel", func(r *vlib.R) {
		for _, c := range run.Corpus() {
			for _, v := range variants() {
				for _, w := range []int{1, 3} {
					cancelOn(r, c.Name, c.F, v, w, func(d string, one run.One, ck run.Check) {
						s := run.Sweep{Threads: w + 3, Cancel: 1}
						if w > 1 {
							s.Bases, s.Cancel = []int{0, 1, 2, 4, 7, 9}, r.Pick(4, 1)
						} else if !r.Thorough() {
							s.Bases = []int{0, 1, 4, 7}
						}
						run.Prio(r, d, s, one, ck)
					})
				}
			}
		}
	})
	vlib.Register("C03.dfs", func(r *vlib.R) {
		n := r.Pick(2, 3)
		for w := 1; w <= 2; w++ {
			for _, v := range variants() {
				cancelOn(r, fmt.Sprint("multi", n), run.Multi(n, false), v, w, func(d string, one run.One, ck run.Check) {
					run.DFS(r, d, true, 0, one, ck)
				})
			}
		}
	})
	// rewritenodes in several passes: an index of more than 1 MB of locations
	vlib.Register("C03.passes", func(r *vlib.R) {
		f, _ := bigIndex(262144 + 5)
		for _, w := range []int{1, 2} {
			for _, m := range []string{"1", "2", "4"} {
				d := fmt.Sprintf("rewritenodes -m %s on a big index with %d workers", m, w)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				r.Begin(d)
				e, bad := prepare(r, f)
				if bad != "" {
					r.Fail("prepare big index", bad, "", nil)
					return
				}
				e.in = smallOver(262144 + 5).Encode()
				e.rw, e.wix = "", ""
				ref := e.one("rewritenodes", e.args("rewritenodes", 1))(run.Opt{})
				if b := ref.Bad(); b != "" {
					r.Fail(d+" reference", b, "", nil)
					return
				}
				run.Prio(r, d, run.Sweep{Bases: run.Bases(r.Pick(2, 5)), Cancel: r.Pick(2, 1)}, e.one("rewritenodes", e.args("rewritenodes", w, "-m", m)), cancelled("rewritenodes", ref.Files["out"], true))
			}
		}
	})
}

// bigIndex is a file of n nodes, ids 1..n, so that its index needs 8n bytes of locations.
func bigIndex(n int) (osmref.File, map[int64]int64) {
	f := osmref.File{}
	m := map[int64]int64{}
	var g osmref.Group
	g.NoKV = true
	for i := 1; i <= n; i++ {
		lat, lon := int64(i%1000000)*7-3000000, int64(i%999983)*11-5000000
		g.Nodes = append(g.Nodes, osmref.Node{ID: int64(i), Lat: lat, Lon: lon})
		m[int64(i)] = osmref.Loc(lat*100, lon*100)
		if len(g.Nodes) == 60000 || i == n {
			f = append(f, run.Data(g))
			g = osmref.Group{NoKV: true}
		}
	}
	return f, m
}

// smallOver is a small file whose ways use ids all over 1..n.
func smallOver(n int) osmref.File {
	f := osmref.File{run.Header("h")}
	for k := 0; k < 3; k++ {
		var ws []osmref.Way
		for i := 0; i < 4; i++ {
			w := osmref.Way{ID: int64(10*k + i + 1)}
			for j := 0; j < 9; j++ {
				w.Refs = append(w.Refs, int64(1+(n-1)*j/8), int64(1+(n*(j+1)/9+k*131+i)%n))
			}
			w.Refs = append(w.Refs, int64(n+1+k))
			ws = append(ws, w)
		}
		f = append(f, run.Data(osmref.Group{Ways: ws}))
	}
	return f
}
