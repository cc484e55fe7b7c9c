package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// meter watches what a run holds, at every operation on a file.
type meter struct {
	dir, out string
	had      map[string]bool
	kept     []string // links to the temporary files, in the order in which they came up
	seen     map[uint64]bool
	tmp      int // the most temporary files at once
	fds      int // open files of the directory
	maps     int // mappings of them
	threads  int
	looks    int
	at       string
}

func newMeter(r *vlib.R, dir, out string) *meter {
	m := &meter{dir: dir, out: out, had: map[string]bool{}, seen: map[uint64]bool{}}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		m.had[e.Name()] = true
	}
	run.Fresh(m.keep(), nil)
	return m
}

func (m *meter) keep() string { return m.dir + ".kept" }

func (m *meter) look() {
	m.looks++
	m.threads = max(m.threads, zzs.Live())
	f, err := os.Open(m.dir)
	if err != nil {
		return
	}
	names, _ := f.Readdirnames(-1)
	f.Close()
	sort.Strings(names)
	var tmp []string
	for _, n := range names {
		if m.had[n] || n == m.out {
			continue
		}
		tmp = append(tmp, n)
		fi, err := os.Stat(filepath.Join(m.dir, n))
		if err != nil {
			continue
		}
		if st, ok := fi.Sys().(*syscall.Stat_t); ok && !m.seen[st.Ino] {
			k := filepath.Join(m.keep(), fmt.Sprint(len(m.kept)))
			if os.Link(filepath.Join(m.dir, n), k) == nil {
				m.seen[st.Ino] = true
				m.kept = append(m.kept, k)
			}
		}
	}
	if len(tmp) > m.tmp {
		m.tmp, m.at = len(tmp), strings.Join(tmp, " ")
	}
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, m.dir+"/") {
			n++
		}
	}
	m.fds = max(m.fds, n)
	b, _ := os.ReadFile("/proc/self/maps")
	m.maps = max(m.maps, strings.Count(string(b), " "+m.dir+"/"))
}

// over says what there was too much of.
func (m *meter) over(workers int) string {
	switch {
	case m.tmp > 2:
		return fmt.Sprintf("%d temporary files at once: %s", m.tmp, m.at)
	case m.fds > 7+workers:
		return fmt.Sprintf("%d open files at once", m.fds)
	case m.maps > 4+workers:
		return fmt.Sprintf("%d mappings at once", m.maps)
	case m.threads > 12+4*workers:
		return fmt.Sprintf("%d threads at once", m.threads)
	}
	return ""
}

// sizes of the temporary files, in the order in which they came up, and of the output.
func (m *meter) stages(out string) (s []string, ok bool) {
	for _, k := range m.kept {
		b, err := os.ReadFile(k)
		if err != nil {
			return nil, false
		}
		s = append(s, string(b))
	}
	return append(s, out), true
}

// metered is the directory of one run: no other run has had it.
var metered int

func fresh(r *vlib.R, files map[string][]byte) string {
	if metered > 0 {
		old := fmt.Sprintf("%s/m%d", r.Scratch, metered)
		_ = os.RemoveAll(old)
		_ = os.RemoveAll(old + ".kept")
	}
	metered++
	d := fmt.Sprintf("%s/m%d", r.Scratch, metered)
	run.Fresh(d, files)
	return d
}

// resolved counts the refs of a file that are locations.
func resolved(s string) (n int, ok bool) {
	bs, err := osmref.Parse([]byte(s))
	if err != nil {
		return 0, false
	}
	for _, b := range bs {
		for _, w := range b.Ways {
			for _, x := range w.Refs {
				if x < 0 {
					n++
				}
			}
		}
	}
	return n, true
}

func init() {
	// the memory target bounds what a pass looks up
	vlib.Register("C33.memory", func(r *vlib.R) {
		const mb = 131072 // locations in a megabyte
		sizes := []int{1000, mb - 1, mb, mb + 1, 2*mb - 1, 2 * mb, 2*mb + 1, 3*mb + 7, 5*mb - 3}
		if r.Thorough() {
			sizes = append(sizes, 1, 4*mb, 6*mb+1, 7*mb-1, 8*mb+3, 12*mb)
		}
		for _, n := range sizes {
			for _, long := range []int{1, 977, 40000} { // ids in a row
				d := fmt.Sprintf("index of %d nodes, %d in a row", n, long)
				if !run.Mine(r, d) || r.Stop() || r.Late("C33.memory") {
					continue
				}
				f := osmref.File{run.Header("h")}
				rw := osmref.File{run.Header("h")}
				g := osmref.Group{NoKV: true}
				var refs []int64
				var ws []osmref.Way
				id := int64(1)
				for i := 0; i < n; i++ {
					g.Nodes = append(g.Nodes, osmref.Node{ID: id, Lat: int64(i) - 500, Lon: 1000 - 3*int64(i)})
					refs = append(refs, id)
					id++
					if i%long == long-1 {
						id += 3
					}
					last := i+1 == n
					if len(g.Nodes) == 50000 || last {
						f = append(f, run.Data(g))
						g = osmref.Group{NoKV: true}
					}
					if len(refs) == 1900 || last {
						ws = append(ws, osmref.Way{ID: int64(len(ws)*7 + len(rw)), Refs: refs})
						refs = nil
					}
					if len(ws) == 30 || last {
						rw = append(rw, run.Data(osmref.Group{Ways: ws}))
						ws = nil
					}
				}
				r.Begin(d)
				nix, _, bad := buildNodes(r, r.Scratch+"/d", f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					continue
				}
				for _, m := range []int{0, 1, 2, 3, 1000} {
					dd := fmt.Sprintf("%s, target %d MB", d, m)
					r.Begin(dd)
					dir := fresh(r, map[string][]byte{"in.pbf": rw.Encode(), "n.idx": []byte(nix)})
					mt := newMeter(r, dir, "out")
					args := []string{"-i", dir + "/in.pbf", "-x", dir + "/n.idx", "-o", dir + "/out", "-w", "2"}
					if m > 0 {
						args = append(args, "-m", fmt.Sprint(m))
					}
					x := run.Cmd(r, dir, run.Opt{Gentle: true, OnIO: mt.look, OnMain: mt.look}, "rewritenodes", args...)
					if b := x.Bad(); b != "" {
						r.Fail(dd, b, x.Stack, nil)
						continue
					}
					if b := mt.over(2); b != "" {
						r.Fail(dd, b, "", nil)
						continue
					}
					stages, ok := mt.stages(x.Files["out"])
					var counts []int
					for _, s := range stages {
						c, ok1 := resolved(s)
						ok = ok && ok1
						counts = append(counts, c)
					}
					if !ok {
						r.Count("temporary files nobody but the command can read", 1)
						continue
					}
					sort.Ints(counts)
					if counts[len(counts)-1] != n {
						r.Fail(dd, fmt.Sprintf("%d of %d nodes are found", counts[len(counts)-1], n), "", nil)
						continue
					}
					if m == 0 {
						m = 1 << 30
					}
					need := (n + m*mb - 1) / (m * mb)
					if len(counts) > need+1 {
						r.Fail(dd, fmt.Sprintf("%d passes where %d would do", len(counts), need), "", nil)
						continue
					}
					was := 0
					for i, c := range counts {
						// a row of ids is never divided
						if c-was > m*mb+long+len(counts) {
							r.Fail(dd, fmt.Sprintf("pass %d of %d looks up %d locations, %d bytes", i, len(counts), c-was, 8*(c-was)), "", nil)
							break
						}
						was = c
					}
					r.Count("passes", len(counts))
					r.Nontrivial(dd)
				}
			}
		}
	})
	// so does the number of passes of relindex
	vlib.Register("C33.share", func(r *vlib.R) {
		lens := []int{1, 5, 40}
		counts := []int{1, 2, 3, 4, 7, 12, 31}
		for _, ways := range []int{0, 1, 2, 3, 7, 24, 100, 333} {
			for kind := 0; kind < 7; kind++ {
				for _, al := range []int{0, 3, 6} {
					d := fmt.Sprintf("%d ways, kind %d, alignment %d", ways, kind, al)
					if !run.Mine(r, d) || r.Stop() || r.Late("C33.share") {
						continue
					}
					r.Begin(d)
					var g, rg osmref.Group
					total, most := 0, 0
					for i := 0; i < ways; i++ {
						w := osmref.Way{ID: int64(3*i + 1)}
						k := 0
						switch kind {
						case 0, 1, 2:
							k = lens[kind]
						case 3:
							k = lens[i%3]
						case 4:
							k = 1 + 30*i/ways
						case 5, 6:
							k = 1
							if (kind == 5) == (i < ways/10) && (kind == 5 || i >= ways-ways/10) {
								k = 40
							}
						}
						// back and forth between two places: every further ref takes one byte
						k *= 40
						for j := 0; j < k; j++ {
							w.Refs = append(w.Refs, -1<<62-int64(i+j%2))
						}
						total += k
						most = max(most, k)
						g.Ways = append(g.Ways, w)
						rg.Rels = append(rg.Rels, osmref.Rel{ID: int64(i + 1), Members: []osmref.Member{{Type: 1, ID: int64(3*((i*7)%ways) + 1)}}})
					}
					if ways%7 == 0 {
						for i := range rg.Rels {
							rg.Rels[i].Members[0].ID = int64(3*i + 1)
						}
					}
					wf := osmref.File{run.Header("h")}
					if ways > 0 {
						wf = append(wf, run.Data(g))
					}
					wix, bad := buildWays(r, r.Scratch+"/d", wf, al)
					if bad != "" {
						r.Fail(d, bad, "", nil)
						continue
					}
					rf := osmref.File{run.Header("h"), run.Data(rg)}
					for _, p := range counts {
						dd := fmt.Sprintf("%s, %d passes", d, p)
						r.Begin(dd)
						dir := fresh(r, map[string][]byte{"in.pbf": rf.Encode(), "w.idx": []byte(wix)})
						mt := newMeter(r, dir, "out")
						x := run.Cmd(r, dir, run.Opt{Gentle: true, OnIO: mt.look, OnMain: mt.look}, "relindex", "-i", dir+"/in.pbf", "-x", dir+"/w.idx", "-o", dir+"/out", "-w", "2", "-p", fmt.Sprint(p))
						if b := x.Bad(); b != "" {
							r.Fail(dd, b, x.Stack, nil)
							continue
						}
						if b := mt.over(2); b != "" {
							r.Fail(dd, b, "", nil)
							continue
						}
						stages, ok := mt.stages(x.Files["out"])
						var sz []int
						for _, s := range stages {
							sz = append(sz, len(s))
						}
						sort.Ints(sz)
						if !ok || len(sz) < 2 || sz[len(sz)-1] != len(x.Files["out"]) {
							r.Count("temporary files nobody but the command can read", 1)
							continue
						}
						if sz[len(sz)-1]-sz[0] != 8*(total+ways) {
							r.Count("temporary files of a size only the command knows", 1)
							continue
						}
						for i := 1; i < len(sz); i++ {
							// what a pass has found it has put into the file
							if got, share := (sz[i]-sz[i-1])/8, total/p+total/(3*p)+2*most+2*ways/p+p+4; got > share {
								r.Fail(dd, fmt.Sprintf("pass %d takes %d of %d locations: more than its share", i, got, total), fmt.Sprint(sz), nil)
								break
							}
						}
						r.Count("passes", len(sz)-1)
						r.Nontrivial(dd)
					}
				}
			}
		}
	})
	// what a run holds does not grow with blobs or passes, under any of many schedules
	vlib.Register("C33.held", func(r *vlib.R) {
		defer debug.SetGCPercent(debug.SetGCPercent(800))
		vs := append(variants(), variant{"relindex", []string{"-p", "5"}}, variant{"relindex", []string{"-p", "14"}},
			variant{"entitycount", nil}, variant{"blockcount", nil}, variant{"entityfind", []string{"-e", "3", "-e", "5"}})
		for _, v := range vs {
			for _, n := range []int{1, 6, 40} {
				for _, w := range []int{1, 2, 4} {
					d := fmt.Sprintf("%v on %d blocks with %d workers", v, n, w)
					if !run.Mine(r, d) || r.Stop() || r.Late(d) {
						continue
					}
					r.Begin(d)
					e, bad := prepare(r, sized(n, 3, 1, 20))
					if bad != "" {
						r.Fail("prepare", bad, "", nil)
						return
					}
					var mt *meter
					old := e.dir
					one := func(o run.Opt) *run.Res {
						dir := fresh(r, map[string][]byte{"in.pbf": e.in, "n.idx": []byte(e.nix), "rw.pbf": []byte(e.rw), "w.idx": []byte(e.wix)})
						e.dir = dir
						mt = newMeter(r, dir, "out")
						o.OnIO, o.OnMain, o.NoFiles = mt.look, mt.look, true
						return run.Cmd(r, dir, o, v.cmd, e.args(v.cmd, w, v.extra...)...)
					}
					check := func(x *run.Res) string {
						if b := x.Bad(); b != "" {
							return b
						}
						if mt.looks < 3 {
							panic("nothing is seen of the files of " + d)
						}
						return mt.over(w)
					}
					points := r.Pick(6, 40)
					if n == 40 {
						points = r.Pick(1, 8)
					}
					if !run.Prio(r, d, run.Sweep{Bases: run.Bases(w + 4), Last: r.Thorough(), Changes: 1, Points: points, IO: true}, one, check) {
						return
					}
					e.dir = old
				}
			}
		}
	})
	// many passes over a node index too large for one
	vlib.Register("C33.passes", func(r *vlib.R) {
		const mb = 131072
		n := r.Pick(9, 20)*mb + 5
		for _, w := range []int{1, 2, 3, 5} {
			d := fmt.Sprintf("rewritenodes, target 1 MB, index of %d nodes, %d workers", n, w)
			if !run.Mine(r, d) || r.Stop() || r.Late(d) {
				continue
			}
			r.Begin(d)
			f, _ := bigIndex(n)
			nix, _, bad := buildNodes(r, r.Scratch+"/d", f)
			if bad != "" {
				r.Fail(d, bad, "", nil)
				return
			}
			small := smallOver(n).Encode()
			var mt *meter
			one := func(o run.Opt) *run.Res {
				dir := fresh(r, map[string][]byte{"in.pbf": small, "n.idx": []byte(nix)})
				mt = newMeter(r, dir, "out")
				o.OnIO, o.OnMain, o.NoFiles = mt.look, mt.look, true
				return run.Cmd(r, dir, o, "rewritenodes", "-i", dir+"/in.pbf", "-x", dir+"/n.idx", "-o", dir+"/out", "-w", fmt.Sprint(w), "-m", "1")
			}
			check := func(x *run.Res) string {
				if b := x.Bad(); b != "" {
					return b
				}
				return mt.over(w)
			}
			if !run.Prio(r, d, run.Sweep{Bases: run.Bases(r.Pick(2, w+4)), Changes: 1, Points: r.Pick(5, 20), IO: true}, one, check) {
				return
			}
		}
	})
}
