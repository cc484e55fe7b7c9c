package proc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
)

// result of a command: what it leaves in out, or prints.
func result(j *job, dir string, e ended) string {
	b, err := os.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		return e.out
	}
	return string(b)
}

// readers are the commands that only print, reading a PBF.
func (s *set) printers() []*job {
	pbf := map[string][]byte{"in": s.in}
	return []*job{
		{name: "blockcount of " + s.name, cmd: "blockcount", in: pbf, args: []string{"-i", "%/in", "-w", "1"}},
		{name: "entitycount of " + s.name, cmd: "entitycount", in: pbf, args: []string{"-i", "%/in", "-w", "1"}},
		{name: "entityfind in " + s.name, cmd: "entityfind", in: pbf, args: []string{"-i", "%/in", "-w", "1", "-e", "1", "-e", "4", "-e", "2", "-e", "300"}},
	}
}

// lookups are the commands that read a node index or a way index.
func (s *set) lookups() []*job {
	nix, wix := map[string][]byte{"n": s.nix}, map[string][]byte{"w": s.wix}
	js := []*job{
		{name: "rewritenodes of " + s.name, cmd: "rewritenodes", in: map[string][]byte{"in": s.in, "n": s.nix}, args: []string{"-o", "%/out", "-i", "%/in", "-w", "1", "-x", "%/n"}},
		{name: "dumpnodeindex -p of " + s.name, cmd: "dumpnodeindex", in: nix, args: []string{"-i", "%/n", "-p"}},
		{name: "dumpnodeindex -s of " + s.name, cmd: "dumpnodeindex", in: nix, args: []string{"-i", "%/n", "-s"}},
		{name: "dumpwayindex -p of " + s.name, cmd: "dumpwayindex", in: wix, args: []string{"-i", "%/w", "-p"}},
		{name: "dumpwayindex -s of " + s.name, cmd: "dumpwayindex", in: wix, args: []string{"-i", "%/w", "-s"}},
	}
	for _, p := range []string{"1", "2"} {
		js = append(js, &job{name: "relindex -p " + p + " of " + s.name, cmd: "relindex", in: map[string][]byte{"in": s.in, "w": s.wix}, args: []string{"-o", "%/out", "-i", "%/in", "-w", "1", "-x", "%/w", "-p", p}})
	}
	return js
}

// cut runs j with the file which cut off at each of the places.
func cut(r *vlib.R, dir string, j *job, which string, places []int, free map[int]bool) {
	whole := j.in[which]
	want, ready := "", false
	for i, at := range places {
		// consecutive places go to different shards
		d := fmt.Sprintf("%s, %s cut to %d of %d bytes", j.name, which, at, len(whole))
		if !mine(r, d) || r.Stop() {
			continue
		}
		if r.Late("C17") {
			return
		}
		if !ready {
			ready = true
			j.fresh(dir, nil)
			e := exe("plain", j.cmd, nil, j.argv(dir)...)
			if e.code != 0 || e.hung {
				r.Begin(j.name)
				r.Fail(j.name, fmt.Sprintf("on the complete input: %v: %s", e, first(e.errout)), "", nil)
				return
			}
			want = result(j, dir, e)
		}
		_ = i
		r.Begin(d)
		j.fresh(dir, map[string][]byte{which: whole[:at]})
		e := exe("plain", j.cmd, nil, j.argv(dir)...)
		r.Nontrivial(d)
		if e.hung {
			r.Fail(d, "the run does not end", "", nil)
			continue
		}
		if e.code != 0 {
			r.Count("refused", 1)
			continue
		}
		if free[at] {
			r.Count("cut between two blobs", 1)
			continue
		}
		if got := result(j, dir, e); got != want {
			r.Fail(d, fmt.Sprintf("exit status 0, and the output is not that of the complete input (%d against %d bytes)", len(got), len(want)), diffText(got, want), nil)
			continue
		}
		r.Count("complete output", 1)
	}
}

func diffText(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	f := func(s string) string {
		lo, hi := i-30, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return fmt.Sprintf("%q", s[lo:hi])
	}
	return fmt.Sprintf("they differ at %d: %s against %s", i, f(a), f(b))
}

func upto(n int) []int {
	var p []int
	for i := 0; i < n; i++ {
		p = append(p, i)
	}
	return p
}

// around is every place of a small file, and of a large one the places near its
// ends and around every boundary of 4096 bytes.
func around(n int, marks ...int) []int {
	if n <= 20000 {
		return upto(n)
	}
	var p []int
	m := map[int]bool{}
	put := func(lo, hi int) {
		for i := lo; i <= hi; i++ {
			if i >= 0 && i < n && !m[i] {
				m[i] = true
				p = append(p, i)
			}
		}
	}
	put(0, 40)
	for _, x := range marks {
		put(x-20, x+20)
	}
	for x := 1 << 18; x < n; x += 1 << 18 {
		put(x-2, x+2)
	}
	put(n-40, n)
	return p
}

func ends(f osmref.File) map[int]bool {
	m := map[int]bool{}
	for _, e := range f.Ends() {
		m[e] = true
	}
	delete(m, len(f.Encode()))
	return m
}

func init() {
	vlib.Register("C17.pbf", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		names := []string{"mixed", "oneblock", "headers between"}
		if r.Thorough() {
			names = []string{"*"}
		}
		for _, s := range sets(r, dir, names...) {
			for _, j := range s.jobs(1) {
				if strings.Contains(j.name, "-p 3") {
					continue
				}
				f := ends(s.f)
				if j.cmd == "wayindex" {
					f = map[int]bool{}
					bs, err := osmref.ParseBlobs(s.rw)
					if err != nil {
						r.Begin(s.name)
						r.Fail(s.name, "harness: "+err.Error(), "", nil)
						continue
					}
					at := 0
					for _, b := range bs {
						at += len(b.Framed)
						f[at] = true
					}
					delete(f, at)
				}
				cut(r, dir, j, "in", upto(len(j.in["in"])), f)
			}
			for _, j := range s.printers() {
				cut(r, dir, j, "in", upto(len(s.in)), ends(s.f))
			}
		}
	})
	vlib.Register("C17.indexes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		names := []string{"mixed", "granularity", "nodesonly", "headeronly", "waysonly"}
		if r.Thorough() {
			names = []string{"*"}
		}
		for _, s := range sets(r, dir, names...) {
			for _, j := range s.lookups() {
				for _, which := range []string{"n", "w"} {
					if b, ok := j.in[which]; ok {
						cut(r, dir, j, which, upto(len(b)), nil)
					}
				}
			}
		}
	})
	vlib.Register("C17.passes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		s, err := bigSet(dir)
		if err != nil {
			r.Begin("big")
			r.Fail("big", "harness: "+err.Error(), "", nil)
			return
		}
		for _, j := range s.bigJobs() {
			if j.cmd == "rewritenodes" {
				cut(r, dir, j, "n", around(len(s.nix), 16, 16+16*5), nil)
				cut(r, dir, j, "in", upto(len(s.in)), ends(s.f))
			}
		}
	})
}
