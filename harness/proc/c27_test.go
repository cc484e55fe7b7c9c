package proc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"zz.local/zz/corpus"
	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
)

// dirText is what a directory holds.
func dirText(dir string) string {
	m := vlib.Dir(dir)
	s := ""
	for _, n := range vlib.Names(m) {
		s += fmt.Sprintf("%s:%d:%x;", n, len(m[n]), vlib.Hash(m[n]))
	}
	return s
}

// build27 interrupts one build of a node index in every way of one kind.
func build27(r *vlib.R, dir string, j *job, kinds []string, probe []byte, stale []byte, step int) {
	var writes, total, creates int
	var want []byte
	ready := false
	var small []byte
	refused := map[string]string{} // by the content of the file: "" or what accepted it
	rebuilt := map[string]bool{}
	start := func() bool {
		if !ready {
			ready = true
			var err error
			if writes, total, creates, want, err = record(r, j, dir); err != nil {
				r.Begin(j.name)
				r.Fail(j.name, err.Error(), "", nil)
			}
		}
		return writes > 0
	}
	more := map[string][]byte{}
	for _, k := range kinds {
		d := j.name + ": " + k
		if !mine(r, d) || r.Stop() || !start() {
			continue
		}
		lo, n := 1, writes
		switch k {
		case "killbytes", "bytes":
			lo, n = 0, total-1
		case "create":
			n = creates
		}
		st := 1
		if k == "killbytes" || k == "bytes" {
			st = step
		}
		for i := lo; i <= n && !r.Stop(); i += st {
			if r.Late("C27") {
				return
			}
			cs := fmt.Sprintf("%s / %d", d, i)
			if r.Replay != "" && strings.Contains(r.Replay, " / ") && r.Replay != cs {
				continue
			}
			r.Begin(cs)
			j.fresh(dir, more)
			if stale != nil {
				vlib.MustWrite(dir+"/out", stale)
			}
			e := exe("fault", j.cmd, []string{fmt.Sprintf("ZZ_FAULT=%s:%d", k, i)}, j.argv(dir)...)
			if e.code == 0 || e.hung {
				r.Fail(cs, "the interrupted build: "+e.String(), "", nil)
				continue
			}
			r.Nontrivial(cs)
			got, err := os.ReadFile(filepath.Join(dir, "out"))
			state := dirText(dir)
			if err == nil && string(got) != string(want) && (stale == nil || string(got) != string(stale)) {
				key := string(got)
				acc, ok := refused[key]
				if !ok {
					acc = accepted(dir+".r", got, probe)
					refused[key] = acc
					r.Count("distinct leftovers", 1)
				}
				if acc != "" {
					r.Fail(cs, fmt.Sprintf("the unfinished index (%d of %d bytes) is accepted by %s", len(got), len(want), acc), fmt.Sprintf("% x", head(got, 64)), nil)
					continue
				}
			}
			// a later complete build
			if rebuilt[state] {
				continue
			}
			rebuilt[state] = true
			// a later complete build of something smaller, with what is left around
			left0 := map[string][]byte{}
			for nm, b := range vlib.Dir(dir) {
				left0[nm] = []byte(b)
			}
			left0["in"] = probe
			if small == nil {
				fresh(dir+".s", map[string][]byte{"in": probe})
				if e := exe("plain", j.cmd, nil, j.argv(dir+".s")...); e.code == 0 && !e.hung {
					small, _ = os.ReadFile(filepath.Join(dir+".s", "out"))
				}
			}
			fresh(dir+".s", left0)
			e = exe("plain", j.cmd, nil, j.argv(dir+".s")...)
			if got, _ := os.ReadFile(filepath.Join(dir+".s", "out")); e.code != 0 || e.hung || len(small) == 0 || string(got) != string(small) {
				r.Fail(cs, fmt.Sprintf("a build of another file after it: %v, an index of %d bytes, not the %d of the complete index", e, len(got), len(small)), "", nil)
				continue
			}
			e = exe("plain", j.cmd, nil, j.argv(dir)...)
			if e.code != 0 || e.hung {
				r.Fail(cs, fmt.Sprintf("a build after it: %v: %s", e, first(e.errout)), "", nil)
				continue
			}
			again, _ := os.ReadFile(filepath.Join(dir, "out"))
			if string(again) != string(want) {
				r.Fail(cs, fmt.Sprintf("a build after it gives %d bytes, not the %d of the complete index", len(again), len(want)), "", nil)
				continue
			}
			left := []string{}
			for _, nm := range vlib.Names(vlib.Dir(dir)) {
				if _, ok := j.in[nm]; !ok && nm != "out" {
					left = append(left, nm)
				}
			}
			if len(left) > 0 {
				r.Fail(cs, "a build after it leaves "+strings.Join(left, " "), "", nil)
			}
			r.Count("rebuilt", 1)
		}
	}
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// accepted names a command that opens the index without complaint.
func accepted(dir string, ix, pbf []byte) string {
	for _, c := range [][]string{
		{"dumpnodeindex", "-i", dir + "/n", "-p"}, {"dumpnodeindex", "-i", dir + "/n", "-s"}, {"dumpnodeindex", "-i", dir + "/n"},
		{"rewritenodes", "-i", dir + "/in", "-x", dir + "/n", "-o", dir + "/out", "-w", "1"},
		{"rewritenodes", "-i", dir + "/in", "-x", dir + "/n", "-o", dir + "/out", "-w", "2", "-m", "1"},
	} {
		fresh(dir, map[string][]byte{"n": ix, "in": pbf})
		e := exe("plain", c[0], nil, c[1:]...)
		if e.hung || e.code == 0 {
			return strings.Join(c[:1], " ")
		}
	}
	return ""
}

func init() {
	kinds := []string{"kill", "killafter", "killmid", "enospc", "eio", "short", "full", "create", "killbytes", "bytes"}
	probe := osmref.File{corpus.Header("h"), corpus.Data(osmref.Group{Nodes: []osmref.Node{corpus.N(1, 2, 3, "a", "b")}})}.Encode()
	node := func(s *set, workers string) *job {
		return &job{name: "nodeindex of " + s.name + ", " + workers + " workers", cmd: "nodeindex", in: map[string][]byte{"in": s.in}, args: []string{"-o", "%/out", "-w", workers, "-i", "%/in"}}
	}
	vlib.Register("C27.kills", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		names := []string{"mixed", "oneblock", "granularity", "headeronly", "relsonly", "empty blocks"}
		if r.Thorough() {
			names = []string{"*"}
		}
		for _, s := range sets(r, dir, names...) {
			stale := append([]byte(nil), s.nix...)
			stale = append(stale, s.nix...)
			for _, old := range [][]byte{nil, stale} {
				for _, w := range []string{"1", "2"} {
					if old != nil && w == "2" {
						continue
					}
					j := node(s, w)
					if old != nil {
						j.name += ", over an old index"
					}
					build27(r, dir, j, kinds, probe, old, 1)
				}
			}
		}
	})
	vlib.Register("C27.big", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		s, err := bigSet(dir)
		if err != nil {
			r.Begin("big")
			r.Fail("big", "harness: "+err.Error(), "", nil)
			return
		}
		j := &job{name: "nodeindex of 300000 nodes", cmd: "nodeindex", in: map[string][]byte{"in": s.rw}, args: []string{"-o", "%/out", "-w", "2", "-i", "%/in"}}
		build27(r, dir, j, kinds[:8], probe, nil, 1)
	})
}
