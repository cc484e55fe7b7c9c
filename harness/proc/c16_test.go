package proc

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"zz.local/zz/vlib"
)

// record runs a job without a fault and says what it writes.
func record(r *vlib.R, j *job, dir string) (writes, bytes, creates int, want []byte, err error) {
	j.fresh(dir, nil)
	log := dir + ".log"
	_ = os.Remove(log)
	e := exe("fault", j.cmd, []string{"ZZ_FAULT=log", "ZZ_FAULTLOG=" + log}, j.argv(dir)...)
	if e.code != 0 || e.hung {
		return 0, 0, 0, nil, fmt.Errorf("without a fault: %v: %s", e, first(e.errout))
	}
	b, _ := os.ReadFile(log)
	for _, l := range strings.Split(string(b), "\n") {
		n := 0
		if c, _ := fmt.Sscanf(l, "w %d", &n); c == 1 {
			writes++
			bytes += n
		} else if l == "c" {
			creates++
		}
	}
	want, err = os.ReadFile(filepath.Join(dir, "out"))
	return
}

// fault runs a job with a fault.
func fault(j *job, dir, f string) (e ended, hit bool) {
	j.fresh(dir, nil)
	log := dir + ".log"
	_ = os.Remove(log)
	e = exe("fault", j.cmd, []string{"ZZ_FAULT=" + f, "ZZ_FAULTLOG=" + log}, j.argv(dir)...)
	b, _ := os.ReadFile(log)
	return e, strings.Contains("\n"+string(b), "\nf\n")
}

// judge decides one faulty run.
func judge(r *vlib.R, d string, j *job, dir, f string, want []byte) bool {
	e, hit := fault(j, dir, f)
	r.Count("faulty runs", 1)
	if hit {
		r.Count("faults hit", 1)
		r.Nontrivial(d)
	}
	switch {
	case e.hung:
		r.Fail(d, "the run does not end", "", nil)
		return false
	case e.code != 0:
		return true
	case hit && !strings.HasPrefix(f, "create"):
		r.Fail(d, "exit status 0 although a write failed", e.errout, nil)
		return false
	}
	got, err := os.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		r.Fail(d, "exit status 0 without an output: "+err.Error(), "", nil)
		return false
	}
	if string(got) != string(want) {
		r.Fail(d, fmt.Sprintf("exit status 0 with an incomplete output: %d of %d bytes", len(got), len(want)), "", nil)
		return false
	}
	return true
}

func writeFaults(r *vlib.R, dir string, j *job, everyByte bool) {
	var w, b, c int
	var want []byte
	ready := false
	start := func() bool {
		if ready {
			return w > 0
		}
		ready = true
		var err error
		if w, b, c, want, err = record(r, j, dir); err != nil {
			r.Begin(j.name)
			r.Fail(j.name, err.Error(), "", nil)
		}
		return w > 0
	}
	for _, k := range []string{"enospc", "eio", "short", "full", "create", "bytes"} {
		if k == "bytes" && !everyByte {
			continue
		}
		d := j.name + ": " + k
		if !mine(r, d) || r.Stop() || !start() {
			continue
		}
		n := map[string]int{"create": c, "bytes": b - 1}[k]
		if n == 0 && k != "create" {
			n = w
		}
		lo := 1
		if k == "bytes" {
			lo = 0
		}
		for i := lo; i <= n && !r.Stop(); i++ {
			if r.Late("write faults") {
				return
			}
			cs := fmt.Sprintf("%s / %d", d, i)
			if r.Replay != "" && strings.Contains(r.Replay, " / ") && r.Replay != cs {
				continue
			}
			r.Begin(cs)
			judge(r, cs, j, dir, fmt.Sprintf("%s:%d", k, i), want)
		}
	}
}

func init() {
	vlib.Register("C16.writes", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		names := []string{"mixed", "oneblock", "many blocks", "granularity", "headers between"}
		if r.Thorough() {
			names = []string{"*"}
		}
		for _, s := range sets(r, dir, names...) {
			for _, w := range []int{1, 3} {
				for _, j := range s.jobs(w) {
					writeFaults(r, dir, j, w == 1 && (r.Thorough() || s.name == "mixed"))
				}
			}
		}
	})
	vlib.Register("C16.big", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		s, err := bigSet(dir)
		if err != nil {
			r.Begin("big")
			r.Fail("big", "harness: "+err.Error(), "", nil)
			return
		}
		for _, j := range s.bigJobs() {
			writeFaults(r, dir, j, false)
		}
	})
	// the output cannot be created
	vlib.Register("C16.create", func(r *vlib.R) {
		dir := r.Scratch + "/d"
		for _, s := range sets(r, dir, "mixed", "headeronly", "relsonly") {
			for _, j := range s.jobs(2) {
				for _, k := range []string{"no directory", "a directory", "a full directory", "below a file", "an empty name"} {
					d := j.name + ": the output is " + k
					if !mine(r, d) || r.Stop() {
						continue
					}
					r.Begin(d)
					j.fresh(dir, nil)
					jj := *j
					jj.args = append([]string(nil), j.args...)
					switch k {
					case "no directory":
						jj.args[1] = "%/none/out"
					case "a directory":
						_ = os.Mkdir(dir+"/out", 0o755)
					case "a full directory":
						_ = os.Mkdir(dir+"/out", 0o755)
						vlib.MustWrite(dir+"/out/x", []byte("x"))
					case "below a file":
						jj.args[1] = "%/in/out"
					case "an empty name":
						jj.args[1] = ""
					}
					e := exe("plain", jj.cmd, nil, jj.argv(dir)...)
					r.Nontrivial(d)
					if e.hung || e.code == 0 {
						r.Fail(d, fmt.Sprint(e, " although the output cannot be created"), e.errout, nil)
					}
				}
			}
		}
	})
}
