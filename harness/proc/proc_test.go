// Package proc runs the real command binaries, with faults.
package proc

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"zz.local/zz/corpus"
	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// ended is how a process ended.
type ended struct {
	code   int // -1: by a signal
	sig    string
	hung   bool
	out    string
	errout string
}

func (e ended) String() string {
	switch {
	case e.hung:
		return "does not end"
	case e.code < 0:
		return "ended by " + e.sig
	}
	return fmt.Sprint("exit status ", e.code)
}

type capped struct{ bytes.Buffer }

func (c *capped) Write(p []byte) (int, error) {
	if c.Len() < 1<<20 {
		c.Buffer.Write(p)
	}
	return len(p), nil
}

// exe runs a command of the build kind.
func exe(kind, cmd string, env []string, args ...string) ended {
	switch cmd {
	case "decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex":
		args = append(args, "-r", "0")
	}
	return exeRaw(kind, cmd, 100*time.Second, env, args...)
}

// exeRaw runs it with just these arguments.
func exeRaw(kind, cmd string, limit time.Duration, env []string, args ...string) ended {
	dir := os.Getenv("ZZ_BIN_" + strings.ToUpper(kind))
	if dir == "" {
		panic("no binaries of kind " + kind)
	}
	c := exec.Command(filepath.Join(dir, cmd), args...)
	c.Env = append(append(os.Environ(), "GOTRACEBACK=none"), env...)
	var out, eout capped
	c.Stdout, c.Stderr = &out, &eout
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var e ended
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(limit, func() { e.hung = true; _ = c.Process.Kill() })
	err := c.Wait()
	if !t.Stop() {
		time.Sleep(10 * time.Millisecond)
	}
	e.out, e.errout = out.String(), eout.String()
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		e.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			e.sig = ws.Signal().String()
		}
	}
	return e
}

// job is a command with everything it reads.
type job struct {
	name string
	cmd  string
	in   map[string][]byte // files it needs
	args []string          // %/ stands for the directory
	big  bool
}

func (j *job) argv(dir string) []string {
	var a []string
	for _, x := range j.args {
		a = append(a, strings.ReplaceAll(x, "%/", dir+"/"))
	}
	return a
}

// fresh makes the directory anew with the files of the job.
func (j *job) fresh(dir string, more map[string][]byte) {
	fresh(dir, j.in, more)
}

func fresh(dir string, ms ...map[string][]byte) {
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	for _, m := range ms {
		for n, b := range m {
			vlib.MustWrite(filepath.Join(dir, n), b)
		}
	}
}

// build makes a file with a command; it must succeed.
func build(dir, out, cmd string, in map[string][]byte, args ...string) ([]byte, error) {
	j := &job{cmd: cmd, in: in, args: args}
	j.fresh(dir, nil)
	e := exe("plain", cmd, nil, j.argv(dir)...)
	if e.code != 0 || e.hung {
		return nil, fmt.Errorf("%s: %v: %s", cmd, e, first(e.errout))
	}
	return os.ReadFile(filepath.Join(dir, out))
}

func first(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// set is a PBF file with everything made from it.
type set struct {
	name             string
	f                osmref.File
	in, nix, rw, wix []byte
}

func prepare(dir, name string, f osmref.File) (*set, error) {
	s := &set{name: name, f: f, in: f.Encode()}
	var err error
	if s.nix, err = build(dir, "out", "nodeindex", map[string][]byte{"in": s.in}, "-i", "%/in", "-o", "%/out", "-w", "1"); err != nil {
		return nil, err
	}
	if s.rw, err = build(dir, "out", "rewritenodes", map[string][]byte{"in": s.in, "n": s.nix}, "-i", "%/in", "-x", "%/n", "-o", "%/out", "-w", "1"); err != nil {
		return nil, err
	}
	if s.wix, err = build(dir, "out", "wayindex", map[string][]byte{"in": s.rw}, "-i", "%/in", "-o", "%/out", "-w", "1"); err != nil {
		return nil, err
	}
	return s, nil
}

// jobs are the commands that write a file, on a set.
func (s *set) jobs(workers int) []*job {
	w := fmt.Sprint(workers)
	mk := func(cmd, extra string, in map[string][]byte, args ...string) *job {
		return &job{name: fmt.Sprintf("%s%s of %s, %s workers", cmd, extra, s.name, w), cmd: cmd, in: in, args: append([]string{"-o", "%/out", "-w", w, "-i", "%/in"}, args...)}
	}
	pbf := map[string][]byte{"in": s.in}
	js := []*job{
		mk("decompress", "", pbf), mk("tagfilter", "", pbf), mk("nodeindex", "", pbf),
		mk("rewritenodes", "", map[string][]byte{"in": s.in, "n": s.nix}, "-x", "%/n"),
		mk("wayindex", "", map[string][]byte{"in": s.rw}),
	}
	for _, p := range []string{"1", "2", "3"} {
		js = append(js, mk("relindex", " -p "+p, map[string][]byte{"in": s.in, "w": s.wix}, "-x", "%/w", "-p", p))
	}
	return js
}

// bigSet has a node index of more than two megabytes.
func bigSet(dir string) (*set, error) {
	const n = 300000
	var f osmref.File
	for i := 0; i < n; {
		g := osmref.Group{NoKV: true}
		for k := 0; k < 60000 && i < n; k++ {
			g.Nodes = append(g.Nodes, osmref.Node{ID: int64(i + 1), Lat: int64(i), Lon: -int64(i)})
			i++
		}
		f = append(f, corpus.Data(g))
	}
	nix, err := build(dir, "out", "nodeindex", map[string][]byte{"in": f.Encode()}, "-i", "%/in", "-o", "%/out", "-w", "2")
	if err != nil {
		return nil, err
	}
	small := osmref.File{corpus.Header("h"), corpus.Data(osmref.Group{Ways: []osmref.Way{corpus.W(1, 1, 2, n), corpus.W(2, 140000, 3), corpus.W(5, n+1, 7)}}), corpus.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: []osmref.Member{{Type: 1, ID: 2}}}}})}
	return &set{name: "a big map", f: small, in: small.Encode(), nix: nix, rw: f.Encode()}, nil
}

// bigJobs are runs with several passes and several copying steps.
func (s *set) bigJobs() []*job {
	return []*job{
		{name: "rewritenodes with 3 passes", cmd: "rewritenodes", in: map[string][]byte{"in": s.in, "n": s.nix}, args: []string{"-o", "%/out", "-w", "2", "-i", "%/in", "-x", "%/n", "-m", "1"}, big: true},
		{name: "rewritenodes with 2 passes", cmd: "rewritenodes", in: map[string][]byte{"in": s.in, "n": s.nix}, args: []string{"-o", "%/out", "-w", "1", "-i", "%/in", "-x", "%/n", "-m", "2"}, big: true},
		{name: "nodeindex of 300000 nodes", cmd: "nodeindex", in: map[string][]byte{"in": s.rw}, args: []string{"-o", "%/out", "-w", "2", "-i", "%/in"}, big: true},
	}
}

// mine hands the cases out to the shards.
func mine(r *vlib.R, d string) bool {
	if r.Replay != "" {
		return r.Replay == d || strings.HasPrefix(r.Replay, d+" / ")
	}
	return r.Mine()
}

func sets(r *vlib.R, dir string, names ...string) []*set {
	var out []*set
	for _, c := range corpus.Corpus() {
		for _, n := range names {
			if n == c.Name || n == "*" {
				s, err := prepare(dir, c.Name, c.F)
				if err != nil {
					r.Begin(c.Name)
					r.Fail(c.Name, "harness: "+err.Error(), "", nil)
					continue
				}
				out = append(out, s)
			}
		}
	}
	return out
}
