// Package cli runs the real commands on enumerated inputs and schedules.
package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

func TestZZ(t *testing.T) {
	run.TB = t
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
	if zzs.Race {
		os.Exit(0) // a race has failed the test
	}
}

// files of a prepared directory
type env struct {
	r   *vlib.R
	dir string
	in  []byte // the PBF
	f   osmref.File
	nix string // the node index
	rw  string // the PBF with locations
	wix string // the way index
}

func (e *env) p(n string) string { return filepath.Join(e.dir, n) }

// prepare builds the indexes of a file with the real commands.
func prepare(r *vlib.R, f osmref.File) (*env, string) {
	e := &env{r: r, dir: filepath.Join(r.Scratch, "d"), f: f, in: f.Encode()}
	run.Fresh(e.dir, map[string][]byte{"in.pbf": e.in})
	var bad string
	if e.nix, bad = run.Quiet(r, e.dir, "n.idx", "nodeindex", "-i", e.p("in.pbf"), "-o", e.p("n.idx"), "-w", "1"); bad != "" {
		return nil, bad
	}
	if e.rw, bad = run.Quiet(r, e.dir, "rw.pbf", "rewritenodes", "-i", e.p("in.pbf"), "-x", e.p("n.idx"), "-o", e.p("rw.pbf"), "-w", "1"); bad != "" {
		return nil, bad
	}
	if e.wix, bad = run.Quiet(r, e.dir, "w.idx", "wayindex", "-i", e.p("rw.pbf"), "-o", e.p("w.idx"), "-w", "1"); bad != "" {
		return nil, bad
	}
	return e, ""
}

func (e *env) fresh() {
	run.Fresh(e.dir, map[string][]byte{"in.pbf": e.in, "n.idx": []byte(e.nix), "rw.pbf": []byte(e.rw), "w.idx": []byte(e.wix)})
}

var outCmds = []string{"decompress", "tagfilter", "nodeindex", "rewritenodes", "wayindex", "relindex"}

// args of a command that writes out.
func (e *env) args(cmd string, workers int, extra ...string) []string {
	in := "in.pbf"
	if cmd == "wayindex" {
		in = "rw.pbf"
	}
	a := []string{"-i", e.p(in), "-w", fmt.Sprint(workers)}
	for _, c := range outCmds {
		if c == cmd {
			a = append(a, "-o", e.p("out"))
		}
	}
	switch cmd {
	case "rewritenodes":
		a = append(a, "-x", e.p("n.idx"))
	case "relindex":
		a = append(a, "-x", e.p("w.idx"))
	}
	return append(a, extra...)
}

// one is the case of running cmd.
func (e *env) one(cmd string, args []string) run.One {
	return func(o run.Opt) *run.Res {
		e.fresh()
		return run.Cmd(e.r, e.dir, o, cmd, args...)
	}
}
