// Package run executes the real commands in-process, under the controlled
// scheduler, and records what they leave behind.
package run

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"
	"zz.local/zz/vsync"
	"zz.local/zz/zzs"

	blockcount "github.com/squizzling/osmindex/internal/zzv/cmds/blockcount"
	decompress "github.com/squizzling/osmindex/internal/zzv/cmds/decompress"
	dumpnodeindex "github.com/squizzling/osmindex/internal/zzv/cmds/dumpnodeindex"
	dumpwayindex "github.com/squizzling/osmindex/internal/zzv/cmds/dumpwayindex"
	entitycount "github.com/squizzling/osmindex/internal/zzv/cmds/entitycount"
	entityfind "github.com/squizzling/osmindex/internal/zzv/cmds/entityfind"
	nodeindex "github.com/squizzling/osmindex/internal/zzv/cmds/nodeindex"
	relindex "github.com/squizzling/osmindex/internal/zzv/cmds/relindex"
	rewritenodes "github.com/squizzling/osmindex/internal/zzv/cmds/rewritenodes"
	tagfilter "github.com/squizzling/osmindex/internal/zzv/cmds/tagfilter"
	wayindex "github.com/squizzling/osmindex/internal/zzv/cmds/wayindex"

	_ "github.com/squizzling/osmindex/internal/zzv/zzsites"
)

var mains = map[string]func(){
	"blockcount": blockcount.Main, "decompress": decompress.Main, "dumpnodeindex": dumpnodeindex.Main,
	"dumpwayindex": dumpwayindex.Main, "entitycount": entitycount.Main, "entityfind": entityfind.Main,
	"nodeindex": nodeindex.Main, "relindex": relindex.Main, "rewritenodes": rewritenodes.Main,
	"tagfilter": tagfilter.Main, "wayindex": wayindex.Main,
}

// NoUI says whether a command has the option that turns its display off.
func NoUI(cmd string) bool {
	switch cmd {
	case "decompress", "nodeindex", "relindex", "rewritenodes", "tagfilter", "wayindex":
		return true
	}
	return false
}

// TB is the test everything runs in.
var TB *testing.T

// Res is what one run did.
type Res struct {
	zzs.Outcome
	Stdout string
	Files  map[string]string // the working directory when main returned
	Trace  []zzs.Step
	Paths  []int32
	Races  []string // with the race detector: what raced
	Twice  int      // buffers put into a pool that had them already
}

// Bad describes an ending that is not a clean exit with status 0.
func (x *Res) Bad() string {
	switch {
	case x.Crash != "":
		return "crash: " + x.Crash
	case x.Deadlock != "":
		return "deadlock: " + x.Deadlock
	case x.Exit > 0:
		return fmt.Sprintf("exit status %d", x.Exit)
	case x.Leak != "":
		return "goroutines left behind: " + x.Leak
	}
	return ""
}

var stdout *os.File

// Opt are the options of one run.
type Opt struct {
	Gentle   bool         // pools neither reuse nor overwrite
	Strategy zzs.Strategy // nil: the default schedule
	Cancel   bool
	Trace    bool
	NoFiles  bool
	UI       bool // the display is on
	Maps     int  // order of map iterations
	MapStep  int
	IO       bool   // other threads may run before every operation on a file
	OnIO     func() // called before every operation on a file
	OnMain   func() // called when main has returned
}

// Cmd runs one command in dir (its working directory is not changed: arguments
// are given as paths below dir by the caller).
func Cmd(r *vlib.R, dir string, o Opt, cmd string, args ...string) *Res {
	if NoUI(cmd) && !o.UI {
		args = append(append([]string{}, args...), "-r", "0")
	}
	return Func(r, dir, o, mains[cmd], append([]string{cmd}, args...))
}

// Func runs a main function with these arguments.
func Func(r *vlib.R, dir string, o Opt, f func(), argv []string) *Res {
	if stdout == nil {
		f, err := os.Create(filepath.Join(r.Scratch, "stdout"))
		if err != nil {
			panic(err)
		}
		stdout = f
	}
	if err := stdout.Truncate(0); err != nil {
		panic(err)
	}
	if _, err := stdout.Seek(0, 0); err != nil {
		panic(err)
	}
	vlib.Unmap(r.Scratch)
	oldArgs, oldOut := os.Args, os.Stdout
	os.Args = argv
	os.Stdout = stdout
	defer func() { os.Args, os.Stdout = oldArgs, oldOut }()
	x := &Res{}
	snap := func() {
		if o.OnMain != nil {
			o.OnMain()
		}
		b := make([]byte, 4096)
		n, _ := stdout.ReadAt(b, 0)
		if n == len(b) {
			b2, _ := os.ReadFile(stdout.Name())
			b, n = b2, len(b2)
		}
		x.Stdout = string(b[:n])
		if !o.NoFiles {
			x.Files = vlib.Dir(dir)
		}
	}
	st := o.Strategy
	if st == nil {
		st = zzs.Default{}
	}
	vsync.Gentle, vsync.Twice = o.Gentle, 0
	x.Outcome, x.Trace = zzs.Run(TB, zzs.Config{Strategy: st, Cancel: o.Cancel, OnMain: snap, KeepTrace: o.Trace, Maps: o.Maps, MapStep: o.MapStep, IO: o.IO, OnIO: o.OnIO}, f)
	vsync.Gentle, x.Twice = false, vsync.Twice
	if !x.MainDone {
		snap()
	}
	if zzs.Race {
		x.Races = races(r.Scratch)
	}
	r.Res.Steps += x.Steps
	return x
}

// Fresh empties dir and puts files into it.
func Fresh(dir string, files map[string][]byte) {
	_ = os.MkdirAll(dir, 0o755)
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if _, ok := files[e.Name()]; !ok {
			_ = os.RemoveAll(filepath.Join(dir, e.Name()))
		}
	}
	for n, b := range files {
		vlib.MustWrite(filepath.Join(dir, n), b)
	}
}

// Names lists the files of a run.
func (x *Res) Names() string {
	var s []string
	for n := range x.Files {
		s = append(s, n)
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

// Quiet runs a command that has to succeed for a check to make sense; it
// returns its output file.
func Quiet(r *vlib.R, dir, out, cmd string, args ...string) (string, string) {
	x := Cmd(r, dir, Opt{Gentle: true}, cmd, args...)
	if b := x.Bad(); b != "" {
		return "", cmd + ": " + b
	}
	s, ok := x.Files[out]
	if !ok {
		return "", cmd + " left no " + out
	}
	return s, ""
}

// Text is the content of a file in canonical form.
func Text(bs []osmref.PBlock) string {
	var b strings.Builder
	for _, x := range bs {
		b.WriteString(x.Text())
		b.WriteByte('\n')
	}
	return b.String()
}

// Short shortens a text for a message.
func Short(s string) string {
	if len(s) > 700 {
		return s[:700] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// Diff shows where two texts part.
func Diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	a := i - 60
	if a < 0 {
		a = 0
	}
	cut := func(s string) string {
		if a >= len(s) {
			return ""
		}
		e := i + 160
		if e > len(s) {
			e = len(s)
		}
		return s[a:e]
	}
	return fmt.Sprintf("they differ at %d of %d/%d: got %q want %q", i, len(got), len(want), cut(got), cut(want))
}
