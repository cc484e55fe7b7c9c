// driver runs the checks of one property: it instruments and builds the
// harnesses against the repository's current tree, runs their shards, merges
// what they report, and writes the evidence.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"zz.local/zz/vlib"
)

var (
	verif, repo, work string
	verbose           = os.Getenv("ZZ_VERBOSE") != ""
)

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "driver: "+format+"\n", a...)
	os.Exit(2)
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	out, err := c.CombinedOutput()
	return string(out), err
}

// ---- building ----

type buildResult struct {
	bin string
	err error
}

var (
	buildMu  sync.Mutex
	builds   = map[string]*buildResult{}
	instrs   = map[string]error{}
	binsDone = map[string]error{}
)

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

// modfile makes a copy of the repository's go.mod that also knows the framework.
func modfile() (string, error) {
	m := filepath.Join(work, "m.mod")
	if _, err := os.Stat(m); err == nil {
		return m, nil
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	b = append(b, []byte("\nrequire zz.local/zz v0.0.0\nreplace zz.local/zz => "+filepath.Join(verif, "src/zz")+"\n"+quickStart())...)
	if err := os.WriteFile(m, b, 0o644); err != nil {
		return "", err
	}
	s, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err == nil {
		err = os.WriteFile(filepath.Join(work, "m.sum"), s, 0o644)
	}
	return m, err
}

func harnessOverlay(pkg, mode string) map[string]string {
	ov := map[string]string{}
	from := []string{pkg, "run"}
	if mode == "ui" {
		from = append(from, pkg+"_ui") // more of the same package
	}
	for _, src := range from {
		dir := filepath.Join(verif, "harness", src)
		p := strings.TrimSuffix(src, "_ui")
		es, err := os.ReadDir(dir)
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(repo, "internal/zzv", p, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
	}
	return ov
}

// quickStart makes a copy of the package that measures the time stamp counter when
// a command starts (0.4 s of processor time, used by option -t only) which measures
// it 100 times instead of 100000, and returns what go.mod needs to use it.
func quickStart() string {
	out, err := run(repo, nil, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/dterei/gotsc")
	if err != nil {
		return ""
	}
	src := strings.TrimSpace(out)
	dst := filepath.Join(work, "gotsc")
	es, err := os.ReadDir(src)
	if err != nil || os.MkdirAll(dst, 0o755) != nil {
		return ""
	}
	found := false
	for _, e := range es {
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		if e.Name() == "tsc.go" && strings.Count(string(b), "i < 100000;") == 1 {
			found = true
			b = []byte(strings.Replace(string(b), "i < 100000;", "i < 100;", 1))
		}
		if os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644) != nil {
			return ""
		}
	}
	if !found || os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module github.com/dterei/gotsc\n"), 0o644) != nil {
		return ""
	}
	return "replace github.com/dterei/gotsc => " + dst + "\n"
}

// uiModfile makes a go.mod with a copy of tcell whose screens the harness makes.
func uiModfile(m string) (mod, dir string, err error) {
	dir = filepath.Join(work, "tcell")
	mod = filepath.Join(work, "mui.mod")
	if _, err := os.Stat(mod); err == nil {
		return mod, dir, nil
	}
	out, err := run(repo, nil, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/gdamore/tcell")
	if err != nil {
		return "", "", fmt.Errorf("%v\n%s", err, out)
	}
	src := strings.TrimSpace(out)
	found := false
	err = filepath.WalkDir(src, func(path string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if e.IsDir() {
			return os.MkdirAll(filepath.Join(dir, rel), 0o755)
		}
		if !strings.HasSuffix(path, ".go") && rel != "go.mod" || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		const sig = "func NewScreen() (Screen, error) {"
		if s := string(b); strings.Contains(s, sig) {
			found = true
			b = []byte(strings.Replace(s, sig, "// ZZScreen makes the screens of the harness.\nvar ZZScreen func() (Screen, error)\n\n"+sig+"\n\tif ZZScreen != nil {\n\t\treturn ZZScreen()\n\t}\n", 1))
		}
		return os.WriteFile(filepath.Join(dir, rel), b, 0o644)
	})
	if err == nil && !found {
		err = fmt.Errorf("NewScreen not found in %s", src)
	}
	if err != nil {
		return "", "", err
	}
	b, err := os.ReadFile(m)
	if err != nil {
		return "", "", err
	}
	s, _ := os.ReadFile(strings.TrimSuffix(m, ".mod") + ".sum")
	_ = os.WriteFile(strings.TrimSuffix(mod, ".mod")+".sum", s, 0o644)
	return mod, dir, os.WriteFile(mod, append(b, []byte("replace github.com/gdamore/tcell => "+dir+"\n")...), 0o644)
}

func build(pkg, mode string) (string, error) {
	key := pkg + "." + mode
	buildMu.Lock()
	defer buildMu.Unlock()
	if r, ok := builds[key]; ok {
		return r.bin, r.err
	}
	bin, err := build1(pkg, mode)
	builds[key] = &buildResult{bin, err}
	return bin, err
}

// Modes are: plain; race (plain, with the race detector); sync; stmt (sync, with
// statements); ui (sync, with the display).  +race adds the detector.
func build1(pkg, mode string) (string, error) {
	key := mode
	mode, detect := strings.CutSuffix(mode, "+race")
	m, err := modfile()
	if err != nil {
		return "", err
	}
	d := filepath.Join(work, "b_"+pkg+"_"+key)
	_ = os.MkdirAll(d, 0o755)
	add := filepath.Join(d, "add.json")
	ov := filepath.Join(d, "ov.json")
	writeJSON(add, map[string]any{"Replace": harnessOverlay(pkg, mode)})
	tcell := ""
	if mode == "ui" {
		if m, tcell, err = uiModfile(m); err != nil {
			return "", err
		}
	}
	args := []string{"test", "-c", "-vet=off", "-modfile", m, "-overlay", ov}
	bin := filepath.Join(d, "t")
	switch mode {
	case "sync", "stmt", "ui":
		ia := []string{"-repo", repo, "-work", d, "-add", add, "-o", ov, "-plain", "/state"}
		if mode == "stmt" {
			ia = []string{"-repo", repo, "-work", d, "-add", add, "-o", ov, "-stmt", "*"}
		}
		if mode == "ui" {
			ia = append(ia, "-modfile", m, "-extra", tcell, "-time")
		}
		if !detect { // (the detector has to see the maps being read)
			ia = append(ia, "-maps")
		}
		out, err := run(repo, nil, filepath.Join(work, "tools/instr"), ia...)
		if err != nil {
			return "", fmt.Errorf("instr: %v\n%s", err, out)
		}
	case "plain", "race":
		b, _ := os.ReadFile(add)
		_ = os.WriteFile(ov, b, 0o644)
		if mode == "race" {
			args = append(args, "-race")
		}
	}
	if detect { // the scheduler stays invisible to the detector
		args = append(args, "-race", "-gcflags=zz.local/zz/zzs=-race=false", "-gcflags=zz.local/zz/vsync=-race=false")
	}
	args = append(args, "-o", bin, "./internal/zzv/"+pkg)
	out, err := run(repo, nil, "go", args...)
	if err != nil {
		return "", fmt.Errorf("%v\n%s", err, out)
	}
	return bin, nil
}

// buildBins builds the real commands; with faults, every file write of theirs
// goes through a numbered fault point.
func buildBins(kind string) (string, error) {
	d := filepath.Join(work, "bin_"+kind)
	buildMu.Lock()
	defer buildMu.Unlock()
	if err, ok := binsDone[kind]; ok {
		return d, err
	}
	_ = os.MkdirAll(d, 0o755)
	m, err := modfile()
	if err != nil {
		return d, err
	}
	args := []string{"build", "-modfile", m, "-o", d + "/"}
	ov := filepath.Join(d, "ov.json")
	rep := map[string]string{}
	if kind == "fault" {
		err = faultOverlay(d, rep)
	}
	writeJSON(ov, map[string]any{"Replace": rep})
	args = append(args, "-overlay", ov)
	if kind == "race" {
		args = append(args, "-race")
	}
	if err == nil {
		var out string
		out, err = run(repo, nil, "go", append(args, "./cmd/...")...)
		if err != nil {
			err = fmt.Errorf("%v\n%s", err, out)
		}
	}
	binsDone[kind] = err
	return d, err
}

// faultOverlay replaces internal/poll's FD.Write by one that counts the calls on
// regular files and, as ZZ_FAULT says, kills the process, fails, or writes short.
func faultOverlay(d string, into map[string]string) error {
	out, err := run(repo, nil, "go", "env", "GOROOT")
	if err != nil {
		return err
	}
	root := strings.TrimSpace(out)
	src := filepath.Join(root, "src/internal/poll/fd_unix.go")
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	s := string(b)
	const sig = "func (fd *FD) Write(p []byte) (int, error) {"
	if strings.Count(s, sig) != 1 {
		return fmt.Errorf("FD.Write not found in %s", src)
	}
	s = strings.Replace(s, sig, sig+"\n\tif n, err, done := zzFault(fd, p); done {\n\t\treturn n, err\n\t}\n\treturn fd.zzWrite(p)\n}\n\nfunc (fd *FD) zzWrite(p []byte) (int, error) {", 1)
	f1 := filepath.Join(d, "fd_unix.go")
	if err := os.WriteFile(f1, []byte(s), 0o644); err != nil {
		return err
	}
	f2 := filepath.Join(d, "zzfault.go")
	if err := os.WriteFile(f2, []byte(faultSrc), 0o644); err != nil {
		return err
	}
	// creating a file is a fault point as well
	osrc := filepath.Join(root, "src/os/file_unix.go")
	b, err = os.ReadFile(osrc)
	if err != nil {
		return err
	}
	s = string(b)
	const osig = "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {"
	if strings.Count(s, osig) != 1 {
		return fmt.Errorf("openFileNolog not found in %s", osrc)
	}
	s = strings.Replace(s, osig, osig+"\n\tif flag&O_CREATE != 0 && poll.ZZCreate() {\n\t\treturn nil, &PathError{Op: \"open\", Path: name, Err: syscall.EACCES}\n\t}\n", 1)
	f3 := filepath.Join(d, "file_unix.go")
	if err := os.WriteFile(f3, []byte(s), 0o644); err != nil {
		return err
	}
	into[src], into[osrc], into[filepath.Join(root, "src/internal/poll/zzfault.go")] = f1, f3, f2
	return nil
}

const faultSrc = `//go:build unix

package poll

import (
	"sync"
	"syscall"
)

// The fault is taken from ZZ_FAULT: kind:n with kind kill (before the n-th
// write), killafter (after it), killmid (half way through it), killbytes (after
// n bytes), enospc, eio, short (half of it is written, then ENOSPC), full (the
// disk is full from the n-th write on), bytes (it is full after n bytes), create
// (the n-th file cannot be created), log (nothing).  ZZ_FAULTLOG gets a line for
// each write (w SIZE), file creation (c), and injected fault (f).
var (
	zzMu   sync.Mutex
	zzN    int
	zzC    int
	zzB    int
	zzKind string
	zzAt   int
	zzInit bool
	zzLog  int
)

func zzNum(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func zzStart() {
	if zzInit {
		return
	}
	zzInit = true
	if v, ok := syscall.Getenv("ZZ_FAULT"); ok {
		for i := 0; i < len(v); i++ {
			if v[i] == ':' {
				zzKind = v[:i]
				zzAt = zzNum(v[i+1:])
			}
		}
		if zzKind == "" {
			zzKind = v
		}
	}
	if v, ok := syscall.Getenv("ZZ_FAULTLOG"); ok {
		zzLog, _ = syscall.Open(v, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_APPEND, 0644)
	}
}

func zzSay(s string) {
	if zzLog > 0 {
		syscall.Write(zzLog, []byte(s))
	}
}

func zzText(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return zzText(n/10) + zzText(n%10)
}

// ZZCreate says whether the creation of a file fails.
func ZZCreate() bool {
	zzMu.Lock()
	defer zzMu.Unlock()
	zzStart()
	if zzKind == "" {
		return false
	}
	zzC++
	zzSay("c\n")
	if zzKind == "create" && zzC == zzAt {
		zzSay("f\n")
		return true
	}
	return false
}

func zzDie() {
	syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
	select {}
}

func zzFault(fd *FD, p []byte) (int, error, bool) {
	if fd.Sysfd <= 2 || len(p) == 0 {
		return 0, nil, false
	}
	zzMu.Lock()
	defer zzMu.Unlock()
	zzStart()
	if zzKind == "" || zzKind == "create" {
		return 0, nil, false
	}
	var st syscall.Stat_t
	if syscall.Fstat(fd.Sysfd, &st) != nil || st.Mode&syscall.S_IFMT != syscall.S_IFREG {
		return 0, nil, false
	}
	zzN++
	zzSay("w " + zzText(len(p)) + "\n")
	switch zzKind {
	case "kill":
		if zzN == zzAt {
			zzDie()
		}
	case "killafter":
		if zzN == zzAt {
			syscall.Write(fd.Sysfd, p)
			zzDie()
		}
	case "killmid":
		if zzN == zzAt {
			syscall.Write(fd.Sysfd, p[:(len(p)+1)/2])
			zzDie()
		}
	case "killbytes":
		if zzB+len(p) > zzAt {
			syscall.Write(fd.Sysfd, p[:zzAt-zzB])
			zzDie()
		}
		zzB += len(p)
	case "enospc":
		if zzN == zzAt {
			zzSay("f\n")
			return 0, syscall.ENOSPC, true
		}
	case "eio":
		if zzN == zzAt {
			zzSay("f\n")
			return 0, syscall.EIO, true
		}
	case "full":
		if zzN >= zzAt {
			zzSay("f\n")
			return 0, syscall.ENOSPC, true
		}
	case "bytes":
		if zzB+len(p) > zzAt {
			zzSay("f\n")
			n, err := 0, error(nil)
			if zzAt > zzB {
				n, err = syscall.Write(fd.Sysfd, p[:zzAt-zzB])
			}
			zzB = zzAt
			if err != nil {
				return 0, err, true
			}
			return n, syscall.ENOSPC, true
		}
		zzB += len(p)
	case "short":
		if zzN == zzAt {
			zzSay("f\n")
			n, err := syscall.Write(fd.Sysfd, p[:len(p)/2])
			if err != nil {
				return n, err, true
			}
			return n, syscall.ENOSPC, true
		}
	}
	return 0, nil, false
}
`

// ---- running ----

type part struct {
	name   string // registered name in the harness
	pkg    string
	mode   string // sync, stmt, plain, race, ui
	bins   []string
	weight float64 // share of the time budget (0: 1)
}

type check struct {
	level     string
	technique string
	note      string
	rule      string
	assume    []string
	parts     []part
	quick     float64 // seconds for the harness runs
	thorough  float64
}

type partResult struct {
	vlib.Result
	part   part
	err    string
	seen   map[uint64]struct{}
	dead   []string
	wall   float64
	shards int
}

func runPart(id string, p part, tier, seed string, budget float64, replay string) *partResult {
	pr := &partResult{part: p, seen: map[uint64]struct{}{}}
	pr.Extra = map[string]int{}
	start := time.Now()
	defer func() { pr.wall = time.Since(start).Seconds() }()
	bin, err := build(p.pkg, p.mode)
	if err != nil {
		pr.err = "build: " + err.Error()
		return pr
	}
	var env []string
	for _, k := range p.bins {
		d, err := buildBins(k)
		if err != nil {
			pr.err = "build of the commands: " + err.Error()
			return pr
		}
		env = append(env, "ZZ_BIN_"+strings.ToUpper(k)+"="+d)
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if v, _ := strconv.Atoi(os.Getenv("ZZ_SHARDS")); v > 0 {
		shards = v
	}
	if replay != "" {
		shards = 1
	}
	pr.shards = shards
	base := scratchBase()
	type shardOut struct {
		res  vlib.Result
		ok   bool
		out  string
		dead string
		seen []byte
	}
	outs := make([]shardOut, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			for attempt := 0; attempt < 2; attempt++ {
				o := &outs[s]
				*o = shardOut{}
				res := filepath.Join(work, fmt.Sprintf("r_%s_%d.json", strings.ReplaceAll(p.name, "/", "_"), s))
				scratch := filepath.Join(base, fmt.Sprintf("%s_%d", strings.ReplaceAll(p.name, "/", "_"), s))
				_ = os.MkdirAll(scratch, 0o777)
				c := exec.Command(bin, "-test.run", "^TestZZ$", "-test.timeout", "0")
				c.Dir = scratch
				c.Env = append(os.Environ(), env...)
				procs := "1"
				if strings.HasSuffix(p.mode, "+race") {
					c.Env = append(c.Env, "GORACE=log_path="+filepath.Join(scratch, "race")+" history_size=7 exitcode=0 halt_on_error=0 atexit_sleep_ms=0")
				}
				if p.mode == "race" || p.mode == "plain" && strings.Contains(p.name, "free") {
					procs = "4"
				}
				c.Env = append(c.Env, "ZZ_PROP="+p.name, "ZZ_ID="+id, "ZZ_TIER="+tier, "ZZ_SEED="+seed,
					"ZZ_SHARD="+strconv.Itoa(s), "ZZ_SHARDS="+strconv.Itoa(shards), "ZZ_OUT="+res,
					fmt.Sprintf("ZZ_BUDGET=%f", budget), "ZZ_SCRATCH="+scratch, "ZZ_REPLAY="+replay,
					"GOMAXPROCS="+procs, "GOGC=400", "GOTRACEBACK=all")
				var buf capped
				c.Stdout, c.Stderr = &buf, &buf
				c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
				err := c.Start()
				if err != nil {
					o.out = err.Error()
					return
				}
				done := make(chan error, 1)
				go func() { done <- c.Wait() }()
				hung := false
				select {
				case err = <-done:
				case <-time.After(time.Duration(budget*1000+90000) * time.Millisecond):
					hung = true
					_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
					err = <-done
				}
				_ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
				_ = os.RemoveAll(scratch)
				o.out = buf.String()
				b, e := os.ReadFile(res)
				if e == nil {
					e = json.Unmarshal(b, &o.res)
				}
				o.seen, _ = os.ReadFile(res + ".seen")
				if e == nil && o.res.Done && err == nil {
					o.ok = true
					return
				}
				killed := hung
				if ee, ok := err.(*exec.ExitError); ok {
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
						killed = true
					}
				}
				cs := ""
				if pb, e := os.ReadFile(res + ".progress"); e == nil && len(pb) >= 4 {
					n := int(binary.LittleEndian.Uint32(pb))
					if n <= len(pb)-4 {
						cs = string(pb[4 : 4+n])
					}
				}
				if hung {
					o.dead = "hang\x00" + cs
					return
				}
				if killed {
					continue // out of memory, or ended from outside: once more
				}
				if cs == "" {
					return // an error of the harness
				}
				o.dead = "crash\x00" + cs
				return
			}
		}(s)
	}
	wg.Wait()
	pr.Exhaustive = true
	for s := range outs {
		o := &outs[s]
		pr.Evaluations += o.res.Evaluations
		pr.States += o.res.States
		pr.Transitions += o.res.Transitions
		pr.Schedules += o.res.Schedules
		pr.Steps += o.res.Steps
		pr.Outcomes += o.res.Outcomes
		pr.Divergences += o.res.Divergences
		for k, v := range o.res.Extra {
			pr.Extra[k] += v
		}
		pr.Violations = append(pr.Violations, o.res.Violations...)
		if len(pr.Samples) < 6 {
			for i, x := range o.res.Samples {
				if i < 2 {
					pr.Samples = append(pr.Samples, x)
				}
			}
		}
		if !o.res.Exhaustive && o.res.Done {
			pr.Exhaustive = false
		}
		for _, c := range o.res.Capped {
			found := false
			for _, d := range pr.Capped {
				found = found || c == d
			}
			if !found {
				pr.Capped = append(pr.Capped, c)
			}
		}
		for i := 0; i+8 <= len(o.seen); i += 8 {
			pr.seen[binary.LittleEndian.Uint64(o.seen[i:])] = struct{}{}
		}
		if !o.ok {
			pr.Exhaustive = false
			switch {
			case o.dead != "":
				kind, cs, _ := strings.Cut(o.dead, "\x00")
				what := "the process dies: " + firstFatal(o.out)
				if kind == "hang" {
					what = "the run does not end"
				}
				pr.Violations = append(pr.Violations, vlib.Violation{Property: id, Key: kind + ":" + cs, What: what, Case: cs, Detail: tail(o.out, 4000)})
			case len(o.res.Violations) > 0:
			default:
				pr.err = fmt.Sprintf("shard %d: %s", s, tail(o.out, 3000))
			}
		}
	}
	return pr
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "unexpected fault") || strings.Contains(l, "SIG") || strings.Contains(l, "DATA RACE") {
			return l
		}
	}
	return strings.SplitN(s+"\n", "\n", 2)[0]
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type capped struct {
	mu sync.Mutex
	b  []byte
}

func (c *capped) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.b) < 1<<20 {
		c.b = append(c.b, p...)
	}
	return len(p), nil
}
func (c *capped) String() string { c.mu.Lock(); defer c.mu.Unlock(); return string(c.b) }

var scratchDir string

func scratchBase() string {
	if scratchDir != "" {
		return scratchDir
	}
	for _, d := range []string{"/dev/shm", work} {
		var st syscall.Statfs_t
		if syscall.Statfs(d, &st) != nil || st.Bavail*uint64(st.Bsize) < 4<<30 {
			if d != work {
				continue
			}
		}
		s, err := os.MkdirTemp(d, "zzcheck.")
		if err == nil {
			_ = os.Chmod(s, 0o777)
			scratchDir = s
			return s
		}
	}
	fatal("no scratch directory")
	return ""
}

// ---- findings ----

type finding struct{ prop, key, what string }

func knownFindings() []finding {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := finding{}
		rest := strings.TrimPrefix(l, "known: ")
		for _, w := range strings.Split(rest, "|") {
			w = strings.TrimSpace(w)
			switch {
			case strings.HasPrefix(w, "property="):
				f.prop = strings.TrimPrefix(w, "property=")
			case strings.HasPrefix(w, "key="):
				f.key = strings.TrimPrefix(w, "key=")
			default:
				f.what = w
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func main() {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if _, err := strconv.Atoi(seed); err != nil {
		seed = "1"
	}
	var replay string
	var buildonly, list bool
	flag.StringVar(&verif, "verif", "/verif", "")
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.StringVar(&work, "work", "", "")
	flag.BoolVar(&buildonly, "buildonly", false, "")
	flag.BoolVar(&list, "manifest", false, "write MANIFEST.json")
	flag.Parse()
	args := flag.Args()
	for i := 1; i < len(args); i++ {
		if args[i] == "--replay" && i+1 < len(args) {
			replay = args[i+1]
		}
	}
	code := 2
	func() {
		defer func() {
			if scratchDir != "" {
				_ = os.RemoveAll(scratchDir)
			}
			if strings.HasPrefix(filepath.Base(work), "zzcheck.") && os.Getenv("ZZ_KEEP") == "" {
				_ = os.RemoveAll(work)
			}
		}()
		if list {
			manifest()
			code = 0
			return
		}
		if buildonly {
			code = buildAll()
			return
		}
		if len(args) == 0 {
			fmt.Fprintln(os.Stderr, "usage: check ID [--replay FILE]")
			return
		}
		code = runCheck(args[0], tier, seed, replay)
	}()
	os.Exit(code)
}

// manifest writes MANIFEST.json from the table of checks.
func manifest() {
	b, err := os.ReadFile(filepath.Join(verif, "properties.jsonl"))
	if err != nil {
		fatal("%v", err)
	}
	m := map[string]any{"version": 1, "setup_cmd": "bin/setup"}
	var cs, na []any
	for _, l := range strings.Split(string(b), "\n") {
		var p struct{ ID string }
		if json.Unmarshal([]byte(l), &p) != nil {
			continue
		}
		ck := checks[p.ID]
		if ck == nil {
			r := unclaimed[p.ID]
			if r == "" {
				r = "no check has been built for it yet"
			}
			na = append(na, map[string]any{"property": p.ID, "reason": r})
			continue
		}
		cs = append(cs, map[string]any{"property": p.ID, "quick_cmd": "bin/check " + p.ID, "thorough_cmd": "bin/check " + p.ID,
			"technique": ck.technique, "level": ck.level, "level_note": ck.note})
	}
	m["checks"] = cs
	if na == nil {
		na = []any{}
	}
	m["not_applicable"] = na
	m["notes"] = "All instrumentation is put in by go build -overlay from copies made at check time: there are no hooks in /repo."
	writeJSON(filepath.Join(verif, "MANIFEST.json"), m)
}

func buildAll() int {
	done := map[string]bool{}
	rc := 0
	var ids []string
	for id := range checks {
		if id != "SELF" {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	for _, id := range ids {
		for _, p := range checks[id].parts {
			k := p.pkg + "." + p.mode
			if done[k] {
				continue
			}
			done[k] = true
			if _, err := build(p.pkg, p.mode); err != nil {
				fmt.Printf("%s: %v\n", k, err)
				rc = 1
			}
			for _, b := range p.bins {
				if _, err := buildBins(b); err != nil {
					fmt.Printf("commands (%s): %v\n", b, err)
					rc = 1
				}
			}
		}
	}
	if rc == 0 {
		fmt.Println("built")
	}
	return rc
}

func runCheck(id, tier, seed, replayFile string) int {
	start := time.Now()
	ck, ok := checks[id]
	if !ok {
		fatal("no check for %s", id)
	}
	if out, err := run(repo, nil, "go", "build", "./..."); err != nil {
		fatal("the repository does not build: %v\n%s", err, out)
	}
	replayCase, replayPart := "", ""
	if replayFile != "" {
		b, err := os.ReadFile(replayFile)
		if err != nil {
			fatal("%v", err)
		}
		var rp struct{ Part, Case string }
		if err := json.Unmarshal(b, &rp); err != nil {
			fatal("%v", err)
		}
		replayCase, replayPart = rp.Case, rp.Part
	}
	total := ck.quick
	if tier == "thorough" {
		total = ck.thorough
	}
	if v, err := strconv.ParseFloat(os.Getenv("ZZ_TOTAL"), 64); err == nil {
		total = v
	}
	sum := 0.0
	for _, p := range ck.parts {
		w := p.weight
		if w == 0 {
			w = 1
		}
		sum += w
	}
	var prs []*partResult
	left := total
	for _, p := range ck.parts {
		if only := os.Getenv("ZZ_ONLY"); only != "" && only != p.name {
			continue
		}
		if replayPart != "" && replayPart != p.name {
			continue
		}
		w := p.weight
		if w == 0 {
			w = 1
		}
		b := left * w / sum
		pr := runPart(id, p, tier, seed, b, replayCase)
		if verbose {
			fmt.Printf("# %s: %.1fs of %.1fs, %d evaluations, %d distinct, %d states, %d transitions, %d schedules, exhaustive=%v %v err=%q extra=%v\n", p.name, pr.wall, b, pr.Evaluations, len(pr.seen), pr.States, pr.Transitions, pr.Schedules, pr.Exhaustive, pr.Capped, tail(pr.err, 1500), pr.Extra)
		}
		used := pr.wall
		if used > b {
			used = b
		}
		left -= used
		sum -= w
		prs = append(prs, pr)
		if len(pr.Violations) > 0 && os.Getenv("ZZ_FIRST") != "" {
			break
		}
	}
	return report(id, ck, tier, seed, prs, start)
}

func report(id string, ck *check, tier, seed string, prs []*partResult, start time.Time) int {
	known := knownFindings()
	viol := 0
	failed := 0
	printed := map[string]bool{}
	for _, pr := range prs {
		if pr.err != "" {
			failed++
			fmt.Fprintf(os.Stderr, "part %s gave no answer: %s\n", pr.part.name, pr.err)
		}
		for _, v := range pr.Violations {
			isKnown := false
			for _, f := range known {
				if f.prop == id && f.key == v.Key {
					isKnown = true
					if !printed[v.Key] {
						printed[v.Key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.what)
					}
				}
			}
			if isKnown {
				continue
			}
			viol++
			if viol > 5 {
				continue
			}
			dir := filepath.Join(verif, "evidence", "replays")
			_ = os.MkdirAll(dir, 0o755)
			rp := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, viol))
			writeJSON(rp, map[string]any{"property": id, "part": pr.part.name, "case": v.Case, "key": v.Key, "what": v.What, "detail": v.Detail, "replay": v.Replay, "rerun": "bin/check " + id + " --replay " + rp})
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
			fmt.Printf("  %s\n  case: %s\n", v.What, tail(v.Case, 500))
			if verbose {
				fmt.Printf("  detail: %s\n", tail(v.Detail, 3000))
			}
		}
	}
	// evidence
	var tot vlib.Result
	seen := 0
	exhaustive := true
	var samples []any
	var per []any
	extra := map[string]int{}
	for _, pr := range prs {
		tot.Evaluations += pr.Evaluations
		tot.States += pr.States
		tot.Transitions += pr.Transitions
		tot.Schedules += pr.Schedules
		tot.Steps += pr.Steps
		seen += len(pr.seen)
		exhaustive = exhaustive && pr.Exhaustive && pr.err == ""
		for i, s := range pr.Samples {
			if i < 3 {
				samples = append(samples, pr.part.name+": "+s)
			}
		}
		for k, v := range pr.Extra {
			extra[pr.part.name+" "+k] += v
		}
		m := map[string]any{"part": pr.part.name, "mode": pr.part.mode, "evaluations": pr.Evaluations, "distinct": len(pr.seen), "exhaustive": pr.Exhaustive && pr.err == "", "wall_s": pr.wall}
		if pr.States > 0 {
			m["states"], m["transitions"], m["executions"] = pr.States, pr.Transitions, pr.Schedules
		} else if pr.Schedules > 0 {
			m["executions"] = pr.Schedules
		}
		if len(pr.Capped) > 0 {
			m["capped"] = pr.Capped
		}
		if pr.err != "" {
			m["error"] = tail(pr.err, 500)
		}
		per = append(per, m)
	}
	cov := map[string]any{"samples": samples, "exhaustive": exhaustive, "parts": per, "counters": extra}
	switch ck.level {
	case "model_checking":
		cov["states"] = tot.States
		cov["transitions"] = tot.Transitions
		cov["traces_validated_against_impl"] = tot.Schedules
		cov["explanation"] = "There is no separate model: every state is one reached by executing the implementation under the controlled scheduler, so every explored execution is a validated trace. " + ck.rule
	default:
		cov["evaluations"] = tot.Evaluations
		cov["distinct_nontrivial"] = seen
		cov["rule"] = ck.rule
	}
	sd, _ := strconv.Atoi(seed)
	ev := map[string]any{"property": id, "tier": tier, "seed": sd, "level": ck.level, "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viol, "assumptions": ck.assume}
	if ck.assume == nil {
		ev["assumptions"] = []string{}
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if os.Getenv("ZZ_ONLY") == "" {
		writeJSON(filepath.Join(verif, "evidence", id+".json"), ev)
	}
	fmt.Printf("%s: %d evaluations, %d distinct, %d states, %d transitions, %d executions, exhaustive=%v, %d violations, %.1fs\n", id, tot.Evaluations, seen, tot.States, tot.Transitions, tot.Schedules, exhaustive, viol, time.Since(start).Seconds())
	if viol > 0 {
		return 1
	}
	if failed > 0 && failed == len(prs) {
		return 2
	}
	return 0
}
