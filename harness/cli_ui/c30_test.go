package cli

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vcontext"
	"zz.local/zz/vlib"
	"zz.local/zz/vtime"
	"zz.local/zz/zzs"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/icontext"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
	"github.com/squizzling/osmindex/internal/zzv/run"
)

// screen is a terminal and the one who sits in front of it.
type screen struct {
	tcell.SimulationScreen
	user    []tcell.Event
	inits   int
	finis   int
	shows   int
	bad     string
	polled  map[string]int // events the program has taken
	at      int64          // length of stdout when the display went on
	frames  map[string]bool
	workers int // how many there can be, 0: not known
	blocks  int
}

type resize struct {
	tcell.EventTime
	w, h int
}

func stdoutLen() int64 {
	st, err := os.Stdout.Stat()
	if err != nil {
		return -1
	}
	return st.Size()
}

func (s *screen) Init() error {
	if err := s.SimulationScreen.Init(); err != nil {
		return err
	}
	s.inits++
	s.at = stdoutLen()
	s.SetSize(40, 6)
	if len(s.user) > 0 {
		zzs.GoEnv("user", func() {
			for _, e := range s.user {
				s.PostEvent(e) // a key that finds no room is lost
			}
		})
	}
	return nil
}

func (s *screen) Fini() {
	s.finis++
	if s.finis > s.inits {
		s.bad = "the screen is given back twice"
		return
	}
	if n := stdoutLen(); n != s.at {
		s.bad = fmt.Sprintf("%d bytes are printed while the display is on", n-s.at)
	}
	s.SimulationScreen.Fini()
}

func (s *screen) Show() {
	s.shows++
	if s.finis >= s.inits {
		s.bad = "draws on a screen it has given back"
		return
	}
	s.SimulationScreen.Show()
	s.frame()
}

func (s *screen) Sync() {
	s.shows++
	if s.finis >= s.inits {
		s.bad = "draws on a screen it has given back"
		return
	}
	s.SimulationScreen.Sync()
	s.frame()
}

// frame notes what is to be seen.
func (s *screen) frame() {
	cells, w, h := s.GetContents()
	var b strings.Builder
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			b.WriteString(string(cells[y*w+x].Runes))
		}
		b.WriteByte('\n')
	}
	f := b.String()
	if len(s.frames) < 5000 {
		s.frames[f] = true
	}
	if strings.Count(f, "] Processing PBF") > 1 || strings.Count(f, "Pass ") > 1 {
		s.bad = "two passes are shown at once:\n" + f
	}
	if n := strings.Count(f, "Worker: "); s.workers > 0 && n > s.workers {
		s.bad = fmt.Sprintf("%d workers are shown:\n%s", n, f)
	}
	seen := map[string]bool{}
	for _, l := range strings.Split(f, "\n") {
		if m := share.FindStringSubmatch(l); m != nil {
			if a, b := len(m[1]), len(m[2]); a > b || a == b && m[1] > m[2] {
				s.bad = "more is shown to be copied than there is:\n" + f
			}
		}
		m := busy.FindStringSubmatch(l)
		if m == nil || m[1] == "0" { // 0 is also what is shown of a worker that has had nothing but a header
			continue
		}
		if n, err := strconv.Atoi(m[1]); err != nil || s.blocks > 0 && n >= s.blocks {
			s.bad = "a block that does not exist is shown:\n" + f
		}
		if seen[m[1]] {
			s.bad = "two workers are shown at the same block:\n" + f
		}
		seen[m[1]] = true
	}
}

// how far the copying of locations is
var share = regexp.MustCompile(`^Writer: copying .*[ (](\d+)/(\d+)[ ),]`)

// a worker at a block; the space after the number tells that it is there in full
var busy = regexp.MustCompile(`^Worker: .* (?:block|blob) (\d+)[ ,]`)

func (s *screen) PollEvent() tcell.Event {
	e := s.SimulationScreen.PollEvent()
	switch x := e.(type) {
	case *resize:
		s.SetSize(x.w, x.h)
		s.polled["resize"]++
		return tcell.NewEventResize(x.w, x.h)
	case *tcell.EventKey:
		s.polled[x.Name()]++
	}
	return e
}

// what the user does
type act struct {
	name  string
	evs   []tcell.Event
	ctrlC bool
}

func key(r rune) tcell.Event { return tcell.NewEventKey(tcell.KeyRune, r, tcell.ModNone) }

func many(n int) (e []tcell.Event) {
	for i := 0; i < n; i++ {
		e = append(e, key('c'))
	}
	return e
}

func size(w, h int) tcell.Event {
	e := &resize{w: w, h: h}
	e.SetEventNow()
	return e
}

func acts() []act {
	return []act{
		{"nothing", nil, false},
		{"Ctrl-C", []tcell.Event{key(3)}, true},
		{"Ctrl-L", []tcell.Event{key(12)}, false},
		{"a resize to nothing", []tcell.Event{size(0, 0)}, false},
		{"resizes", []tcell.Event{size(1, 1), size(200, 60)}, false},
		{"a letter", []tcell.Event{key('c')}, false},
		{"Ctrl-C twice", []tcell.Event{key(3), key(3)}, true},
	}
}

// shown turns a case into one with the display on.
func shown(one run.One, a act, last **screen, workers, blocks int) run.One {
	frames := map[string]bool{}
	return func(o run.Opt) *run.Res {
		s := &screen{SimulationScreen: tcell.NewSimulationScreen("UTF-8"), user: a.evs, polled: map[string]int{}, frames: frames, workers: workers, blocks: blocks}
		*last = s
		n := 0
		tcell.ZZScreen = func() (tcell.Screen, error) {
			if n++; n > 1 {
				s.bad = "a second screen"
			}
			return s, nil
		}
		defer func() { tcell.ZZScreen = nil }()
		o.UI = true
		o.OnMain = func() {
			if s.inits != 1 || s.finis != 1 {
				s.bad = fmt.Sprintf("at the end the screen was taken %d times and given back %d times", s.inits, s.finis)
			}
		}
		x := one(o)
		if x.OwnCancel && s.polled["Ctrl+C"] > 0 {
			x.Cancelled = true
		}
		// what the library started to post an event nobody takes any more; it holds nothing and ends with the process
		if x.Leak != "" && strings.Count(x.Leak, "blocked at ") == strings.Count(x.Leak, "blocked at tcell/simulation.go:") {
			x.Leak = ""
		}
		return x
	}
}

// shownCheck judges such a run.
func shownCheck(last **screen, inner run.Check) run.Check {
	return func(x *run.Res) string {
		s := *last
		if b := inner(x); b != "" {
			return b
		}
		switch {
		case s.bad != "":
			return s.bad
		case s.shows == 0:
			return "nothing is shown"
		case s.polled["Ctrl+C"] > 0 && !x.OwnCancel:
			return "Ctrl-C does not cancel the run"
		case s.polled["Ctrl+C"] == 0 && x.OwnCancel && x.Cancelled:
			return "the run is cancelled by nobody"
		}
		return ""
	}
}

func stdoutLines(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		if !strings.Contains(x, "time") {
			l = append(l, x)
		}
	}
	return strings.Join(l, "\n")
}

func init() {
	on := func(r *vlib.R, name string, f osmref.File, v variant, w int, a act, full bool, fn func(d string, one run.One, ck run.Check)) {
		d := fmt.Sprintf("%v on %s with %d workers, the display on and %s", v, name, w, a.name)
		if !run.Mine(r, d) || r.Stop() || r.Late(d) {
			return
		}
		r.Begin(d)
		e, bad := prepare(r, f)
		if bad != "" {
			r.Fail("prepare "+name, bad, "", nil)
			return
		}
		ref := e.one(v.cmd, e.args(v.cmd, 1, v.extra...))(run.Opt{Gentle: true})
		if b := ref.Bad(); b != "" {
			r.Fail(d+" reference", b, "", nil)
			return
		}
		var s *screen
		can := cancelled(v.cmd, ref.Files["out"], false)
		inner := func(x *run.Res) string {
			if b := can(x); b != "" {
				return b
			}
			if !x.Cancelled && v.cmd != "rewritenodes" && v.cmd != "relindex" && stdoutLines(x.Stdout) != stdoutLines(ref.Stdout) {
				return "prints something else: " + run.Diff(x.Stdout, ref.Stdout)
			}
			return ""
		}
		fn(d, shown(e.one(v.cmd, e.args(v.cmd, w, v.extra...)), a, &s, w, len(f)), shownCheck(&s, inner))
		if s == nil || r.Stop() || r.Late(d) || r.Replay != "" {
			return
		}
		if full && len(a.evs) == 0 { // some moment shows these
			for _, want := range []string{"] Processing PBF", "Worker: ", "Writer: "} {
				ok := false
				for f := range s.frames {
					ok = ok || strings.Contains(f, want)
				}
				if !ok {
					r.Fail(d, fmt.Sprintf("at no moment is there a line with %q", want), "", nil)
				}
			}
		}
		if n := os.Getenv("ZZ_FRAMES"); n != "" {
			fh, _ := os.OpenFile(n, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
			for f := range s.frames {
				fmt.Fprintf(fh, "%s\n%s--\n", d, f)
			}
			fh.Close()
		}
	}
	// every position of what comes from outside in priority schedules
	sweep := func(r *vlib.R, w int, a act, full bool) run.Sweep {
		s := run.Sweep{Threads: w + 8, Bases: []int{0, 1, 3, 5, 7}, EvStride: r.Pick(3, 1), Events: [][]int{{0}}}
		if len(a.evs) > 0 {
			s.Events = append(s.Events, []int{1}) // 0 is the user then, 1 the clock
		}
		if full {
			s.EvStride = r.Pick(6, 2)
			s.Bases = []int{0, 1}
			s.Events = [][]int{{0, 0}}
			if len(a.evs) > 0 {
				s.Events = [][]int{{0, 1}, {1, 0}}
			}
		}
		return s
	}
	vlib.Register("C30.events", func(r *vlib.R) {
		vtime.Ticks = 1
		for _, name := range []string{"mixed", "headeronly"} {
			for _, v := range variants() {
				for _, a := range acts() {
					for _, w := range []int{1, 2} {
						on(r, name, run.ByName(name), v, w, a, false, func(d string, one run.One, ck run.Check) {
							run.Prio(r, d, sweep(r, w, a, false), one, ck)
						})
					}
				}
			}
		}
	})
	vlib.Register("C30.pairs", func(r *vlib.R) {
		vtime.Ticks = 2
		for _, a := range acts() {
			for _, v := range variants() {
				on(r, "multi3", run.Multi(3, true), v, 2, a, true, func(d string, one run.One, ck run.Check) {
					run.Prio(r, d, sweep(r, 2, a, true), one, ck)
				})
			}
		}
	})
	vlib.Register("C30.changes", func(r *vlib.R) {
		vtime.Ticks = 3
		zzs.EnvFree = true
		for _, v := range variants() {
			for _, a := range acts() {
				on(r, "multi3", run.Multi(3, true), v, 2, a, false, func(d string, one run.One, ck run.Check) {
					s := run.Sweep{Threads: 10, Changes: 1, Stride: r.Pick(4, 1)}
					if !r.Thorough() {
						s.Bases = []int{0, 1, 3, 6}
					}
					run.Prio(r, d, s, one, ck)
				})
			}
		}
	})
	vlib.Register("C30.dfs", func(r *vlib.R) {
		vtime.Ticks = 1
		for i, v := range variants() {
			for j, a := range acts()[:3] {
				runs := 0
				if j > 0 && !r.Thorough() {
					if i > 0 {
						continue
					}
					runs = 12000
				}
				on(r, "multi1", run.Multi(1, false), v, 1, a, false, func(d string, one run.One, ck run.Check) {
					run.DFS(r, d, false, runs, one, ck)
				})
			}
		}
	})
	// the display changes from pass to pass
	vlib.Register("C30.passes", func(r *vlib.R) {
		vtime.Ticks = 2
		zzs.EnvFree = true
		passes(r, acts(), func(d string, one run.One, ref string, a act, w int) {
			var s *screen
			run.Prio(r, d, run.Sweep{Threads: w + 8, Bases: []int{0, 1, 3, 5, 7}, Changes: 1, Stride: r.Pick(60, 4)}, shown(one, a, &s, w, 4), shownCheck(&s, cancelled("rewritenodes", ref, true)))
		})
	})
	// more ticks and keys than there is room for in the queue of events
	vlib.Register("C30.crowd", func(r *vlib.R) {
		zzs.EnvFree = true
		for _, a := range []act{acts()[0], acts()[1], {"twelve letters", many(12), false}} {
			for _, ticks := range []int{0, 12, 25} {
				d := fmt.Sprintf("the display alone with %d ticks, 3 passes and %s", ticks, a.name)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				vtime.Ticks = ticks
				dir := filepath.Join(r.Scratch, "d")
				run.Fresh(dir, nil)
				var s *screen
				one := func(o run.Opt) *run.Res { return run.Func(r, dir, o, func() { alone(3) }, []string{"alone"}) }
				run.Prio(r, d, run.Sweep{Threads: 8, Changes: 1, Stride: r.Pick(2, 1)}, shown(one, a, &s, 0, 0), shownCheck(&s, func(x *run.Res) string { return x.Bad() }))
			}
		}
	})
	// the display alone, with something that changes under its hands
	vlib.Register("C30.alone", func(r *vlib.R) {
		for _, ticks := range []int{0, 1, 2} {
			for _, a := range acts() {
				for _, n := range []int{0, 1, 2, 3} {
					if !r.Thorough() && n+ticks+len(a.evs) > 2 {
						continue
					}
					d := fmt.Sprintf("the display alone with %d ticks, %d passes and %s", ticks, n, a.name)
					if !run.Mine(r, d) || r.Stop() || r.Late(d) {
						continue
					}
					vtime.Ticks = ticks
					dir := filepath.Join(r.Scratch, "d")
					run.Fresh(dir, nil)
					var s *screen
					one := func(o run.Opt) *run.Res { return run.Func(r, dir, o, func() { alone(n) }, []string{"alone"}) }
					run.DFS(r, d, false, 0, shown(one, a, &s, 0, 0), shownCheck(&s, func(x *run.Res) string { return x.Bad() }))
				}
			}
		}
	})
}

type work struct {
	tracker.WorkerTracker
	n int
}

func (w *work) WriterState() interface{} { return w }

// alone is a main function that only has a display.
func alone(passes int) {
	ctx, cancel := vcontext.WithCancel(vcontext.Background())
	u := ui.NewUI(vtime.Second, cancel)
	line := func(interface{}) views.Widget {
		var l *widget.WidgetCommonLine
		l = widget.NewWidgetCommonLine(func() { l.SetText("line") })
		return l
	}
	w := &work{}
	for i := 0; i < passes && !icontext.IsCancelled(ctx); i++ {
		pfs := &pbf.ProcessFileState{}
		u.ReplaceWidgets(
			widget.NewPassProgress(uint64(i), uint64(passes), pfs),
			widget.NewProcessFileStateWidget("Alone", pfs),
			widget.NewWidgetCmd(w, line, line),
		)
		if i < 2 {
			done := make(chan struct{})
			zzs.Go(func() {
				w.TrackWorker(&done)
				w.UntrackWorker(&done)
				zzs.Close(0, done)
			})
			zzs.Recv(0, done)
		}
	}
	u.Stop()
}
