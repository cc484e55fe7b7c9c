// Package trackerx checks the registry of workers and the display of it.
package trackerx

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
	_ "github.com/squizzling/osmindex/internal/zzv/zzsites"
)

var tb *testing.T

func TestZZ(t *testing.T) {
	tb = t
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

type worker struct{ n int }

type provider struct {
	tracker.WorkerTracker
	writer worker
}

func (p *provider) WriterState() interface{} { return &p.writer }

// line is a widget of one line.
type line struct {
	views.Text
	w *worker
}

func (l *line) HandleEvent(ev tcell.Event) bool {
	if _, ok := ev.(*ui.EventUpdate); ok {
		l.SetText(fmt.Sprintf("worker %d", l.w.n))
	}
	return l.Text.HandleEvent(ev)
}

// shown lists the workers that have lines, with the line of each.
func shown(ww *tracker.WidgetWorkers) (map[*worker]*line, string) {
	m := map[*worker]*line{}
	for _, w := range ww.WorkerBox.Widgets() {
		l, ok := w.(*line)
		if !ok {
			return nil, fmt.Sprintf("a line of another kind: %T", w)
		}
		if m[l.w] != nil {
			return nil, fmt.Sprintf("worker %d has two lines", l.w.n)
		}
		m[l.w] = l
	}
	return m, ""
}

// listed compares the registry with the workers that are live.
func listed(p *provider, live []*worker) string {
	var a, b []int
	for _, s := range p.WorkerStates() {
		w, ok := s.(*worker)
		if !ok {
			return fmt.Sprintf("the registry lists a %T", s)
		}
		a = append(a, w.n)
	}
	for _, w := range live {
		b = append(b, w.n)
	}
	sort.Ints(a)
	sort.Ints(b)
	if fmt.Sprint(a) != fmt.Sprint(b) {
		return fmt.Sprintf("the registry lists %v, live are %v", a, b)
	}
	return ""
}

// refreshed judges the display after a refresh.
func refreshed(ww *tracker.WidgetWorkers, live []*worker, before map[*worker]*line) (map[*worker]*line, string) {
	m, bad := shown(ww)
	if bad != "" {
		return nil, bad
	}
	for _, w := range live {
		if m[w] == nil {
			return nil, fmt.Sprintf("worker %d has no line", w.n)
		}
		if l := before[w]; l != nil && l != m[w] {
			return nil, fmt.Sprintf("the line of worker %d was made anew", w.n)
		}
	}
	if len(m) != len(live) {
		return nil, fmt.Sprintf("%d lines for %d workers", len(m), len(live))
	}
	return m, ""
}

func newLine(s interface{}) views.Widget { return &line{w: s.(*worker)} }

// play runs a history: +n starts worker n, -n ends it, 0 refreshes.
func play(h []int) string {
	p := &provider{}
	ww := tracker.NewWidgetWorkers(p, newLine)
	ws := map[int]*worker{}
	alive := map[int]bool{}
	now := map[*worker]*line{}
	live := func() (l []*worker) {
		for n := range alive {
			l = append(l, ws[n])
		}
		return
	}
	for i, o := range h {
		v := p.Version()
		bad := vlib.Guard(func() {
			switch {
			case o > 0:
				if ws[o] == nil {
					ws[o] = &worker{o}
				}
				p.TrackWorker(ws[o])
				alive[o] = true
			case o < 0:
				p.UntrackWorker(ws[-o])
				delete(alive, -o)
				delete(now, ws[-o])
			}
		})
		if bad == "" && o != 0 && p.Version() == v {
			bad = "the version stays the same"
		}
		if bad == "" {
			bad = listed(p, live())
		}
		if bad == "" && o == 0 {
			if bad = vlib.Guard(ww.RefreshStates); bad == "" {
				now, bad = refreshed(ww, live(), now)
			}
		}
		if bad != "" {
			return fmt.Sprintf("step %d: %s", i, bad)
		}
	}
	return ""
}

// screen runs a history with the widget of the commands on a simulated screen.
func screen(h []int) string {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		return err.Error()
	}
	defer s.Fini()
	s.SetSize(30, 12)
	p := &provider{}
	wc := widget.NewWidgetCmd(p, newLine, func(s interface{}) views.Widget {
		t := views.NewText()
		t.SetText("writer")
		return t
	})
	wc.SetView(s)
	wc.Resize()
	ws := map[int]*worker{}
	alive := map[int]bool{}
	for i, o := range h {
		switch {
		case o > 0:
			if ws[o] == nil {
				ws[o] = &worker{o}
			}
			p.TrackWorker(ws[o])
			alive[o] = true
			continue
		case o < 0:
			p.UntrackWorker(ws[-o])
			delete(alive, -o)
			continue
		}
		// a box learns the size of its lines when it is laid out, and tells its
		// own box at the layout after that: the display settles in two ticks
		for tick := 0; tick < 2; tick++ {
			wc.HandleEvent(ui.NewEventUpdate())
			wc.Draw()
			s.Show()
		}
		var got, want []string
		cells, w, hh := s.GetContents()
		for y := 0; y < hh; y++ {
			t := ""
			for x := 0; x < w; x++ {
				t += string(cells[y*w+x].Runes)
			}
			if t = strings.TrimSpace(t); t != "" {
				got = append(got, t)
			}
		}
		for n := range alive {
			want = append(want, fmt.Sprintf("worker %d", n))
		}
		want = append(want, "writer")
		sort.Strings(got)
		sort.Strings(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("step %d: the screen shows %q, live are %q", i, got, want)
		}
	}
	return ""
}

// histories enumerates those of n workers, cut short at depth, ended by a refresh.
func histories(n, depth int, again bool, f func(h []int) bool) {
	var rec func(h []int) bool
	rec = func(h []int) bool {
		if !f(append(append([]int{}, h...), 0)) {
			return false
		}
		if len(h) == depth {
			return true
		}
		st := map[int]int{}
		for _, o := range h {
			if o > 0 {
				st[o] = 1
			} else if o < 0 {
				st[-o] = 2
			}
		}
		fresh := false
		for w := 1; w <= n; w++ {
			switch {
			case st[w] == 1:
				if !rec(append(h[:len(h):len(h)], -w)) {
					return false
				}
			case st[w] == 0 && !fresh: // unborn workers are alike
				fresh = true
				if !rec(append(h[:len(h):len(h)], w)) {
					return false
				}
			case st[w] == 2 && again:
				if !rec(append(h[:len(h):len(h)], w)) {
					return false
				}
			}
		}
		if len(h) > 0 && h[len(h)-1] != 0 {
			return rec(append(h[:len(h):len(h)], 0))
		}
		return true
	}
	rec(nil)
}

func init() {
	seq := func(part string, n, depth int, again bool, one func(h []int) string) func(r *vlib.R) {
		return func(r *vlib.R) {
			groups := map[string][][]int{}
			var order []string
			histories(n, depth, again, func(h []int) bool {
				k := h
				if len(k) > 4 {
					k = k[:4]
				}
				d := fmt.Sprintf("%s histories that start with %v", part, k)
				if groups[d] == nil {
					order = append(order, d)
				}
				groups[d] = append(groups[d], h)
				return true
			})
			for _, d := range order {
				if !r.Case(d) {
					continue
				}
				for _, h := range groups[d] {
					r.Count("histories", 1)
					r.Res.Transitions += len(h)
					if bad := one(h); bad != "" {
						r.Fail(fmt.Sprintf("%s %v", part, h), bad, "", nil)
						break
					}
				}
				r.Nontrivial(d)
			}
		}
	}
	vlib.Register("C22.seq", func(r *vlib.R) {
		seq("registry", 5, r.Pick(10, 11), false, play)(r)
		seq("registry, workers come back", 3, r.Pick(8, 9), true, play)(r)
	})
	vlib.Register("C22.screen", func(r *vlib.R) {
		seq("screen", 4, r.Pick(8, 9), false, screen)(r)
	})

	// interleavings of workers with a refreshing display
	type plan struct {
		ends      []bool // per worker: whether it ends
		refreshes int
	}
	run := func(pl plan, st zzs.Strategy, keep bool) (string, zzs.Outcome, []zzs.Step) {
		bad := ""
		note := func(s string) {
			if bad == "" {
				bad = s
			}
		}
		o, tr := zzs.Run(tb, zzs.Config{Strategy: st, KeepTrace: keep}, func() {
			p := &provider{}
			ww := tracker.NewWidgetWorkers(p, newLine)
			var live []*worker
			for i, e := range pl.ends {
				w, e := &worker{i}, e
				if !e {
					live = append(live, w)
				}
				zzs.Go(func() {
					p.TrackWorker(w)
					if e {
						p.UntrackWorker(w)
					}
				})
			}
			for i := 0; i < pl.refreshes; i++ {
				ww.RefreshStates()
				if _, x := shown(ww); x != "" {
					note(fmt.Sprintf("refresh %d: %s", i, x))
				}
			}
			end := func() {
				if x := listed(p, live); x != "" {
					note("at the end " + x)
				}
				before, _ := shown(ww)
				ww.RefreshStates()
				if _, x := refreshed(ww, live, before); x != "" {
					note("the last refresh: " + x)
				}
			}
			finish = end
		})
		switch {
		case bad != "":
		case o.Crash != "":
			bad = "crash: " + o.Crash
		case o.Deadlock != "":
			bad = "deadlock: " + o.Deadlock
		case o.Leak != "":
			bad = "never ends: " + o.Leak
		case o.Diverged == 0:
			if m := vlib.Guard(finish); m != "" {
				bad = "crash: " + m
			}
		}
		return bad, o, tr
	}
	explore := func(r *vlib.R, pl plan, stmt bool, bound int) {
		d := fmt.Sprintf("workers that end: %v, %d refreshes, statements=%v, up to %d preemptions", pl.ends, pl.refreshes, stmt, bound)
		if !r.Case(d) {
			return
		}
		x := &zzs.Bounded{Bound: bound, Stmts: stmt}
		for x.Next() {
			if x.Runs%64 == 0 && r.Late("the schedules") {
				break
			}
			bad, o, _ := run(pl, x, false)
			r.Res.Transitions += o.Steps
			if o.Diverged == 0 && bad != "" {
				_, _, tr := run(pl, x.Again(), true)
				r.Fail(d+": "+bad, bad, zzs.FormatTrace(tr, 200), x.Path())
				break
			}
			r.Nontrivial(fmt.Sprintf("%s %d", d, x.Runs))
		}
		r.Res.Schedules += x.Runs
	}
	plans := func(n int) (ps [][]bool) {
		for k := 0; k <= n; k++ {
			e := make([]bool, n)
			for i := 0; i < k; i++ {
				e[i] = true
			}
			ps = append(ps, e)
		}
		return
	}
	vlib.Register("C22.users", func(r *vlib.R) {
		for n := 1; n <= 3; n++ {
			for _, e := range plans(n) {
				for f := 1; f <= 3; f++ {
					explore(r, plan{e, f}, false, []int{0, 9, 4, r.Pick(2, 3)}[n])
				}
			}
		}
	})
	vlib.Register("C22.stmt", func(r *vlib.R) {
		for n := 1; n <= 2; n++ {
			for _, e := range plans(n) {
				for f := 1; f <= 2; f++ {
					explore(r, plan{e, f}, true, []int{0, r.Pick(3, 4), r.Pick(2, 3)}[n])
				}
			}
		}
	})
}

var finish func()
