// Package uicmds checks the progress lines of the commands.
package uicmds

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"zz.local/zz/vlib"

	nistate "github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	niwidget "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	rnstate "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/state"
	rnwidget "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	wistate "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/state"
	wiwidget "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/ui"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// inner is the text of a line.
func inner(w interface{}) *views.SimpleStyledText {
	if t, ok := w.(*views.SimpleStyledText); ok {
		return t
	}
	return reflect.ValueOf(w).Elem().FieldByName("SimpleStyledText").Interface().(*views.SimpleStyledText)
}

func shows(w interface{}) string { return inner(w).Text.Text() }

func reversed(s tcell.Style) bool {
	_, _, a := s.Decompose()
	return a&tcell.AttrReverse != 0
}

// padded is text padded with blanks to a width.
func padded(text string, w int) []rune {
	r := []rune(text)
	for len(r) < w {
		r = append(r, ' ')
	}
	return r
}

// judge compares what a line shows with the text it is for.
func judge(l views.Widget, text string, w int, pct float64) string {
	want := padded(text, w)
	if got := shows(l); got != string(want) {
		return fmt.Sprintf("it shows %q, not %q", got, string(want))
	}
	return marked(l, want, w, pct)
}

// marked judges the highlighted part of a line.
func marked(l views.Widget, line []rune, w int, pct float64) string {
	n := 0
	for i := range line {
		if reversed(inner(l).StyleAt(i)) {
			if n < i {
				return fmt.Sprintf("the highlighted part of %q is not a prefix", string(line))
			}
			n++
		}
	}
	if math.IsNaN(pct) {
		return ""
	}
	want := int(math.Floor(float64(w) * math.Max(0, math.Min(1, pct))))
	if want < len(line) && n != want {
		return fmt.Sprintf("%d of %q are highlighted, not %d", n, string(line), want)
	}
	return ""
}

// on draws a widget on a simulated screen, in a view of a given width.
func on(wd views.Widget, w int, f func(s tcell.SimulationScreen)) {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		panic(err)
	}
	defer s.Fini()
	s.SetSize(w+5, 2)
	wd.SetView(views.NewViewPort(s, 0, 0, w, 1))
	f(s)
}

// drawn is the first row of a screen, as far as the view goes.
func drawn(wd views.Widget, s tcell.SimulationScreen, w int) string {
	wd.Draw()
	s.Show()
	cells, _, _ := s.GetContents()
	t := ""
	for x := 0; x < w; x++ {
		t += string(cells[x].Runes)
	}
	return t
}

// visible compares the screen with the line.
func visible(wd views.Widget, s tcell.SimulationScreen, w int, text string) string {
	want := string(padded(text, w)[:w])
	if got := drawn(wd, s, w); got != want {
		return fmt.Sprintf("the screen shows %q, not %q", got, want)
	}
	return ""
}

func init() {
	// the lines of the commands that show progress
	vlib.Register("C25.cmds", func(r *vlib.R) {
		type prog struct {
			name string
			make func(at, max uint64) views.Widget
		}
		progs := []prog{
			{"nodeindex", func(at, max uint64) views.Widget {
				st := &nistate.Writer{}
				st.SetStateCopyLocations(max)
				st.AdvanceCopy(at)
				return niwidget.NewWidgetStateWriter(st)
			}},
			{"wayindex", func(at, max uint64) views.Widget {
				st := &wistate.Writer{}
				st.SetStateCopyLocations(int64(max))
				st.AdvanceCopy(at)
				return wiwidget.NewWidgetStateWriter(st)
			}},
			{"rewritenodes", func(at, max uint64) views.Widget {
				st := &rnstate.Worker{}
				st.SetStateDecoding(7)
				st.SetStateWorking(int(max))
				for i := uint64(0); i < at; i++ {
					st.NextWay()
				}
				return rnwidget.NewWidgetStateWorker(st)
			}},
		}
		for _, p := range progs {
			for w := 1; w <= r.Pick(90, 200); w++ {
				d := fmt.Sprintf("the line of %s, width %d", p.name, w)
				if !r.Case(d) {
					continue
				}
				for max := uint64(0); max <= 13; max++ {
					for at := uint64(0); at <= max; at++ {
						k := fmt.Sprintf("%s %d/%d width %d", p.name, at, max, w)
						bad := vlib.Guard(func() {
							l := p.make(at, max)
							on(l, w, func(s tcell.SimulationScreen) {
								l.HandleEvent(ui.NewEventUpdate())
								text := strings.TrimRight(shows(l), " ")
								bad := judge(l, text, w, float64(at)/float64(max))
								if bad == "" && !strings.Contains(text, fmt.Sprintf("%d/%d", at, max)) {
									bad = fmt.Sprintf("%q lacks %d/%d", text, at, max)
								}
								if bad == "" {
									bad = visible(l, s, w, text)
								}
								if bad != "" {
									r.Fail(k, bad, "", nil)
								}
							})
						})
						if bad != "" {
							r.Fail(k, bad, "", nil)
						}
						r.Res.Transitions++
					}
				}
				r.Nontrivial(d)
			}
		}
	})
}
