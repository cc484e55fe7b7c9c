// Package uix checks what the progress lines show.
package uix

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

func TestZZ(t *testing.T) {
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// inner is the text of a line.
func inner(w interface{}) *views.SimpleStyledText {
	if t, ok := w.(*views.SimpleStyledText); ok {
		return t
	}
	return reflect.ValueOf(w).Elem().FieldByName("SimpleStyledText").Interface().(*views.SimpleStyledText)
}

func shows(w interface{}) string { return inner(w).Text.Text() }

func reversed(s tcell.Style) bool {
	_, _, a := s.Decompose()
	return a&tcell.AttrReverse != 0
}

// padded is text padded with blanks to a width.
func padded(text string, w int) []rune {
	r := []rune(text)
	for len(r) < w {
		r = append(r, ' ')
	}
	return r
}

// judge compares what a line shows with the text it is for.
func judge(l views.Widget, text string, w int, pct float64) string {
	want := padded(text, w)
	if got := shows(l); got != string(want) {
		return fmt.Sprintf("it shows %q, not %q", got, string(want))
	}
	return marked(l, want, w, pct)
}

// marked judges the highlighted part of a line.
func marked(l views.Widget, line []rune, w int, pct float64) string {
	n := 0
	for i := range line {
		if reversed(inner(l).StyleAt(i)) {
			if n < i {
				return fmt.Sprintf("the highlighted part of %q is not a prefix", string(line))
			}
			n++
		}
	}
	if math.IsNaN(pct) {
		return ""
	}
	want := int(math.Floor(float64(w) * math.Max(0, math.Min(1, pct))))
	if want < len(line) && n != want {
		return fmt.Sprintf("%d of %q are highlighted, not %d", n, string(line), want)
	}
	return ""
}

func texts(alpha []string, n int) []string {
	all := []string{""}
	for last, i := all, 0; i < n; i++ {
		var next []string
		for _, t := range last {
			for _, a := range alpha {
				next = append(next, t+a)
			}
		}
		all = append(all, next...)
		last = next
	}
	return all
}

func percentages(w int) []float64 {
	ps := []float64{-1, math.Inf(-1), -1e-300, 0, 1e-300, 0.5, 1, math.Nextafter(1, 0), math.Nextafter(1, 2), 2, 1e300, math.Inf(1), math.NaN()}
	for i := 1; i < w; i++ {
		p := float64(i) / float64(w)
		ps = append(ps, p, math.Nextafter(p, 0), math.Nextafter(p, 1), p+0.5/float64(w))
	}
	return ps
}

// on draws a widget on a simulated screen, in a view of a given width.
func on(wd views.Widget, w int, f func(s tcell.SimulationScreen)) {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		panic(err)
	}
	defer s.Fini()
	s.SetSize(w+5, 2)
	wd.SetView(views.NewViewPort(s, 0, 0, w, 1))
	f(s)
}

// drawn is the first row of a screen, as far as the view goes.
func drawn(wd views.Widget, s tcell.SimulationScreen, w int) string {
	wd.Draw()
	s.Show()
	cells, _, _ := s.GetContents()
	t := ""
	for x := 0; x < w; x++ {
		t += string(cells[x].Runes)
	}
	return t
}

// visible compares the screen with the line.
func visible(wd views.Widget, s tcell.SimulationScreen, w int, text string) string {
	want := string(padded(text, w)[:w])
	if got := drawn(wd, s, w); got != want {
		return fmt.Sprintf("the screen shows %q, not %q", got, want)
	}
	return ""
}

// pbfFile writes blobs that are never decompressed.
func pbfFile(path string, sizes ...int) {
	var b []byte
	for _, n := range sizes {
		h := append([]byte{0x0a, 7}, "OSMData"...)
		h = append(h, 0x18, byte(n))
		b = append(b, 0, 0, 0, byte(len(h)))
		b = append(b, h...)
		b = append(b, make([]byte, n)...)
	}
	vlib.MustWrite(path, b)
}

func init() {
	vlib.Register("C25.markup", func(r *vlib.R) {
		alpha := []string{"%", "S", "N", "a", " ", "é"}
		depth := r.Pick(5, 6)
		for _, head := range texts(alpha, 2) {
			d := fmt.Sprintf("texts that start with %q", head)
			if !r.Case(d) {
				continue
			}
			var tails []string
			if len([]rune(head)) < 2 {
				tails = []string{""}
			} else {
				tails = texts(alpha, depth-2)
			}
			for _, tail := range tails {
				text := head + tail
				for w := 0; w <= depth+3; w++ {
					for _, pct := range percentages(w) {
						l := views.NewSimpleStyledText()
						bad := vlib.Guard(func() { l.SetMarkup(ui.MarkupAsProgress(text, w, pct)) })
						if bad == "" {
							bad = judge(l, text, w, pct)
						}
						r.Res.Transitions++
						if bad != "" {
							r.Fail(fmt.Sprintf("%q width %d at %v", text, w, pct), bad, "", nil)
						}
					}
				}
				l := views.NewSimpleStyledText()
				l.SetMarkup(ui.EscapePercent(text))
				if shows(l) != text {
					r.Fail("escaped "+text, fmt.Sprintf("%q is shown as %q", text, shows(l)), "", nil)
				}
			}
			r.Nontrivial(d)
		}
	})

	// long lines and every width of a terminal
	vlib.Register("C25.wide", func(r *vlib.R) {
		bases := []string{"%", "é%", "100%S %N%%", "Processing PBF ä%ö.pbf: 12/345 3.5%", "a%b%c"}
		for _, b := range bases {
			for w := 0; w <= r.Pick(130, 300); w++ {
				if !r.Thorough() && w > 32 && w%8 > 1 {
					continue
				}
				d := fmt.Sprintf("%q repeated, width %d", b, w)
				if !r.Case(d) {
					continue
				}
				for n := 0; n <= 260; n += 1 + n/20 {
					text := string([]rune(strings.Repeat(b, n/len([]rune(b))+1))[:n])
					for _, pct := range percentages(w) {
						l := views.NewSimpleStyledText()
						bad := vlib.Guard(func() { l.SetMarkup(ui.MarkupAsProgress(text, w, pct)) })
						if bad == "" {
							bad = judge(l, text, w, pct)
						}
						r.Res.Transitions++
						if bad != "" {
							r.Fail(fmt.Sprintf("%q width %d at %v", text, w, pct), bad, "", nil)
							return
						}
					}
					if n > w+40 {
						break
					}
				}
				r.Nontrivial(d)
			}
		}
	})

	// the lines of the pipeline, for every name of a file
	vlib.Register("C25.lines", func(r *vlib.R) {
		large := []int64{1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1000, 5 << 30}
		names := texts([]string{"%", "S", "é", "x"}, r.Pick(3, 4))
		for i := 0; i < len(names)+len(large); i++ {
			name, blobs, every := "large", 4, 1
			if i < len(names) {
				name = names[i]
			}
			if name == "" {
				continue
			}
			name += ".pbf"
			d := "progress on " + name
			if i >= len(names) {
				d = fmt.Sprint(d, " of ", large[i-len(names)], " bytes")
			}
			if !r.Case(d) {
				continue
			}
			dir := r.Scratch
			path := filepath.Join(dir, name)
			if i < len(names) {
				pbfFile(path, 0, 1, 100, 40)
			} else {
				f, err := osmref.Sparse(path, func(k int) osmref.Block { return osmref.Block{} }, 31<<20, large[i-len(names)])
				if err != nil {
					panic(err)
				}
				blobs, every = len(f), 9
			}
			for _, w := range []int{1, 7, 20, 60, 100, 170} {
				bad := vlib.Guard(func() {
					stopped := make(chan int)
					seen := make(chan struct{})
					pfs := pbf.ProcessFileAsync(context.Background(), path, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
						for range in {
							stopped <- 1
							<-seen
						}
					}, nil, 1)
					var bad string
					look := func() {
						plain := widget.NewProcessFileStateWidget("a%b", pfs)
						full := widget.NewProcessFileStateWidget("a%b", pfs)
						on(full, w, func(s tcell.SimulationScreen) {
							for try := 0; try < 50; try++ {
								a1 := pfs.At()
								s1 := pfs.CurrentState()
								plain.HandleEvent(ui.NewEventUpdate())
								full.HandleEvent(ui.NewEventUpdate())
								if a1 != pfs.At() || s1 != pfs.CurrentState() {
									continue // the reader moved on meanwhile
								}
								text := shows(plain)
								switch {
								case !strings.Contains(text, path) || !strings.Contains(text, "a%b"):
									bad = fmt.Sprintf("%q lacks the name %q", text, path)
								case s1 == pbf.ProcessFileStateLoadingBlock || s1 == pbf.ProcessFileStateSendingBlock:
									if !strings.Contains(text, fmt.Sprintf("%d/%d", a1, pfs.Max())) {
										bad = fmt.Sprintf("%q lacks %d/%d", text, a1, pfs.Max())
									} else {
										bad = judge(full, text, w, float64(a1)/float64(pfs.Max()))
									}
								case strings.TrimRight(shows(full), " ") != text:
									bad = fmt.Sprintf("it shows %q, not %q", shows(full), text)
								}
								if bad == "" {
									bad = visible(full, s, w, text)
								}
								return
							}
						})
						if bad != "" {
							return
						}
						for count := uint64(1); count <= 3; count++ {
							for pass := uint64(0); pass < count && bad == ""; pass++ {
								plain := widget.NewPassProgress(pass, count, pfs).(*widget.PassProgress)
								full := widget.NewPassProgress(pass, count, pfs).(*widget.PassProgress)
								on(full, w, func(s tcell.SimulationScreen) {
									for try := 0; try < 50; try++ {
										a1 := pfs.At()
										plain.HandleEvent(ui.NewEventUpdate())
										full.HandleEvent(ui.NewEventUpdate())
										if a1 != pfs.At() {
											continue
										}
										text := shows(plain)
										of := (float64(pass) + float64(a1)/float64(pfs.Max())) / float64(count)
										if !strings.Contains(text, fmt.Sprintf("%d/%d", pass+1, count)) {
											bad = fmt.Sprintf("%q lacks %d/%d", text, pass+1, count)
										} else if f := of * float64(w); math.Abs(f-math.Round(f)) < 1e-9 {
											of = math.NaN() // too close to a cell to say which
										}
										if bad == "" {
											bad = judge(full, text, w, of)
										}
										if bad == "" {
											bad = visible(full, s, w, text)
										}
										return
									}
								})
							}
						}
					}
					for i := 0; i < blobs; i++ {
						<-stopped
						if i%every == 0 || i+3 > blobs {
							look()
						}
						seen <- struct{}{}
					}
					pfs.Wait()
					look()
					if bad != "" {
						r.Fail(fmt.Sprintf("%s width %d", d, w), bad, "", nil)
					}
				})
				if bad != "" {
					r.Fail(fmt.Sprintf("%s width %d", d, w), bad, "", nil)
				}
				r.Res.Transitions++
			}
			r.Nontrivial(d)
		}
	})
}
