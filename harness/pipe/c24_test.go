package pipe

import (
	"context"
	"fmt"
	"os"
	"path/filepath"

	"zz.local/zz/osmref"
	"zz.local/zz/vcontext"
	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/pbf"
)

// seen is one observation of the progress.
type seen struct {
	at, max, state uint64
}

type watched struct {
	obs   []seen
	end   *seen
	bound int
}

// watch is a pipeline with an observer that looks at most n times.
func (w *watched) body(c config, path string, n int) func() {
	return func() {
		var pfs *pbf.ProcessFileState
		over := false
		zzs.Go(func() { // the observer is thread 1
			for i := 0; i < n && !over; i++ {
				if pfs != nil {
					var s seen
					s.state = pfs.CurrentState()
					s.at = pfs.At()
					s.max = pfs.Max()
					w.obs = append(w.obs, s)
				}
				zzs.Q(0)
			}
		})
		ctx, cancel := vcontext.WithCancel(context.Background())
		_ = cancel
		ru := &run{}
		var wf pbf.WriteFunc
		if c.kind != 1 {
			wf = ru.write
		}
		work := ru.work(c)
		if c.n < 0 { // only the way of the blocks
			work = func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
				for b := range in {
					if out != nil {
						b.Data = nil
						out <- b
					}
				}
			}
			if wf != nil {
				wf = func(ctx context.Context, in <-chan pbf.Block) {
					for range in {
					}
				}
			}
		}
		p := pbf.ProcessFileAsync(ctx, path, work, wf, c.workers)
		pfs = p
		p.Wait()
		w.end = &seen{p.At(), p.Max(), p.CurrentState()}
		over = true
	}
}

func rank(s uint64) int {
	switch s {
	case pbf.ProcessFileStateInitializing:
		return 0
	case pbf.ProcessFileStateLoadingBlock, pbf.ProcessFileStateSendingBlock:
		return 1
	case pbf.ProcessFileStateShuttingDown:
		return 2
	}
	return 3
}

// verdict judges the observations of one run over a file of the given size.
func (w *watched) verdict(o zzs.Outcome, size uint64) string {
	switch {
	case o.Crash != "":
		return "crash: " + o.Crash
	case o.Deadlock != "":
		return "deadlock: " + o.Deadlock
	case w.end == nil:
		return "the run was never done"
	}
	all := append(append([]seen{}, w.obs...), *w.end)
	for i, s := range all {
		switch {
		case rank(s.state) > 2:
			return fmt.Sprintf("observation %d: state %d", i, s.state)
		case s.at > size:
			return fmt.Sprintf("observation %d: position %d of a file of %d bytes", i, s.at, size)
		case rank(s.state) > 0 && s.max != size:
			return fmt.Sprintf("observation %d: size %d of a file of %d bytes", i, s.max, size)
		}
		if i > 0 {
			if s.at < all[i-1].at {
				return fmt.Sprintf("observation %d: the position went back from %d to %d", i, all[i-1].at, s.at)
			}
			if rank(s.state) < rank(all[i-1].state) {
				return fmt.Sprintf("observation %d: the state went back from %d to %d", i, all[i-1].state, s.state)
			}
		}
	}
	if w.end.state != pbf.ProcessFileStateShuttingDown {
		return fmt.Sprintf("the state of a finished run is %d", w.end.state)
	}
	if !o.Cancelled && w.end.at != size {
		return fmt.Sprintf("a finished run ends at %d of %d", w.end.at, size)
	}
	return ""
}

// alternate lets the observer look after every step of the others.
type alternate struct {
	*zzs.Prio
	again bool
}

func (x *alternate) Choose(d *zzs.Decision) int {
	obs := -1
	var idx []int
	rest := *d
	rest.Choices = nil
	for i, c := range d.Choices {
		if c.Thread == 1 {
			obs = i
			continue
		}
		rest.Choices = append(rest.Choices, c)
		idx = append(idx, i)
	}
	only := true
	for _, c := range rest.Choices {
		only = only && c.Thread < 0
	}
	// an observation takes several steps: it goes on to its end
	if obs >= 0 && (only || d.Last != 1 || d.Exec.ThreadKind(1) != zzs.KQ) {
		return obs
	}
	return idx[x.Prio.Choose(&rest)]
}

func init() {
	one := func(r *vlib.R, desc string, c config, path string, size int, n int, st zzs.Strategy, cancel bool, reset func()) (int, int, bool) {
		w := &watched{}
		r.Begin(desc)
		reset()
		o, _ := zzs.Run(tb, zzs.Config{Strategy: st, Cancel: cancel}, w.body(c, path, n))
		r.Res.Schedules++
		r.Res.Transitions += o.Steps
		r.Count("observations", len(w.obs))
		if o.Diverged == 0 {
			if bad := w.verdict(o, uint64(size)); bad != "" {
				reset()
				_, tr := zzs.Run(tb, zzs.Config{Strategy: st, Cancel: cancel, KeepTrace: true}, (&watched{}).body(c, path, n))
				r.Fail(desc+": "+bad, bad, zzs.FormatTrace(tr, 200), nil)
				return 0, 0, false
			}
			r.Nontrivial(desc)
		}
		return o.Steps, o.Stmts, true
	}
	// the observer looks after every step of the pipeline
	sweep := func(r *vlib.R, part string, stmt bool) {
		ns := []int{1, 2, 3, 6, 20}
		if stmt {
			ns = []int{1, 2, 4}
		}
		for _, n := range ns {
			for _, w := range []int{1, 2, 3} {
				for kind := 0; kind < 2; kind++ {
					c := config{n: n, workers: w, kind: kind, big: n - 1}
					for base := 0; base < 2+2*(w+4); base++ {
						d := fmt.Sprintf("%s %v base=%d", part, c, base)
						if r.Replay != "" && len(r.Replay) >= len(d) && r.Replay[:len(d)] != d || r.Replay == "" && !r.Mine() {
							continue
						}
						if r.Stop() || r.Late(part) {
							return
						}
						f := c.file()
						path := filepath.Join(r.Scratch, "in")
						vlib.MustWrite(path, f)
						try := func(p *zzs.Prio) (int, int, bool) {
							p.Base = base
							dd := fmt.Sprintf("%s change=%v stmt=%d cancel=%d", d, p.Change, p.StmtStop, p.CancelAt)
							return one(r, dd, c, path, len(f), 20000, &alternate{Prio: p}, p.CancelAt >= 0, p.Reset)
						}
						steps, stmts, ok := try(&zzs.Prio{CancelAt: -1})
						if !ok {
							continue
						}
						st := 1
						if n > 3 {
							st = r.Pick(9, 2)
						}
						if stmt {
							for i := 1; i <= stmts && ok; i++ {
								_, _, ok = try(&zzs.Prio{CancelAt: -1, StmtStop: i})
							}
							continue
						}
						for i := 0; i < steps && ok; i += st {
							_, _, ok = try(&zzs.Prio{CancelAt: -1, Change: []int{i}})
						}
						for i := 0; i <= steps && ok; i += st {
							_, _, ok = try(&zzs.Prio{CancelAt: i})
						}
					}
				}
			}
		}
	}
	vlib.Register("C24.watch", func(r *vlib.R) { sweep(r, "C24.watch", false) })
	vlib.Register("C24.stmt", func(r *vlib.R) { sweep(r, "C24.stmt", true) })
	// files of gigabytes
	vlib.Register("C24.large", func(r *vlib.R) {
		path := filepath.Join(r.Scratch, "large")
		defer os.Remove(path)
		for _, stops := range [][]int64{{1<<31 - 1}, {1 << 31}, {1<<31 + 99}, {1<<32 - 1}, {1 << 32}, {1<<32 + 99}, {1 << 31, 1 << 32, 9 << 30}} {
			f := osmref.File(nil)
			for w := 1; w <= 3; w++ {
				for kind := 0; kind < 2; kind++ {
					for base := 0; base < r.Pick(4, 12); base++ {
						d := fmt.Sprintf("a file of %d bytes, %d workers, kind %d base=%d", stops[len(stops)-1], w, kind, base)
						if r.Replay != "" && r.Replay != d || r.Replay == "" && !r.Mine() || r.Stop() || r.Late("C24.large") {
							continue
						}
						if f == nil {
							var err error
							if f, err = osmref.Sparse(path, func(k int) osmref.Block { return osmref.Block{} }, 31<<20, stops...); err != nil {
								panic(err)
							}
						}
						p := &zzs.Prio{CancelAt: -1, Base: base}
						one(r, d, config{n: -1, workers: w, kind: kind}, path, int(stops[len(stops)-1]), 1000000, &alternate{Prio: p}, false, p.Reset)
					}
				}
			}
		}
	})
	// every interleaving with an observer that looks a few times
	vlib.Register("C24.dfs", func(r *vlib.R) {
		for n := 1; n <= r.Pick(2, 3); n++ {
			for w := 1; w <= 2; w++ {
				for kind := 0; kind < 2; kind++ {
					for _, cancel := range []bool{false, true} {
						looks := r.Pick(2, 3)
						if n == 1 {
							looks = 3
						} else if !r.Thorough() && w+kind*2 == 2 && cancel {
							continue
						}
						c := config{n: n, workers: w, kind: kind, big: n - 1}
						d := fmt.Sprintf("dfs %v looks=%d cancel=%v", c, looks, cancel)
						if r.Replay != "" && r.Replay != d || r.Replay == "" && !r.Mine() {
							continue
						}
						f := c.file()
						path := filepath.Join(r.Scratch, "in")
						vlib.MustWrite(path, f)
						x := zzs.NewDFS()
						for x.Next() {
							if x.Runs%64 == 0 && r.Late(d) {
								break
							}
							wa := &watched{}
							r.Begin(d)
							o, _ := zzs.Run(tb, zzs.Config{Strategy: x, Cancel: cancel}, wa.body(c, path, looks))
							r.Res.Divergences += o.Diverged
							if o.Diverged > 0 {
								continue
							}
							r.Outcome(fmt.Sprint(wa.obs))
							if bad := wa.verdict(o, uint64(len(f))); bad != "" {
								p := x.Path()
								_, tr := zzs.Run(tb, zzs.Config{Strategy: x.Replay(), Cancel: cancel, KeepTrace: true}, (&watched{}).body(c, path, looks))
								r.Fail(d+": "+bad, bad, zzs.FormatTrace(tr, 200), p)
								break
							}
							r.Nontrivial(fmt.Sprintf("%s %d", d, x.Runs))
						}
						r.Res.States += x.States
						r.Res.Transitions += x.Transitions
						r.Res.Schedules += x.Runs
						if r.Stop() {
							return
						}
					}
				}
			}
		}
	})
}
