package run

import (
	"fmt"
	"os"
	"strings"
	"time"

	"zz.local/zz/vlib"
	"zz.local/zz/zzs"
)

// One runs a case once under the given options.
type One func(o Opt) *Res

// Check judges one run; "" is fine.
type Check func(x *Res) string

// Mine says whether this shard (or this replay) runs the case desc.
func Mine(r *vlib.R, desc string) bool {
	if r.Replay != "" {
		return strings.HasPrefix(r.Replay, desc)
	}
	return r.Mine()
}

// Once runs a case under the default schedule.
func Once(r *vlib.R, desc, key string, one One, check Check) bool {
	r.Begin(desc)
	x := one(Opt{})
	r.Res.Schedules++
	if bad := check(x); bad != "" {
		r.Fail(key, bad, "default schedule", nil)
		return false
	}
	r.Nontrivial(desc)
	return true
}

func fail(r *vlib.R, desc, bad string, tr []zzs.Step, path any) {
	r.Fail(desc+": "+bad, bad, zzs.FormatTrace(tr, 200), path)
}

// DFS explores every schedule of a case (maxRuns 0: no limit but time).
func DFS(r *vlib.R, desc string, cancel bool, maxRuns int, one One, check Check) bool {
	x := zzs.NewDFS()
	desc = fmt.Sprintf("%s | every schedule, cancel=%v", desc, cancel)
	ok := true
	start := time.Now()
	for x.Next() {
		if x.Runs%16 == 0 && r.Late(desc) {
			break
		}
		if maxRuns > 0 && x.Runs > maxRuns {
			r.Cap(fmt.Sprintf("%s: stopped after %d executions", desc, maxRuns))
			break
		}
		r.Begin(desc)
		res := one(Opt{Strategy: x, Cancel: cancel})
		r.Res.Divergences += res.Diverged
		if res.Diverged > 0 {
			continue
		}
		r.Outcome(res.Stdout)
		if bad := check(res); bad != "" {
			p := x.Path()
			tr := one(Opt{Strategy: x.Replay(), Cancel: cancel, Trace: true})
			fail(r, desc, bad, tr.Trace, p)
			ok = false
			break
		}
		r.Nontrivial(fmt.Sprintf("%s %d", desc, x.Runs))
	}
	if f := os.Getenv("ZZ_LOG"); f != "" {
		if fh, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(fh, "%s: %d executions %d states %d restarts %v\n", desc, x.Runs, x.States, x.Restarts, time.Since(start))
			_ = fh.Close()
		}
	}
	r.Res.States += x.States
	r.Res.Transitions += x.Transitions
	r.Res.Schedules += x.Runs
	r.Count("cases explored over all schedules", 1)
	return ok
}

// Sweep is a systematic set of priority schedules.
type Sweep struct {
	Bases    []int // base orders; nil: 0..2+2*Threads-1
	Threads  int
	Last     bool    // also taking the last ready case
	Changes  int     // number of change points, 0..2
	Stride   int     // distance between change points
	Points   int     // how many of them there are to be at most, each order; 0: as Stride says
	Cancel   int     // stride of the cancellation points, 0: none
	Stmts    int     // stride of statement preemptions, 0: none
	StmtFrom int     // where those begin
	Events   [][]int // the threads of the environment that act, one after the other, at every choice of steps
	EvStride int
	IO       bool // threads may also give way before they touch a file
	MaxSteps int  // do not place change points beyond this step (0: all)
}

// Bases lists the base orders for n threads.
func Bases(n int) []int {
	var b []int
	for i := 0; i < 2+2*n; i++ {
		b = append(b, i)
	}
	return b
}

// Prio runs the sweep.
func Prio(r *vlib.R, desc string, s Sweep, one One, check Check) bool {
	if s.Bases == nil {
		s.Bases = Bases(s.Threads)
	}
	if s.Stride < 1 {
		s.Stride = 1
	}
	n := 0
	late := func() bool {
		n++
		return n%16 == 0 && r.Late(desc)
	}
	exec := func(p *zzs.Prio) (*Res, bool) {
		d := fmt.Sprintf("%s | priorities base=%d change=%v stmt=%d cancel=%d last=%v events=%v", desc, p.Base, p.Change, p.StmtStop, p.CancelAt, p.PickLast, p.Env)
		if r.Replay != "" && r.Replay != desc && r.Replay != d && (len(p.Change) > 0 || p.StmtStop > 0 || len(p.Env) > 0) {
			return nil, true
		}
		r.Begin(d)
		p.Reset()
		cancel := p.CancelAt >= 0
		x := one(Opt{Strategy: p, Cancel: cancel, IO: s.IO})
		r.Res.Schedules++
		r.Res.Transitions += x.Steps
		if bad := check(x); bad != "" {
			p.Reset()
			tr := one(Opt{Strategy: p, Cancel: cancel, IO: s.IO, Trace: true})
			fail(r, d, bad, tr.Trace, nil)
			return x, false
		}
		r.Nontrivial(d)
		return x, true
	}
	lasts := []bool{false}
	if s.Last {
		lasts = append(lasts, true)
	}
	for _, b := range s.Bases {
		for _, last := range lasts {
			x, ok := exec(&zzs.Prio{Base: b, CancelAt: -1, PickLast: last})
			if !ok {
				return false
			}
			if late() {
				return true
			}
			steps, stmts := 0, 0
			if x != nil {
				steps, stmts = x.Steps, x.Stmts
			}
			if s.MaxSteps > 0 && steps > s.MaxSteps {
				steps = s.MaxSteps
			}
			stride := s.Stride
			if s.Points > 0 {
				stride = max(stride, steps/s.Points+1)
			}
			// (each order begins elsewhere: a stride may be in step with a loop)
			from := func(stride int) int {
				k := b
				if last {
					k += (stride + 1) / 2
				}
				return k % stride
			}
			if s.Changes >= 1 {
				for i := from(stride); i < steps; i += stride {
					if _, ok := exec(&zzs.Prio{Base: b, Change: []int{i}, CancelAt: -1, PickLast: last}); !ok {
						return false
					}
					if late() {
						return true
					}
					if s.Changes >= 2 {
						for j := i + 1; j < steps; j += stride {
							if _, ok := exec(&zzs.Prio{Base: b, Change: []int{i, j}, CancelAt: -1, PickLast: last}); !ok {
								return false
							}
							if late() {
								return true
							}
						}
					}
				}
			}
			if s.Cancel > 0 {
				for i := from(s.Cancel); i <= steps; i += s.Cancel {
					if _, ok := exec(&zzs.Prio{Base: b, CancelAt: i, PickLast: last}); !ok {
						return false
					}
					if late() {
						return true
					}
				}
			}
			for _, who := range s.Events {
				var at func(evs []zzs.EnvEvent, from int) bool
				at = func(evs []zzs.EnvEvent, from int) bool {
					if len(evs) == len(who) {
						_, fine := exec(&zzs.Prio{Base: b, CancelAt: -1, PickLast: last, Env: append([]zzs.EnvEvent{}, evs...)})
						ok = fine
						return fine && !late()
					}
					for i := from; i <= steps; i += max(s.EvStride, 1) {
						if !at(append(evs, zzs.EnvEvent{At: i, Who: who[len(evs)]}), i) {
							return false
						}
					}
					return true
				}
				if !at(nil, 0) {
					return ok
				}
			}
			if s.Stmts > 0 {
				for i := 1 + s.StmtFrom + from(s.Stmts); i <= stmts; i += s.Stmts {
					if _, ok := exec(&zzs.Prio{Base: b, StmtStop: i, CancelAt: -1, PickLast: last}); !ok {
						return false
					}
					if late() {
						return true
					}
				}
			}
		}
	}
	return true
}

// MineIn says whether a replay wants the case d; without one, every case runs.
func MineIn(r *vlib.R, d string) bool { return r.Replay == "" || r.Replay == d }
