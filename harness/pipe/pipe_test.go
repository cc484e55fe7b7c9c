// Package pipe explores the schedules of the real PBF pipeline.
package pipe

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"testing"

	"zz.local/zz/osmref"
	"zz.local/zz/vcontext"
	"zz.local/zz/vlib"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/pbf"
	_ "github.com/squizzling/osmindex/internal/zzv/zzsites"
)

var tb *testing.T

func TestZZ(t *testing.T) {
	tb = t
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// raw gives the bytes of a block whatever their named type.
func raw(d interface{}) ([]byte, bool) {
	v := reflect.ValueOf(d)
	if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
		return v.Bytes(), true
	}
	return nil, false
}

// blob makes a file of n small blobs; the first is a header.
type config struct {
	n       int
	workers int
	kind    int // 0: writer, 1: no writer, 2: workers leave blobs out of order on purpose (batching)
	big     int // index of a blob of another size
}

func (c config) String() string {
	return fmt.Sprintf("blobs=%d workers=%d kind=%d big=%d", c.n, c.workers, c.kind, c.big)
}

func (c config) types(i int) string {
	if i == 0 || (c.n > 3 && i == 2) {
		return "OSMHeader"
	}
	return "OSMData"
}

// blob i holds bytes nobody but the harness reads.
func (c config) body(i int) []byte {
	n := 3 + i%5
	if i == c.big {
		n = 300
	}
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(7*i + 13*j + 1)
	}
	return b
}

func (c config) file() []byte {
	var out []byte
	for i := 0; i < c.n; i++ {
		d := c.body(i)
		h := osmref.Field(nil, 1, []byte(c.types(i)))
		h = osmref.FieldV(h, 3, uint64(len(d)))
		out = append(out, byte(len(h)>>24), byte(len(h)>>16), byte(len(h)>>8), byte(len(h)))
		out = append(out, h...)
		out = append(out, d...)
	}
	return out
}

type run struct {
	got     []string // what workers got
	written []string
	wdone   int
	wstart  int
	wrote   bool
	closed  int
	pfs     *pbf.ProcessFileState
	obs     []string
	endAt   uint64
	endMax  uint64
	endSt   uint64
}

func tag(b pbf.Block) string {
	d, ok := raw(b.Data)
	if !ok {
		return fmt.Sprintf("%T", b.Data)
	}
	return fmt.Sprintf("%s:%x", b.BlobType, d)
}

type transformed struct{ s string }

func (r *run) work(c config) pbf.WorkFunc {
	return func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		r.wstart++
		for b, ok := zzs.Recv2(0, in); ok; b, ok = zzs.Recv2(0, in) {
			t := tag(b)
			r.got = append(r.got, t)
			if out == nil {
				continue
			}
			nb := pbf.Block{Index: b.Index, Data: transformed{t}, BlobType: b.BlobType}
			zzs.PS(0, out)
			out <- nb
			zzs.Q(0)
		}
		r.wdone++
	}
}

func (r *run) write(ctx context.Context, in <-chan pbf.Block) {
	for b, ok := zzs.Recv2(0, in); ok; b, ok = zzs.Recv2(0, in) {
		s := fmt.Sprintf("%T", b.Data)
		if x, ok := b.Data.(transformed); ok {
			s = x.s
		}
		r.written = append(r.written, s)
	}
	r.wrote = true
}

func (c config) body2(r *run, path string, cancelable bool) func() {
	return func() {
		ctx, cancel := vcontext.WithCancel(context.Background())
		var wf pbf.WriteFunc
		if c.kind != 1 {
			wf = r.write
		}
		r.pfs = pbf.ProcessFileAsync(ctx, path, r.work(c), wf, c.workers)
		r.pfs.Wait()
		r.endAt, r.endMax, r.endSt = r.pfs.At(), r.pfs.Max(), r.pfs.CurrentState()
		_ = cancel
	}
}

func multiset(s []string) string {
	t := append([]string{}, s...)
	sort.Strings(t)
	return strings.Join(t, " ")
}

// verdict compares one run with what the file says.
func (c config) verdict(r *run, o zzs.Outcome, want []string) string {
	switch {
	case o.Crash != "":
		return "crash: " + o.Crash
	case o.Deadlock != "":
		return "deadlock: " + o.Deadlock
	case o.Leak != "":
		return "goroutines left: " + o.Leak
	case o.Exit >= 0:
		return fmt.Sprintf("exit %d", o.Exit)
	}
	if r.wstart != c.workers || r.wdone != c.workers {
		return fmt.Sprintf("%d workers started, %d ended, of %d", r.wstart, r.wdone, c.workers)
	}
	if !o.Cancelled {
		if multiset(r.got) != multiset(want) {
			return fmt.Sprintf("workers got %v, not %v", r.got, want)
		}
		if c.kind != 1 && strings.Join(r.written, " ") != strings.Join(want, " ") {
			return fmt.Sprintf("writer got %v, not %v", r.written, want)
		}
	} else {
		if len(r.got) > len(want) || multiset(r.got) != multiset(want[:len(r.got)]) {
			return fmt.Sprintf("cancelled: workers got %v, no prefix of %v", r.got, want)
		}
		if c.kind != 1 && strings.Join(r.written, " ") != strings.Join(want[:len(r.got)], " ") {
			return fmt.Sprintf("cancelled: workers got %v, writer %v", r.got, r.written)
		}
	}
	if c.kind != 1 && !r.wrote {
		return "the writer had not ended when the run was reported done"
	}
	return ""
}

func (c config) want() []string {
	var w []string
	for i := 0; i < c.n; i++ {
		w = append(w, fmt.Sprintf("%s:%x", c.types(i), c.body(i)))
	}
	return w
}

// dfs explores every schedule of one configuration.
func dfs(r *vlib.R, c config, cancel bool, check func(*run, zzs.Outcome) string) {
	path := filepath.Join(r.Scratch, "in")
	vlib.MustWrite(path, c.file())
	x := zzs.NewDFS()
	desc := fmt.Sprintf("dfs %v cancel=%v", c, cancel)
	for x.Next() {
		if x.Runs%64 == 0 && r.Late(desc) {
			break
		}
		ru := &run{}
		r.Begin(desc)
		o, _ := zzs.Run(tb, zzs.Config{Strategy: x, Cancel: cancel}, c.body2(ru, path, cancel))
		r.Res.Divergences += o.Diverged
		r.Res.Steps += o.Steps
		if o.Diverged > 0 {
			continue
		}
		r.Outcome(strings.Join(ru.got, " ") + "|" + strings.Join(ru.written, " "))
		if bad := check(ru, o); bad != "" {
			p := x.Path()
			_, tr := zzs.Run(tb, zzs.Config{Strategy: x.Replay(), Cancel: cancel, KeepTrace: true}, c.body2(&run{}, path, cancel))
			r.Fail(desc+": "+bad, bad, zzs.FormatTrace(tr, 200), p)
			break
		}
		if c.n >= 2 {
			r.Nontrivial(fmt.Sprintf("%s %d", desc, x.Runs))
		}
	}
	r.Res.States += x.States
	r.Res.Transitions += x.Transitions
	r.Res.Schedules += x.Runs
	r.Count("configurations explored", 1)
}

// prio runs one priority schedule.
func prio(r *vlib.R, c config, path string, p *zzs.Prio, cancel bool, check func(*run, zzs.Outcome) string) (int, bool) {
	ru := &run{}
	desc := fmt.Sprintf("prio %v base=%d change=%v cancel=%d last=%v", c, p.Base, p.Change, p.CancelAt, p.PickLast)
	if r.Replay != "" && r.Replay != desc {
		p.Change = append([]int{}, p.Change...)
	}
	r.Begin(desc)
	p.Reset()
	o, _ := zzs.Run(tb, zzs.Config{Strategy: p, Cancel: cancel}, c.body2(ru, path, cancel))
	r.Res.Schedules++
	r.Res.Steps += o.Steps
	r.Res.Transitions += o.Steps
	if bad := check(ru, o); bad != "" {
		p.Reset()
		_, tr := zzs.Run(tb, zzs.Config{Strategy: p, Cancel: cancel, KeepTrace: true}, c.body2(&run{}, path, cancel))
		r.Fail(desc+": "+bad, bad, zzs.FormatTrace(tr, 200), nil)
		return o.Steps, false
	}
	r.Nontrivial(desc)
	return o.Steps, true
}

func c01check(c config) func(*run, zzs.Outcome) string {
	w := c.want()
	return func(ru *run, o zzs.Outcome) string { return c.verdict(ru, o, w) }
}

func init() {
	vlib.Register("C01.dfs", func(r *vlib.R) {
		var cs []config
		nmax := r.Pick(4, 5)
		for n := 1; n <= nmax; n++ {
			for w := 1; w <= 3; w++ {
				for kind := 0; kind < 2; kind++ {
					cs = append(cs, config{n: n, workers: w, kind: kind, big: n - 1})
				}
			}
		}
		cs = append(cs, config{n: 2, workers: 4, big: 1}, config{n: 3, workers: 4, big: 1})
		for _, c := range cs {
			if r.Replay != "" && r.Replay != fmt.Sprintf("dfs %v cancel=%v", c, false) {
				continue
			}
			if !r.Mine() && r.Replay == "" {
				continue
			}
			dfs(r, c, false, c01check(c))
			if r.Stop() {
				return
			}
		}
	})
	vlib.Register("C01.prio", func(r *vlib.R) {
		type job struct {
			c    config
			base int
		}
		var js []job
		for _, n := range []int{6, 40, 130, 300} {
			for _, w := range []int{1, 2, 3, 5} {
				c := config{n: n, workers: w, big: n / 2}
				for b := 0; b < 2+2*(w+4); b++ {
					js = append(js, job{c, b})
				}
			}
		}
		for _, j := range js {
			if !r.Mine() {
				continue
			}
			if r.Late("C01.prio") || r.Stop() {
				return
			}
			path := filepath.Join(r.Scratch, "in")
			vlib.MustWrite(path, j.c.file())
			ck := c01check(j.c)
			for _, last := range []bool{false, true} {
				steps, ok := prio(r, j.c, path, &zzs.Prio{Base: j.base, CancelAt: -1, PickLast: last}, false, ck)
				if !ok {
					break
				}
				if j.c.n > 6 && (last || !r.Thorough() && j.c.n > 40) {
					continue
				}
				stride := 1
				if j.c.n > 6 && !r.Thorough() {
					stride = 7
				}
				for s := j.base % stride; s < steps; s += stride {
					if _, ok := prio(r, j.c, path, &zzs.Prio{Base: j.base, Change: []int{s}, CancelAt: -1, PickLast: last}, false, ck); !ok {
						break
					}
					if s%64 == 0 && r.Late("C01.prio") {
						return
					}
				}
			}
		}
	})
}

func init() {
	// more blobs than 16 bits count, with all but one worker running, and each of them kept back
	vlib.Register("C01.long", func(r *vlib.R) {
		for _, n := range []int{3000, 70000} {
			for _, w := range []int{1, 2, 3} {
				c := config{n: n, workers: w, big: n / 2}
				for b := 0; b < 2+2*(w+4); b++ {
					if !r.Thorough() && n > 10000 && (w == 1 || b%2 == 1) {
						continue
					}
					if !r.Mine() {
						continue
					}
					if r.Late("C01.long") || r.Stop() {
						return
					}
					path := filepath.Join(r.Scratch, "in")
					vlib.MustWrite(path, c.file())
					ck := c01check(c)
					steps, ok := prio(r, c, path, &zzs.Prio{Base: b, CancelAt: -1}, false, ck)
					for _, at := range []int{steps / 2, steps - 100} {
						if ok && (n < 10000 || r.Thorough()) {
							_, ok = prio(r, c, path, &zzs.Prio{Base: b, Change: []int{at}, CancelAt: -1}, false, ck)
						}
					}
				}
			}
		}
	})
}

var _ = bytes.Equal
var _ = runtime.NumCPU

func init() {
	vlib.Register("C03.pipe", func(r *vlib.R) {
		var cs []config
		for n := 1; n <= r.Pick(3, 4); n++ {
			for w := 1; w <= r.Pick(2, 3); w++ {
				for kind := 0; kind < 2; kind++ {
					cs = append(cs, config{n: n, workers: w, kind: kind, big: n - 1})
				}
			}
		}
		for _, c := range cs {
			if r.Replay != "" && r.Replay != fmt.Sprintf("dfs %v cancel=%v", c, true) || !r.Mine() {
				continue
			}
			dfs(r, c, true, c01check(c))
			if r.Stop() {
				return
			}
		}
	})
}
