// Package poolx checks the buffer pool: every short history of one user, every
// interleaving of several.
package poolx

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"unsafe"

	"zz.local/zz/vlib"
	"zz.local/zz/vsync"
	"zz.local/zz/zzs"

	"github.com/squizzling/osmindex/internal/pool"
	_ "github.com/squizzling/osmindex/internal/zzv/zzsites"
)

var tb *testing.T

func TestZZ(t *testing.T) {
	tb = t
	if rc := vlib.Main(); rc != 0 {
		os.Exit(rc)
	}
}

// span is the memory behind a slice, up to its capacity: users may write there.
type span struct{ lo, hi uintptr }

func spanOf(b []byte) span {
	if cap(b) == 0 {
		return span{}
	}
	p := uintptr(unsafe.Pointer(&b[:1][0]))
	return span{p, p + uintptr(cap(b))}
}

func (s span) meets(t span) bool { return s.lo < t.hi && t.lo < s.hi }

// books keeps who has what.
type books struct {
	out     map[int]pool.BorrowedBuffer
	foreign [][]byte
	n       int
}

func (k *books) got(b pool.BorrowedBuffer, sz uint64) (int, string) {
	if uint64(len(b.Buffer)) != sz {
		return 0, fmt.Sprintf("asked for %d bytes, got %d", sz, len(b.Buffer))
	}
	s := spanOf(b.Buffer)
	for i, o := range k.out {
		if s.meets(spanOf(o.Buffer)) {
			return 0, fmt.Sprintf("the buffer of %d bytes is still lent out as number %d (%d bytes)", sz, i, len(o.Buffer))
		}
	}
	for _, f := range k.foreign {
		if s.meets(spanOf(f)) {
			return 0, "handed out a buffer that was never borrowed"
		}
	}
	k.n++
	k.out[k.n] = b
	for i := range b.Buffer {
		b.Buffer[i] = byte(k.n)
	}
	return k.n, ""
}

// back takes buffer i out of the books; what its user wrote must still be there.
func (k *books) back(i int) (pool.BorrowedBuffer, string) {
	b := k.out[i]
	delete(k.out, i)
	for _, c := range b.Buffer {
		if c != byte(i) {
			return b, fmt.Sprintf("buffer %d was written to by someone else", i)
		}
	}
	return b, ""
}

type op struct {
	kind int // 0 get, 1 put, 2 put one that was not borrowed
	arg  int // size or number of the buffer
	pick int // which item the pool hands out: newest first, 9: a new one
}

func (o op) String() string {
	switch o.kind {
	case 0:
		return fmt.Sprintf("get(%d)/%d", o.arg, o.pick)
	case 1:
		return fmt.Sprintf("put(#%d)", o.arg)
	}
	return fmt.Sprintf("put(own %d)", o.arg)
}

// play runs a history; it says how many items the pool had to choose from at the last get.
func play(def uint64, h []op) (k *books, picks int, bad string) {
	k = &books{out: map[int]pool.BorrowedBuffer{}}
	p := pool.NewByteSlicePool(def)
	pick := 0
	vsync.PoolPick = func(n int) int {
		picks = n
		if pick >= n {
			return n
		}
		return n - 1 - pick
	}
	defer func() { vsync.PoolPick = nil }()
	for i, o := range h {
		m := vlib.Guard(func() {
			switch o.kind {
			case 0:
				pick = o.pick
				picks = 0
				b := p.Get(uint64(o.arg))
				_, bad = k.got(b, uint64(o.arg))
			case 1:
				var b pool.BorrowedBuffer
				if b, bad = k.back(o.arg); bad == "" {
					p.Put(b)
				}
			case 2:
				own := make([]byte, o.arg, o.arg+3)
				for j := range own {
					own[j] = 0x77
				}
				k.foreign = append(k.foreign, own)
				b := pool.NonBorrowedBuffer(own)
				if len(b.Buffer) != o.arg {
					bad = fmt.Sprintf("a wrapped buffer of %d bytes has %d", o.arg, len(b.Buffer))
				}
				p.Put(b)
				for _, c := range own {
					if c != 0x77 {
						bad = "a buffer that was not borrowed entered the pool"
					}
				}
			}
		})
		if m != "" {
			bad = m
		}
		if bad != "" {
			return k, picks, fmt.Sprintf("step %d: %s", i, bad)
		}
	}
	// what is still lent out is as its user left it
	for i := range k.out {
		if _, x := k.back(i); x != "" {
			return k, picks, "at the end: " + x
		}
	}
	return k, picks, ""
}

func init() {
	// every history of one user
	vlib.Register("C21.seq", func(r *vlib.R) {
		depth := r.Pick(6, 7)
		for _, def := range []uint64{0, 1, 4, 16} {
			sizes := []int{0, 1, 4, 5, 16, 17, 33}
			ok := true
			var rec func(d string, h []op)
			rec = func(d string, h []op) {
				if !ok {
					return
				}
				k, _, bad := play(def, h)
				r.Count("histories", 1)
				r.Res.States++
				if bad != "" {
					ok = false
					r.Fail(fmt.Sprintf("%s %v", d, h), bad, "", nil)
					return
				}
				if len(h) == depth {
					return
				}
				n := k.n
				live := map[int]bool{}
				items := 0
				for i := 1; i <= n; i++ {
					live[i] = true
				}
				for _, o := range h {
					if o.kind == 1 {
						live[o.arg] = false
						items++
					}
					if o.kind == 0 && o.pick < items {
						items--
					}
				}
				next := func(o op) { r.Res.Transitions++; rec(d, append(h[:len(h):len(h)], o)) }
				left := depth - len(h)
				for _, s := range sizes {
					if left > 1 || len(h) > 0 {
						for p := 0; p < items; p++ {
							next(op{0, s, p})
						}
						next(op{0, s, 9})
					}
				}
				if left == 1 {
					return // only a get can go wrong in the last step
				}
				for i := 1; i <= n; i++ {
					if live[i] {
						next(op{1, i, 0})
					}
				}
				if len(h) == 0 || h[len(h)-1].kind != 2 {
					next(op{2, 5, 0})
					next(op{2, 40, 0})
				}
			}
			for _, s := range sizes {
				for _, s2 := range append(sizes, -1, -2) {
					h := []op{{0, s, 9}}
					switch s2 {
					case -1:
						h = append(h, op{1, 1, 0})
					case -2:
						h = append(h, op{2, 40, 0})
					default:
						h = append(h, op{0, s2, 9})
					}
					d := fmt.Sprintf("pool of %d: histories that start with %v", def, h)
					if !r.Case(d) {
						continue
					}
					rec(d, h)
					if ok {
						r.Nontrivial(d)
					}
				}
			}
		}
	})

	// several users at once
	script := func(k *books, p *pool.ByteSlicePool, sizes []int, bad *string) func() {
		return func() {
			for _, s := range sizes {
				b := p.Get(uint64(s))
				zzs.PO(0, unsafe.Pointer(k))
				i, x := k.got(b, uint64(s))
				if x != "" {
					if *bad == "" {
						*bad = x
					}
					return
				}
				zzs.PO(0, unsafe.Pointer(k))
				b, x = k.back(i)
				if x != "" && *bad == "" {
					*bad = x
				}
				p.Put(b)
			}
		}
	}
	body := func(def uint64, ts [][]int, bad *string) func() {
		return func() {
			k := &books{out: map[int]pool.BorrowedBuffer{}}
			p := pool.NewByteSlicePool(def)
			for _, t := range ts[1:] {
				zzs.Go(script(k, p, t, bad))
			}
			script(k, p, ts[0], bad)()
		}
	}
	judge := func(o zzs.Outcome, bad string) string {
		switch {
		case bad != "":
			return bad
		case o.Crash != "":
			return "crash: " + o.Crash
		case o.Deadlock != "":
			return "deadlock: " + o.Deadlock
		case o.Leak != "":
			return "never ends: " + o.Leak
		}
		return ""
	}
	// all divisions of sizes over users
	cases := func(users, gets int, sizes []int, f func(ts [][]int)) {
		total := users * gets
		idx := make([]int, total)
		for {
			var ts [][]int
			for u := 0; u < users; u++ {
				var t []int
				for g := 0; g < gets; g++ {
					t = append(t, sizes[idx[u*gets+g]])
				}
				ts = append(ts, t)
			}
			sorted := true // users are alike
			for u := 1; u < users; u++ {
				if strings.Compare(fmt.Sprint(ts[u-1]), fmt.Sprint(ts[u])) > 0 {
					sorted = false
				}
			}
			if sorted {
				f(ts)
			}
			i := total - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < len(sizes) {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				return
			}
		}
	}
	explore := func(r *vlib.R, d string, def uint64, ts [][]int, picks func(n int) int, stmt bool, bound int) {
		if !r.Case(d) {
			return
		}
		vsync.PoolPick = picks
		defer func() { vsync.PoolPick = nil }()
		run := func(st zzs.Strategy, keep bool) (string, zzs.Outcome, []zzs.Step) {
			bad := ""
			o, tr := zzs.Run(tb, zzs.Config{Strategy: st, KeepTrace: keep}, body(def, ts, &bad))
			return judge(o, bad), o, tr
		}
		x := &zzs.Bounded{Bound: bound, Stmts: stmt}
		for x.Next() {
			if x.Runs%64 == 0 && r.Late("the schedules") {
				break
			}
			bad, o, _ := run(x, false)
			r.Res.Transitions += o.Steps
			if o.Diverged == 0 && bad != "" {
				_, _, tr := run(x.Again(), true)
				r.Fail(d+": "+bad, bad, zzs.FormatTrace(tr, 200), x.Path())
				break
			}
			r.Nontrivial(fmt.Sprintf("%s %d", d, x.Runs))
		}
		r.Res.Schedules += x.Runs
	}
	oldest := func(n int) int { return 0 }
	fresh := func(n int) int { return n }
	vlib.Register("C21.users", func(r *vlib.R) {
		for pi, pk := range []func(int) int{nil, oldest, fresh} {
			pn := []string{"newest", "oldest", "new"}[pi]
			for _, x := range []struct {
				users, gets, bound int
				sizes              []int
			}{{2, 1, 99, []int{0, 4, 5, 9}}, {2, 2, r.Pick(3, 6), []int{0, 4, 5, 9}}, {3, 1, r.Pick(3, 6), []int{0, 4, 5, 9}}, {3, 2, r.Pick(0, 3), []int{4, 5, 9}}} {
				cases(x.users, x.gets, x.sizes, func(ts [][]int) {
					explore(r, fmt.Sprintf("users %v, pool of 4, hands out the %s, up to %d preemptions", ts, pn, x.bound), 4, ts, pk, false, x.bound)
				})
			}
		}
	})
	vlib.Register("C21.stmt", func(r *vlib.R) {
		cases(2, r.Pick(1, 2), []int{4, 5, 9}, func(ts [][]int) {
			explore(r, fmt.Sprintf("users %v, pool of 4, every statement, up to 4 preemptions", ts), 4, ts, nil, true, 4)
		})
		cases(2, 2, []int{4, 9}, func(ts [][]int) {
			explore(r, fmt.Sprintf("users %v, pool of 4, every statement, few preemptions", ts), 4, ts, nil, true, r.Pick(2, 4))
		})
	})
}
