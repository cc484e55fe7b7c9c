// Package zzself has small programs, right and wrong, to test the scheduler and the race mode with.
package zzself

import (
	"context"
	"sync"
	"sync/atomic"
)

// Case is a program; Racy: some schedule has a data race.
type Case struct {
	Name string
	Racy bool
	F    func()
}

var lazy map[string]int

var (
	once  sync.Once
	table map[string]int
	seen  sync.Map
	cache = map[string]*int{}
	mu    sync.Mutex
)

func get() map[string]int {
	once.Do(func() { table = map[string]int{"a": 1} })
	return table
}

func lazily() int {
	if lazy == nil {
		lazy = map[string]int{"a": 1}
	}
	return lazy["a"]
}

// two runs both at the same time and waits.
func two(a, b func()) {
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a() }()
	go func() { defer wg.Done(); b() }()
	wg.Wait()
}

func Cases() []Case {
	var l []Case
	ok := func(n string, f func()) { l = append(l, Case{n, false, f}) }
	racy := func(n string, f func()) { l = append(l, Case{n, true, f}) }

	racy("plain", func() { x := 0; two(func() { x++ }, func() { x++ }) })
	racy("read and write", func() { x := 0; two(func() { x++ }, func() { _ = x + 1 }) })
	ok("reads", func() { x, s := 1, [2]int{}; two(func() { s[0] = x }, func() { s[1] = x }); x = s[0] + s[1] })
	racy("map", func() { m := map[int]int{}; two(func() { m[1] = 1 }, func() { m[2] = 2 }) })
	racy("slice elements", func() { m := make([]int, 3); two(func() { m[1] = 1 }, func() { m[1] = 2 }) })
	ok("different elements", func() { m := make([]byte, 3); two(func() { m[1] = 1 }, func() { m[2] = 2 }) })
	racy("copy", func() {
		m := make([]byte, 30)
		two(func() { copy(m, "abc") }, func() { copy(m[2:], "abc") })
	})
	ok("mutex", func() {
		var m sync.Mutex
		x := 0
		f := func() { m.Lock(); x++; m.Unlock() }
		two(f, f)
	})
	ok("trylock", func() {
		var m sync.Mutex
		x := 0
		f := func() {
			if m.TryLock() {
				x++
				m.Unlock()
			}
		}
		two(f, f)
	})
	racy("mutex on one side", func() {
		var m sync.Mutex
		x := 0
		two(func() { m.Lock(); x++; m.Unlock() }, func() { x++ })
	})
	racy("write under rlock", func() {
		var m sync.RWMutex
		x := 0
		f := func() { m.RLock(); x++; m.RUnlock() }
		two(f, f)
	})
	ok("rwmutex", func() {
		var m sync.RWMutex
		x := 0
		two(func() { m.Lock(); x++; m.Unlock() }, func() { m.RLock(); _ = x + 1; m.RUnlock() })
	})
	ok("rlocker", func() {
		var m sync.RWMutex
		x := 0
		two(func() { m.Lock(); x++; m.Unlock() }, func() { m.RLocker().Lock(); _ = x + 1; m.RLocker().Unlock() })
	})
	ok("channel", func() {
		x, c := 0, make(chan int)
		two(func() { x = 1; c <- 1 }, func() { <-c; x++ })
	})
	ok("channel the other way", func() { // unbuffered: the receive is before the send ends
		x, c := 0, make(chan int)
		two(func() { c <- 1; x = 1 }, func() { x++; <-c })
	})
	racy("buffered the other way", func() {
		x, c := 0, make(chan int, 1)
		two(func() { c <- 1; x = 1 }, func() { x++; <-c })
	})
	ok("buffered", func() {
		x, c := 0, make(chan int, 1)
		two(func() { x = 1; c <- 1 }, func() { <-c; x++ })
	})
	ok("buffer as a semaphore", func() {
		x, c := 0, make(chan int, 1)
		f := func() { c <- 1; x++; <-c }
		two(f, f)
	})
	racy("semaphore of two", func() {
		x, c := 0, make(chan int, 2)
		f := func() { c <- 1; x++; <-c }
		two(f, f)
	})
	racy("after the send", func() {
		x, c := 0, make(chan int, 1)
		two(func() { c <- 1; x = 1 }, func() { <-c; x++ })
	})
	ok("close", func() {
		x, c := 0, make(chan int)
		two(func() { x = 1; close(c) }, func() { <-c; x++ })
	})
	ok("close and two values", func() {
		x, c := 0, make(chan int)
		two(func() { x = 1; close(c) }, func() {
			if _, ok := <-c; !ok {
				x++
			}
		})
	})
	ok("range", func() {
		x, c := 0, make(chan *int)
		two(func() { c <- &x; c <- &x; x++; close(c) }, func() {
			for range c {
			}
			x++
		})
	})
	ok("select", func() {
		x, c, d := 0, make(chan int), make(chan int)
		two(func() {
			x = 1
			select {
			case c <- 1:
			case <-d:
			}
		}, func() {
			select {
			case <-c:
			case d <- 1:
				return
			}
			x++
		})
	})
	ok("select with default", func() {
		x, c := 0, make(chan int, 1)
		two(func() {
			x = 1
			select {
			case c <- 1:
			default:
			}
		}, func() {
			select {
			case <-c:
				x++
			default:
			}
		})
	})
	racy("select with default, without looking", func() {
		x, c := 0, make(chan int, 1)
		two(func() {
			x = 1
			select {
			case c <- 1:
			default:
			}
		}, func() {
			select {
			case <-c:
			default:
			}
			x++
		})
	})
	ok("the go statement", func() {
		x, c := 1, make(chan int)
		x = 2
		go func() { x++; close(c) }()
		<-c
	})
	racy("after the go statement", func() {
		x, c := 1, make(chan int)
		go func() { x++; close(c) }()
		x = 2
		<-c
	})
	racy("the end of a goroutine orders nothing", func() {
		x, c := 1, make(chan int)
		go func() { close(c); x++ }()
		<-c
		x = 2
	})
	ok("wait group", func() {
		x := 0
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { x++; wg.Done() }()
		wg.Wait()
		x++
	})
	ok("wait group from inside", func() {
		x := [2]int{}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			wg.Add(1)
			go func() { x[0]++; wg.Done() }()
			x[1]++
			wg.Done()
		}()
		wg.Wait()
		x[0]++
		x[1]++
	})
	ok("wait group twice", func() {
		x := 0
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() { x++; wg.Done() }()
			wg.Wait()
			x++
		}
	})
	ok("two wait", func() {
		x, y := 0, [2]int{}
		var wg, all sync.WaitGroup
		wg.Add(1)
		all.Add(2)
		go func() { wg.Wait(); y[0] = x; all.Done() }()
		go func() { wg.Wait(); y[1] = x; all.Done() }()
		x++
		wg.Done()
		all.Wait()
	})
	racy("wait group used wrongly", func() {
		var wg sync.WaitGroup
		c := make(chan int)
		go func() { wg.Add(1); mu.Lock(); mu.Unlock(); wg.Done(); close(c) }()
		wg.Wait()
		wg.Add(1)
		wg.Done()
		<-c
	})
	racy("done too early", func() {
		x := 0
		var wg sync.WaitGroup
		wg.Add(1)
		go func() { wg.Done(); x++ }()
		wg.Wait()
		x++
	})
	ok("once", func() {
		var o sync.Once
		x, y := 0, [2]int{}
		two(func() { o.Do(func() { x = 1 }); y[0] = x }, func() { o.Do(func() { x = 2 }); y[1] = x })
	})
	ok("a global with once", func() { two(func() { _ = get()["a"] }, func() { _ = get()["a"] }) })
	racy("a global without once", func() { two(func() { lazily() }, func() { lazily() }) })
	ok("a global map with a mutex", func() {
		f := func() { mu.Lock(); cache["a"] = new(int); mu.Unlock() }
		two(f, f)
	})
	racy("a global map", func() { two(func() { cache["a"] = nil }, func() { _ = cache["a"] }) })
	ok("sync.Map", func() {
		f := func() {
			x := new(int)
			*x = 1
			if p, found := seen.LoadOrStore("a", x); found {
				_ = *p.(*int) + 1
			}
		}
		two(f, f)
	})
	ok("atomic", func() {
		var x int64
		f := func() { atomic.AddInt64(&x, 1); _ = atomic.LoadInt64(&x) }
		two(f, f)
	})
	ok("atomic types", func() {
		var x atomic.Int32
		var b atomic.Bool
		var v atomic.Value
		y := 0
		two(func() { y = 1; x.Store(1); b.Store(true); v.Store("a") }, func() {
			if x.Load() == 1 {
				y++
			}
			_ = b.Load()
			_ = v.Load()
		})
	})
	ok("atomic flag", func() {
		var x int32
		y := 0
		two(func() { y = 1; atomic.StoreInt32(&x, 1) }, func() {
			if atomic.LoadInt32(&x) == 1 {
				y++
			}
		})
	})
	ok("cas", func() {
		var x int32
		y := 0
		f := func() {
			if atomic.CompareAndSwapInt32(&x, 0, 1) {
				y++
				atomic.StoreInt32(&x, 0)
			}
		}
		two(f, f)
	})
	racy("a flag that is not looked at", func() {
		var x int32
		y := 0
		two(func() { y = 1; atomic.StoreInt32(&x, 1) }, func() { _ = atomic.LoadInt32(&x); y++ })
	})
	racy("atomic and plain", func() {
		var x int64
		two(func() { atomic.AddInt64(&x, 1) }, func() { _ = x + 1 })
	})
	ok("the result of an atomic addition", func() {
		var n int64
		x := [2]int{}
		sum := 0
		f := func(i int) func() {
			return func() {
				x[i] = 1
				if atomic.AddInt64(&n, 1) == 2 {
					sum = x[0] + x[1]
				}
			}
		}
		two(f(0), f(1))
		_ = sum
	})
	ok("cond", func() {
		var m sync.Mutex
		c := sync.NewCond(&m)
		ready, x := false, 0
		two(func() { x = 1; m.Lock(); ready = true; m.Unlock(); c.Broadcast() }, func() {
			m.Lock()
			for !ready {
				c.Wait()
			}
			m.Unlock()
			x++
		})
	})
	ok("pool", func() {
		p := sync.Pool{New: func() interface{} { return make([]byte, 8) }}
		f := func() { b := p.Get().([]byte); b[0]++; p.Put(b) }
		two(f, f)
	})
	ok("pool of pointers", func() {
		p := sync.Pool{New: func() interface{} { return new(int) }}
		f := func() { b := p.Get().(*int); *b++; p.Put(b) }
		two(f, f)
	})
	racy("after it was put back", func() {
		p := sync.Pool{New: func() interface{} { return make([]byte, 8) }}
		f := func() { b := p.Get().([]byte); p.Put(b); b[0]++ }
		two(f, f)
	})
	ok("context", func() {
		ctx, cancel := context.WithCancel(context.Background())
		x := 0
		two(func() { x = 1; cancel() }, func() { <-ctx.Done(); x++ })
	})
	ok("context error", func() {
		ctx, cancel := context.WithCancel(context.Background())
		x := 0
		two(func() { x = 1; cancel() }, func() {
			if ctx.Err() != nil {
				x++
			}
		})
	})
	ok("pipeline", func() {
		in, out := make(chan []int), make(chan []int)
		var wg sync.WaitGroup
		for i := 0; i < 2; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for b := range in {
					b[0]++
					out <- b
				}
			}()
		}
		go func() {
			for i := 0; i < 3; i++ {
				in <- []int{i}
			}
			close(in)
			wg.Wait()
			close(out)
		}()
		n := 0
		for b := range out {
			b[0]++
			n += b[0]
		}
	})
	racy("used after it was sent", func() {
		in, done := make(chan []int), make(chan int)
		go func() {
			for b := range in {
				b[0]++
			}
			close(done)
		}()
		for i := 0; i < 3; i++ {
			b := []int{i}
			in <- b
			b[0]++
		}
		close(in)
		<-done
	})
	return l
}

// MapForms iterates maps in every way the language has; it returns what it saw
// of a map with four keys, and whether everything else was right.
func MapForms() (order string, fine bool) {
	fine = true
	m := map[string]int{"a": 1, "b": 2, "c": 3, "d": 4}
	for k := range m {
		order += k
	}
	sum, n := 0, 0
	for _, v := range m {
		sum += v
	}
	for range m {
		n++
	}
	var k string
	var v int
	all := map[string]int{}
	for k, v = range m {
		all[k] = v
	}
	fine = fine && sum == 10 && n == 4 && len(all) == 4 && m[k] == v
	var field struct{ k string }
	for field.k, _ = range m {
	}
	for field.k = range m {
	}
	_, had := m[field.k]
	fine = fine && had
	// deletion, of what has been seen and of what has not
	seen := 0
	for k := range m {
		seen++
		delete(m, k)
		for x := range m {
			delete(m, x)
			break
		}
	}
	fine = fine && seen == 2 && len(m) == 0
	// labels, closures over the shared variable, nesting
	type key struct {
		a int
		b string
	}
	mm := map[key]map[interface{}]bool{{1, "x"}: {1: true, "s": true}, {1, "y"}: {2.5: false}, {0, "z"}: nil}
	count := 0
outer:
	for k, in := range mm {
		for i := range in {
			if i == 2.5 {
				continue outer
			}
			if k.a == 7 {
				break outer
			}
			count++
		}
	}
	fine = fine && count == 2
	var fs []func() int
	for i := range map[int]bool{1: true, 2: true} {
		fs = append(fs, func() int { return i })
	}
	fine = fine && fs[0]() == fs[1]() // one variable, as the module's language version has it
	ps := map[*int]int{new(int): 1, new(int): 2}
	psum := 0
	for p, x := range ps {
		psum += x + *p
	}
	var none map[string]bool
	for range none {
		fine = false
	}
	return order, fine && psum == 3
}
