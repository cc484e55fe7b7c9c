// Package vsync stands in for sync in instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"zz.local/zz/zzs"
)

type Locker = sync.Locker

// Mutex: Lock is a step that can be taken only when nobody holds it.
type Mutex struct {
	held bool
	real sync.Mutex
}

func (m *Mutex) Lock() {
	if !zzs.Active() {
		m.real.Lock()
		return
	}
	zzs.PWhen(1, unsafe.Pointer(m), func() bool { return !m.held })
	m.held = true
	zzs.Acquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if !zzs.Active() {
		return m.real.TryLock()
	}
	zzs.PO(1, unsafe.Pointer(m))
	if m.held {
		return false
	}
	m.held = true
	zzs.Acquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if !zzs.Active() {
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	zzs.Release(unsafe.Pointer(m))
	zzs.Event(2, unsafe.Pointer(m))
	m.held = false
}

type RWMutex struct {
	w, r int
	real sync.RWMutex
}

func (m *RWMutex) Lock() {
	if !zzs.Active() {
		m.real.Lock()
		return
	}
	zzs.PWhen(3, unsafe.Pointer(m), func() bool { return m.w == 0 && m.r == 0 })
	m.w = 1
	m.wrote()
}

func (m *RWMutex) wrote() {
	zzs.Acquire(unsafe.Pointer(&m.w))
	zzs.Acquire(unsafe.Pointer(&m.r))
}

func (m *RWMutex) Unlock() {
	if !zzs.Active() {
		m.real.Unlock()
		return
	}
	if m.w == 0 {
		panic("sync: Unlock of unlocked RWMutex")
	}
	zzs.Release(unsafe.Pointer(&m.w))
	zzs.Event(4, unsafe.Pointer(m))
	m.w = 0
}

func (m *RWMutex) RLock() {
	if !zzs.Active() {
		m.real.RLock()
		return
	}
	zzs.PWhen(3, unsafe.Pointer(m), func() bool { return m.w == 0 })
	m.r++
	zzs.Acquire(unsafe.Pointer(&m.w))
}

func (m *RWMutex) RUnlock() {
	if !zzs.Active() {
		m.real.RUnlock()
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	zzs.ReleaseMerge(unsafe.Pointer(&m.r))
	zzs.Event(4, unsafe.Pointer(m))
	m.r--
}

func (m *RWMutex) TryLock() bool {
	if !zzs.Active() {
		return m.real.TryLock()
	}
	zzs.PO(3, unsafe.Pointer(m))
	if m.w > 0 || m.r > 0 {
		return false
	}
	m.w = 1
	m.wrote()
	return true
}

func (m *RWMutex) TryRLock() bool {
	if !zzs.Active() {
		return m.real.TryRLock()
	}
	zzs.PO(3, unsafe.Pointer(m))
	if m.w > 0 {
		return false
	}
	m.r++
	zzs.Acquire(unsafe.Pointer(&m.w))
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup: Wait is a step that can be taken only when the count is zero.
// Done never disables or changes what another thread can do, except that it
// enables Wait, so it needs no decision of its own.
type WaitGroup struct {
	n     int
	gen   int  // how often n was back at 0
	wrote int  // 1 + the last gen somebody waited for
	waits byte // stands for the waiting as such
	real  sync.WaitGroup
}

func (w *WaitGroup) Add(d int) {
	if !zzs.Active() {
		w.real.Add(d)
		return
	}
	if d > 0 {
		zzs.PO(5, unsafe.Pointer(w))
	} else {
		zzs.ReleaseMerge(unsafe.Pointer(w))
		zzs.Merge(5, unsafe.Pointer(w), uint64(d))
	}
	if d > 0 && w.n == 0 { // as the real one: not while somebody waits
		zzs.RaceRead(unsafe.Pointer(&w.waits))
	}
	if w.n += d; w.n == 0 {
		w.gen++
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if !zzs.Active() {
		w.real.Wait()
		return
	}
	gen := -1
	zzs.PWhen(6, unsafe.Pointer(w), func() bool {
		if w.n > 0 { // it might have begun to wait now
			gen = w.gen
		}
		return w.n == 0
	})
	if gen >= 0 && w.wrote != gen+1 { // as the real one: who waits first
		w.wrote = gen + 1
		zzs.RaceWrite(unsafe.Pointer(&w.waits))
	}
	zzs.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	zzs.Go(func() {
		defer w.Done()
		f()
	})
}

// Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond.
type Cond struct {
	L     Locker
	waitq []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(bool)
	c.waitq = append(c.waitq, w)
	c.L.Unlock()
	zzs.PWhen(7, unsafe.Pointer(c), func() bool { return *w })
	zzs.Acquire(unsafe.Pointer(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	zzs.PO(7, unsafe.Pointer(c))
	zzs.ReleaseMerge(unsafe.Pointer(c))
	if len(c.waitq) > 0 {
		*c.waitq[0] = true
		c.waitq = c.waitq[1:]
	}
}

func (c *Cond) Broadcast() {
	zzs.PO(7, unsafe.Pointer(c))
	zzs.ReleaseMerge(unsafe.Pointer(c))
	for _, w := range c.waitq {
		*w = true
	}
	c.waitq = nil
}

// PoolPick, if set, chooses what a pool with n items hands out: one of them
// (0..n-1), or a new one (n).
var PoolPick func(n int) int

// Gentle makes pools keep nothing and overwrite nothing: what a program that
// keeps using a buffer after it has put it back does with this is what it does
// when it is lucky.
var Gentle bool

// Pool is sync.Pool as an adversary: it always hands out the item put back
// last (unless PoolPick chooses), to whichever thread asks, and what was in a returned byte slice is
// overwritten the moment it is put back.  All of this is allowed by sync.Pool.
type Pool struct {
	New   func() interface{}
	epoch uint64
	items []interface{}
}

func (p *Pool) sync() {
	if e := zzs.Epoch(); e != p.epoch {
		p.epoch = e
		p.items = nil
	}
}

// Twice counts what was put into a pool that had it already.
var Twice int

func overlaps(b []byte, x interface{}) bool {
	c, _ := x.([]byte)
	if v, ok := x.(*[]byte); ok && v != nil {
		c = *v
	}
	c = c[:cap(c)]
	if len(c) == 0 {
		return false
	}
	lo, clo := uintptr(unsafe.Pointer(&b[0])), uintptr(unsafe.Pointer(&c[0]))
	return lo < clo+uintptr(len(c)) && clo < lo+uintptr(len(b))
}

func (p *Pool) Get() interface{} {
	zzs.PO(8, unsafe.Pointer(p))
	p.sync()
	if Gentle {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if PoolPick != nil {
		if i := PoolPick(len(p.items)); i < len(p.items) {
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			zzs.Acquire(data(x))
			return x
		}
	} else if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		zzs.Acquire(data(x))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	zzs.PO(8, unsafe.Pointer(p))
	p.sync()
	if Gentle {
		return
	}
	zzs.ReleaseMerge(data(x))
	var b []byte
	switch v := x.(type) {
	case []byte:
		b = v
	case *[]byte:
		if v != nil {
			b = *v
		}
	}
	b = b[:cap(b)]
	for i := range b {
		b[i] = 0xA5
	}
	for _, y := range p.items {
		if len(b) > 0 && overlaps(b, y) {
			Twice++
		}
	}
	p.items = append(p.items, x)
}

// Map.
type Map struct{ m sync.Map }

func (m *Map) at() { zzs.PO(8, unsafe.Pointer(m)) }

func (m *Map) Load(k any) (any, bool)           { m.at(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { m.at(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { m.at(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { m.at(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { m.at(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { m.at(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { m.at(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { m.at(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { m.at(); m.m.Range(f) }
func (m *Map) Clear()                           { m.at(); m.m.Clear() }

// data is the address of what is in an interface.
func data(x interface{}) unsafe.Pointer {
	return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1]
}
