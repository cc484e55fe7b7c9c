// Package zzs is a controlled scheduler for the real implementation.
//
// One execution runs inside a testing/synctest bubble.  Every goroutine of the
// program under test is a managed thread that parks before each operation on
// something shared; the scheduler (the bubble's root goroutine) waits until
// every other goroutine is durably blocked, works out which operations can go
// ahead, and lets exactly one happen.  A rendezvous on an unbuffered channel
// is one step of two threads.  All nondeterminism of the program (thread
// order, which ready case a select takes, who meets whom on a channel, what a
// pool hands out, when a cancel arrives) is decided by a Strategy, so an
// execution is a function of the choices made.
package zzs

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr
func where() uint64

type Kind uint8

const (
	KStart Kind = iota
	KP          // before an operation
	KQ          // after one that may have blocked
	KSel        // before a select
	KS          // at a statement
	KEnv        // the environment's cancel
)

func (k Kind) String() string { return [...]string{"start", "op", "after", "select", "stmt", "env"}[k] }

type opKind uint8

const (
	opNone  opKind = iota
	opObj          // an operation on one object; enab says whether it can go ahead
	opChan         // a send, a receive or a select
	opClose        // a close
)

type selCase struct {
	c    unsafe.Pointer
	send bool
}

type Thread struct {
	ID     int
	kind   Kind
	op     opKind
	site   int
	obj    unsafe.Pointer // opObj, opClose
	read   bool           // opObj: leaves the object as it is
	enab   func() bool    // opObj: nil is always
	sel    []selCase
	selDef bool
	isSel  bool
	pick   int
	hash   uint64
	loc    uint64 // where the operation is in the code
	local  bool   // nothing another thread does interferes with the operation
	parked bool
	done   bool
	noStop bool
	env    string // what outside the program it stands for, if anything
	wake   chan struct{}
}

// Choice is one enabled alternative at a decision.
type Choice struct {
	Thread int // -1: the environment cancels now
	Pick   int // select case
	With   int // the sender of a rendezvous, -1: none
	Pick2  int // its select case
}

type Outcome struct {
	Crash     string // first panic, as the process would have died of it
	Stack     string
	Deadlock  string // description of the blocked threads
	Exit      int    // os.Exit code, -1 if not called
	MainDone  bool
	Leak      string // threads that never finished after main returned
	Steps     int    // decisions
	Eager     int    // steps that needed no decision
	Stmts     int    // statement points passed
	Threads   int
	Diverged  int
	Cancelled bool
	OwnCancel bool // the program cancelled itself
}

// Decision is what a Strategy sees: the enabled choices in canonical order.
type Decision struct {
	Step    int
	Choices []Choice
	Sig     uint64
	Last    int // id of the thread that ran last, -1
	Exec    *Exec
}

type Strategy interface {
	// Choose returns the index of the choice to take.
	Choose(d *Decision) int
	// Eager says whether threads parked at start/after-points run without a decision.
	Eager() bool
	// Learned holds what is known about which places in the code share objects
	// between threads; nil: every operation is a decision.
	Learned() *Learned
	// StopAtStmt returns the statement counter at which the running thread parks
	// (-1: never, EveryStmt: at each).
	StopAtStmt() int
}

const EveryStmt = -2

// Learned records which places in the code operate on objects several threads
// use.  Operations elsewhere commute with everything other threads do and need
// no decision.  When an object taken for local turns out to be shared, the
// exploration starts again (Restart).
type Learned struct {
	shared  *tab
	cancels bool // the program cancels its context itself
	Restart bool
}

type objInfo struct {
	owner *Thread // channels: the receiver; other objects: the user
	snd   *Thread // channels: the sender
	locs  []uint64
	comm  []*Thread // threads that made commutative updates
	local bool      // some operation was taken without a decision
}

type Exec struct {
	mu        sync.Mutex
	threads   []*Thread
	byG       tab
	strat     Strategy
	learn     *Learned
	info      tab
	out       Outcome
	objs      tab
	cancel    func()
	cancelObj unsafe.Pointer
	envOK     bool
	last      int
	stmts     int
	stopAt    int
	stopAll   bool
	dead      bool
	Trace     []Step
	KeepTrace bool
	epoch     uint64
}

type Step struct {
	Thread int
	Kind   Kind
	Site   int
	Pick   int
	With   int
	Site2  int
}

var (
	cur    *Exec
	epochs uint64
)

// Epoch identifies the current execution (0: none); shims reset their state when it changes.
func Epoch() uint64 {
	if cur == nil {
		return 0
	}
	return cur.epoch
}

// Active reports whether a controlled execution is in progress.
func Active() bool { return cur != nil }

func mix(a, b uint64) uint64 {
	x := a ^ (b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2))
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func (e *Exec) self() *Thread {
	g := getg()
	e.lock()
	t := e.byG.get(uint64(g)).t
	e.unlock()
	return t
}

func (e *Exec) park(t *Thread, k Kind, op opKind, site int) {
	e.lock()
	t.kind = k
	t.op = op
	t.site = site
	t.local = false
	if e.learn != nil && op != opNone {
		e.learnOp(t)
	}
	t.parked = true
	e.unlock()
	raceOff()
	<-t.wake
	raceOn()
}

func (e *Exec) infoOf(p unsafe.Pointer) *objInfo {
	i := e.info.obj(p).i
	if i == nil {
		i = &objInfo{}
		e.info.obj(p).i = i
	}
	return i
}

func (i *objInfo) addLoc(l uint64) {
	for _, x := range i.locs {
		if x == l {
			return
		}
	}
	i.locs = append(i.locs, l)
}

// share marks every place that used the object as one that shares.
func (e *Exec) share(i *objInfo) {
	for _, l := range i.locs {
		if e.learn.shared.get(l).v == 0 {
			e.learn.shared.at(l).v = 1
			e.learn.Restart = true
		}
	}
}

// learnOp decides whether the operation t is parked at is local.
func (e *Exec) learnOp(t *Thread) {
	L := e.learn
	switch t.op {
	case opObj:
		i := e.infoOf(t.obj)
		i.addLoc(t.loc)
		if i.owner == nil {
			i.owner = t
		}
		bad := i.owner != t
		for _, c := range i.comm {
			if c != t && !c.done {
				bad = true
			}
		}
		if bad {
			e.share(i)
		}
		t.local = L.shared.get(t.loc).v == 0 && t.obj != e.cancelObj
	case opClose, opChan:
		// A channel with one sender and one receiver is a deterministic pipe.
		simple := true
		n := 0
		if t.op == opClose {
			n = 1
		}
		for _, c := range t.sel {
			if t.op == opClose {
				break
			}
			if c.c == nil {
				continue
			}
			if t.isSel && c.c == e.cancelObj && !e.cancels() && !c.send {
				continue // never closed in this exploration
			}
			n++
		}
		if n != 1 || t.selDef {
			simple = false
		}
		one := func(c unsafe.Pointer, send bool) {
			i := e.infoOf(c)
			i.addLoc(t.loc)
			w := &i.owner
			if send {
				w = &i.snd
			}
			if *w == nil {
				*w = t
			}
			if *w != t || !simple {
				e.share(i)
			}
		}
		if t.op == opClose {
			one(t.obj, true)
		} else {
			for _, c := range t.sel {
				if c.c == nil || (t.isSel && c.c == e.cancelObj && !e.cancels() && !c.send) {
					continue
				}
				one(c.c, c.send)
			}
		}
		t.local = (simple && L.shared.get(t.loc).v == 0 && !(t.op == opClose && t.obj == e.cancelObj)) || (t.op == opChan && n == 0 && t.selDef)
	}
}

func (e *Exec) lock() {
	raceOff()
	e.mu.Lock()
}

func (e *Exec) unlock() {
	e.mu.Unlock()
	raceOn()
}

func ptrOf(v any) unsafe.Pointer {
	type iface struct {
		t, d unsafe.Pointer
	}
	return (*iface)(unsafe.Pointer(&v)).d
}

// PO is the point before an operation of a shim on obj.
//
//go:noinline
func PO(site int, obj unsafe.Pointer) { po(site, obj, false, nil, where()) }

// PRead is PO for an operation that leaves the object as it is.
//
//go:noinline
func PRead(site int, obj unsafe.Pointer) { po(site, obj, true, nil, where()) }

// PWhen is PO for an operation that can go ahead only when enab says so.
//
//go:noinline
func PWhen(site int, obj unsafe.Pointer, enab func() bool) { po(site, obj, false, enab, where()) }

func po(site int, obj unsafe.Pointer, read bool, enab func() bool, loc uint64) {
	e := cur
	if e == nil {
		return
	}
	t := e.self()
	if t == nil {
		for enab != nil && !enab() {
			time.Sleep(time.Millisecond)
		}
		return
	}
	t.obj, t.read, t.enab, t.loc = obj, read, enab, loc
	e.park(t, KP, opObj, site)
}

// Event records an access to obj without a scheduling point.
func Event(site int, obj unsafe.Pointer) {
	e := cur
	if e == nil {
		return
	}
	t := e.self()
	if t == nil {
		return
	}
	e.lock()
	t.hash = mix(mix(t.hash, uint64(site)<<8|uint64(KP)), e.objs.obj(obj).v)
	e.objs.obj(obj).v = t.hash
	e.unlock()
}

// Commute records a commutative update of obj: order among such updates does not matter.
//
//go:noinline
func Commute(site int, obj unsafe.Pointer, v uint64) {
	e := cur
	if e == nil {
		return
	}
	loc := where()
	t := e.self()
	if t == nil {
		return
	}
	e.lock()
	if L := e.learn; L != nil {
		i := e.infoOf(obj)
		i.addLoc(loc)
		if i.owner != nil && i.owner != t && !i.owner.done {
			e.share(i)
		}
		known := false
		for _, c := range i.comm {
			known = known || c == t
		}
		if !known {
			i.comm = append(i.comm, t)
		}
		if L.shared.get(loc).v != 0 {
			e.unlock()
			t.obj, t.read, t.enab, t.loc = obj, false, nil, loc
			e.park(t, KP, opObj, site)
			return
		}
	} else if !e.strat.Eager() {
		e.unlock()
		t.obj, t.read, t.enab, t.loc = obj, false, nil, loc
		e.park(t, KP, opObj, site)
		return
	}
	t.hash = mix(t.hash, mix(uint64(site), v))
	e.objs.obj(obj).v += mix(t.hash, 77)
	e.unlock()
}

// Merge is Commute for updates that need no decision even where others look at
// the object.
func Merge(site int, obj unsafe.Pointer, v uint64) {
	e := cur
	if e == nil {
		return
	}
	t := e.self()
	if t == nil {
		return
	}
	if e.learn == nil && !e.strat.Eager() {
		t.obj, t.read, t.enab, t.loc = obj, false, nil, 0
		e.park(t, KP, opObj, site)
		return
	}
	e.lock()
	if e.learn != nil {
		i := e.infoOf(obj)
		if i.owner != nil && i.owner != t {
			e.share(i)
		}
	}
	t.hash = mix(t.hash, mix(uint64(site), v))
	e.objs.obj(obj).v += mix(t.hash, 77)
	e.unlock()
}

// Q is the point after an operation that may have blocked.
func Q(site int) {
	e := cur
	if e == nil {
		return
	}
	t := e.self()
	if t == nil {
		return
	}
	t.noStop = false
	e.park(t, KQ, opNone, site)
}

// S is a statement point.
func S(site int) {
	e := cur
	if e == nil {
		return
	}
	e.stmts++
	if e.stmts != e.stopAt && !e.stopAll {
		return
	}
	t := e.self()
	if t == nil || t.noStop {
		e.stopAt++
		return
	}
	e.park(t, KS, opNone, site)
}

type hchan struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
	timer    unsafe.Pointer
	elemtype unsafe.Pointer
	sendx    uint
	recvx    uint
	recvq    struct{ first, last unsafe.Pointer }
	sendq    struct{ first, last unsafe.Pointer }
}

// solo: the case goes ahead without another parked thread.
func (c selCase) solo() bool {
	if c.c == nil {
		return false
	}
	h := (*hchan)(c.c)
	if h.closed != 0 {
		return true
	}
	if c.send {
		return h.recvq.first != nil || h.qcount < h.dataqsiz
	}
	return h.qcount > 0 || h.sendq.first != nil
}

func (c selCase) unbuf() bool {
	h := (*hchan)(c.c)
	return h.dataqsiz == 0 && h.closed == 0 && h.timer == nil
}

type SelArg struct {
	c    any
	send bool
	def  bool
}

func CR(c any) SelArg { return SelArg{c: c} }
func CS(c any) SelArg { return SelArg{c: c, send: true} }

// CD marks a select that has a default.
func CD() SelArg { return SelArg{def: true} }

// Sel is the point before a select; it returns the index of the case to take
// (every other case is masked; for the default all of them are), or -1 to
// leave the select as it is.
//
//go:noinline
func Sel(site int, args ...SelArg) int {
	e := cur
	if e == nil {
		return -1
	}
	loc := where()
	t := e.self()
	if t == nil {
		return -1
	}
	t.sel = t.sel[:0]
	t.selDef = false
	t.isSel = true
	for _, a := range args {
		if a.def {
			t.selDef = true
			continue
		}
		t.sel = append(t.sel, selCase{ptrOf(a.c), a.send})
	}
	t.pick = -1
	t.loc = loc
	t.noStop = true
	e.park(t, KSel, opChan, site)
	return t.pick
}

// M masks a channel of a select whose case was not picked.
func M[C any](k, i int, c C) C {
	if k >= 0 && k != i {
		var z C
		return z
	}
	return c
}

func chanOp(site int, c unsafe.Pointer, send bool, loc uint64) {
	e := cur
	if e == nil {
		return
	}
	t := e.self()
	if t == nil {
		return
	}
	t.sel = append(t.sel[:0], selCase{c, send})
	t.selDef = false
	t.isSel = false
	t.loc = loc
	e.park(t, KP, opChan, site)
}

// PS is the point before a send.
//
//go:noinline
func PS(site int, c any) { chanOp(site, ptrOf(c), true, where()) }

//go:noinline
func pr(site int, c any) { chanOp(site, ptrOf(c), false, where()) }

func Recv[T any](site int, c <-chan T) T {
	pr(site, c)
	v := <-c
	Q(site)
	return v
}

func Recv2[T any](site int, c <-chan T) (T, bool) {
	pr(site, c)
	v, ok := <-c
	Q(site)
	return v, ok
}

//go:noinline
func pclose(site int, c any) {
	e := cur
	if e == nil {
		return
	}
	loc := where()
	t := e.self()
	if t == nil {
		return
	}
	t.obj, t.loc = ptrOf(c), loc
	e.park(t, KP, opClose, site)
}

func Close[T any](site int, c chan<- T) {
	pclose(site, c)
	close(c)
}

type exitPanic struct{ code int }

// Exit stands in for os.Exit.
func Exit(code int) {
	e := cur
	if e == nil {
		panic(fmt.Sprintf("os.Exit(%d) outside a controlled execution", code))
	}
	panic(exitPanic{code})
}

// Go spawns a managed thread.
func Go(f func()) {
	e := cur
	if e == nil {
		go f()
		return
	}
	e.spawn(f)
}

var EnvFree bool

// GoEnv spawns a thread that stands for something outside the program, such as a
// clock or a user: Prio lets it act only when told to.
//
// With EnvFree it is a thread like the others.
func GoEnv(kind string, f func()) {
	e := cur
	if e == nil {
		go f()
		return
	}
	t := e.spawn(f)
	if !EnvFree {
		t.env = kind
	}
}

func (e *Exec) spawn(f func()) *Thread {
	parent := e.self()
	e.lock()
	t := &Thread{ID: len(e.threads), wake: make(chan struct{})}
	if parent != nil {
		parent.hash = mix(parent.hash, 0x5eed)
		t.hash = mix(parent.hash, 1)
	} else {
		t.hash = mix(uint64(t.ID), 12345)
	}
	e.threads = append(e.threads, t)
	e.unlock()
	go func() {
		g := getg()
		e.lock()
		e.byG.at(uint64(g)).t = t
		t.kind = KStart
		t.op = opNone
		t.parked = true
		e.unlock()
		debug.SetPanicOnFault(true)
		raceOff()
		<-t.wake
		raceOn()
		normal := false
		defer func() {
			r := recover()
			e.lock()
			if !normal {
				switch x := r.(type) {
				case nil: // runtime.Goexit
				case exitPanic:
					if e.out.Exit < 0 {
						e.out.Exit = x.code
						e.dead = true
					}
				default:
					if e.out.Crash == "" && !e.dead {
						e.out.Crash = fmt.Sprint(r)
						if e.out.Crash == "" {
							e.out.Crash = "a panic without a message"
						}
						e.out.Stack = string(debug.Stack())
						e.dead = true
					}
				}
			}
			t.done = true
			e.byG.at(uint64(g)).t = nil
			e.unlock()
		}()
		f()
		normal = true
	}()
	return t
}

// RegisterCancel gives the scheduler the environment's cancel function.
func RegisterCancel(cancel func(), done any) {
	e := cur
	if e == nil || e.cancel != nil {
		return
	}
	e.cancel = cancel
	e.cancelObj = ptrOf(done)
}

// PollCancel is the point before the program looks whether it was cancelled.
func PollCancel(site int) {
	if e := cur; e != nil && e.cancels() && e.cancelObj != nil {
		po(site, e.cancelObj, true, nil, 1)
	}
}

// cancels: something may cancel the program's context.
func (e *Exec) cancels() bool { return e.envOK || e.learn == nil || e.learn.cancels }

// OwnCancel is the point before the program itself cancels a context.
//
//go:noinline
func OwnCancel(done any) {
	e := cur
	if e == nil {
		return
	}
	if ptrOf(done) == e.cancelObj {
		if e.learn != nil && !e.learn.cancels && !e.envOK {
			e.learn.cancels = true
			e.learn.Restart = true
		}
		pclose(16, done)
		e.out.OwnCancel = true
		return
	}
	pclose(16, done)
}

func (e *Exec) sig() uint64 {
	var s uint64
	for _, t := range e.threads {
		x := mix(t.hash, 17)
		if t.done {
			x = mix(x, 3)
		}
		s += x
	}
	if e.out.Cancelled {
		s = mix(s, 5)
	}
	return s
}

type Config struct {
	Strategy  Strategy
	Cancel    bool   // the environment may cancel once
	OnMain    func() // called when the main thread has returned, before anything else moves
	KeepTrace bool
	NoDrain   bool
	Maps      int    // order of map iterations: permutation Maps for the first one,
	MapStep   int    // and this many further for each of the following
	IO        bool   // other threads may run before every operation on a file
	OnIO      func() // called before every operation on a file or a file's name
}

var (
	fileIO bool
	onIO   func()
	names  byte // stands for the directory
)

// Live is the number of threads that have not finished.
func Live() (n int) {
	if cur != nil {
		for _, t := range cur.threads {
			if !t.done {
				n++
			}
		}
	}
	return
}

// Name is called before operations on the names of files.
//
//go:noinline
func Name(n string) string {
	if onIO != nil {
		onIO()
	}
	if fileIO {
		po(17, unsafe.Pointer(&names), false, nil, where())
	}
	return n
}

// IO is called before operations on files.
//
//go:noinline
func IO(f *os.File) *os.File {
	if onIO != nil {
		onIO()
	}
	if fileIO {
		po(17, unsafe.Pointer(f), false, nil, where())
	}
	return f
}

// Run executes f as the main thread of one controlled execution.
func Run(tb *testing.T, cfg Config, f func()) (out Outcome, tr []Step) {
	if Race { // a race fails the test, which ends the goroutine it runs in
		done := make(chan struct{})
		go func() {
			defer close(done)
			run(tb, cfg, f, &out, &tr)
		}()
		<-done
		return
	}
	run(tb, cfg, f, &out, &tr)
	return
}

func run(tb *testing.T, cfg Config, f func(), pout *Outcome, ptr *[]Step) {
	resetGlobals()
	maps = mapOrder{index: cfg.Maps, step: cfg.MapStep}
	fileIO, onIO = cfg.IO, cfg.OnIO
	defer func() { maps, fileIO, onIO = mapOrder{}, false, nil }()
	e := &Exec{strat: cfg.Strategy, last: -1, KeepTrace: cfg.KeepTrace}
	e.learn = cfg.Strategy.Learned()
	e.out.Exit = -1
	epochs++
	e.epoch = epochs
	defer func() {
		cur = nil
		e.out.Stmts = e.stmts
		*pout, *ptr = e.out, e.Trace
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if out := e.out; out.Crash == "" && out.Deadlock == "" && out.Leak == "" && out.Exit < 0 {
				panic("zzs: unexpected bubble failure: " + s)
			}
		}
	}()
	synctest.Test(tb, func(*testing.T) {
		cur = e
		e.envOK = cfg.Cancel
		e.stopAt = e.strat.StopAtStmt()
		e.stopAll = e.stopAt == EveryStmt
		mt := e.spawn(f)
		raceOff()
		e.loop(cfg, mt)
		raceOn()
		cur = nil
	})
}

func (e *Exec) blockedDesc() string {
	s := ""
	for _, t := range e.threads {
		if !t.done {
			s += fmt.Sprintf("thread %d blocked at %s (%s); ", t.ID, SiteName(t.site), t.kind)
		}
	}
	return s
}

// choices lists what the parked threads can do, in canonical order.
// Timers (timers set) are let fire only when nothing else can happen.
func (e *Exec) choices(parked []*Thread, cs []Choice, timers bool) []Choice {
	for _, t := range parked {
		switch t.op {
		case opNone, opClose:
			cs = append(cs, Choice{t.ID, 0, -1, 0})
		case opObj:
			if t.enab == nil || t.enab() {
				cs = append(cs, Choice{t.ID, 0, -1, 0})
			}
		case opChan:
			solo := false
			for i, c := range t.sel {
				if c.c == nil {
					continue
				}
				if c.solo() || (timers && (*hchan)(c.c).timer != nil) {
					solo = true
					cs = append(cs, Choice{t.ID, i, -1, 0})
					continue
				}
				if c.send || !c.unbuf() {
					continue
				}
				for _, s := range parked {
					if s == t || s.op != opChan || (s.selDef && t.selDef) {
						continue
					}
					for j, d := range s.sel {
						if d.send && d.c == c.c {
							cs = append(cs, Choice{t.ID, i, s.ID, j})
						}
					}
				}
			}
			if t.selDef && !solo {
				cs = append(cs, Choice{t.ID, len(t.sel), -1, 0})
			}
		}
	}
	return cs
}

func (e *Exec) loop(cfg Config, mt *Thread) {
	parked := make([]*Thread, 0, 16)
	var cs []Choice
	mainSeen := false
	slept := false
	for {
		synctest.Wait()
		if e.dead {
			return
		}
		if mt.done && !mainSeen {
			mainSeen = true
			e.out.MainDone = true
			if cfg.OnMain != nil {
				cfg.OnMain()
			}
			if cfg.NoDrain {
				// what is left is cut off, as a process exit does
				all := true
				for _, t := range e.threads {
					if !t.done {
						all = false
					}
				}
				if !all {
					e.out.Leak = "not drained"
				}
				return
			}
		}
		parked = parked[:0]
		alive := false
		for _, t := range e.threads {
			if t.parked {
				parked = append(parked, t)
			}
			if !t.done {
				alive = true
			}
		}
		e.out.Threads = len(e.threads)
		if !alive {
			return
		}
		if e.strat.Eager() {
			var t *Thread
			for _, p := range parked {
				if p.kind == KQ || p.kind == KStart {
					t = p
					break
				}
			}
			if t != nil {
				e.out.Eager++
				e.release(t)
				continue
			}
		}
		cs = e.choices(parked, cs[:0], false)
		if len(cs) == 0 {
			cs = e.choices(parked, cs[:0], true)
		}
		if e.learn != nil {
			found := false
			for _, c := range cs {
				t := e.threads[c.Thread]
				if t.local && (c.With < 0 || e.threads[c.With].local) {
					e.out.Eager++
					e.perform(c)
					found = true
					break
				}
			}
			if found {
				continue
			}
		}
		nthr := len(cs)
		if e.envOK && e.cancel != nil && !e.out.Cancelled && !mainSeen {
			cs = append(cs, Choice{-1, 0, -1, 0})
		}
		if nthr == 0 && !slept {
			// Timers of the program, if any, fire in virtual time.
			slept = true
			time.Sleep(24 * time.Hour)
			continue
		}
		if len(cs) == 0 {
			if mt.done {
				e.out.Leak = e.blockedDesc()
			} else {
				e.out.Deadlock = e.blockedDesc()
			}
			return
		}
		slept = false
		d := Decision{Step: e.out.Steps, Last: e.last, Exec: e, Choices: cs, Sig: e.sig()}
		i := 0
		if !mainSeen {
			i = e.strat.Choose(&d)
		}
		if i < 0 || i >= len(cs) {
			e.out.Diverged++
			i = 0
		}
		c := cs[i]
		e.out.Steps++
		if c.Thread < 0 {
			e.out.Cancelled = true
			e.objs.obj(e.cancelObj).v = mix(e.objs.obj(e.cancelObj).v, 4242)
			if e.KeepTrace {
				e.Trace = append(e.Trace, Step{-1, KEnv, 0, 0, -1, 0})
			}
			raceOn()
			e.cancel()
			raceOff()
			continue
		}
		e.last = c.Thread
		e.perform(c)
	}
}

// perform lets the operation of a choice happen.
func (e *Exec) perform(c Choice) {
	t := e.threads[c.Thread]
	if e.KeepTrace {
		st := Step{t.ID, t.kind, t.site, c.Pick, c.With, 0}
		if c.With >= 0 {
			st.Site2 = e.threads[c.With].site
		}
		e.Trace = append(e.Trace, st)
	}
	tag := mix(uint64(t.site)<<8|uint64(t.kind), uint64(c.Pick))
	switch t.op {
	case opNone:
		t.hash = mix(t.hash, tag)
	case opObj:
		t.hash = mix(mix(t.hash, tag), e.objs.obj(t.obj).v)
		if !t.read {
			e.objs.obj(t.obj).v = t.hash
		}
	case opClose:
		t.hash = mix(mix(t.hash, tag), e.objs.obj(t.obj).v)
		e.objs.obj(t.obj).v = t.hash
	case opChan:
		t.pick = c.Pick
		if c.With >= 0 {
			s := e.threads[c.With]
			s.pick = c.Pick2
			hr := mix(t.hash, tag)
			hs := mix(s.hash, mix(uint64(s.site)<<8|uint64(s.kind), uint64(c.Pick2)))
			t.hash = mix(mix(hr, 1), hs)
			s.hash = mix(mix(hs, 2), hr)
			if s.selDef {
				e.release(t)
				synctest.Wait()
				e.release(s)
			} else if t.selDef {
				e.release(s)
				synctest.Wait()
				e.release(t)
			} else {
				e.release(t)
				e.release(s)
			}
			return
		}
		t.hash = mix(t.hash, tag)
		if c.Pick < len(t.sel) {
			o := t.sel[c.Pick].c
			h := (*hchan)(o)
			t.hash = mix(t.hash, e.objs.obj(o).v)
			if h.closed == 0 {
				e.objs.obj(o).v = t.hash
			}
		}
	}
	e.release(t)
}

func (e *Exec) release(t *Thread) {
	t.parked = false
	t.wake <- struct{}{}
}

// Stmts is the number of statement points passed so far.
func (e *Exec) Stmts() int             { return e.stmts }
func (e *Exec) SetStopAt(n int)        { e.stopAt = n }
func (e *Exec) ThreadKind(id int) Kind { return e.threads[id].kind }
func (e *Exec) NumThreads() int        { return len(e.threads) }

var sites []string

// SetSites installs the table of site names.
func SetSites(s []string) { sites = s }

func SiteName(i int) string {
	if i == 0 {
		return "harness"
	}
	if i > 0 && i < len(sites) {
		return sites[i]
	}
	return fmt.Sprintf("site%d", i)
}

func FormatTrace(tr []Step, max int) string {
	s := ""
	for i, st := range tr {
		if i >= max {
			s += fmt.Sprintf("... %d more\n", len(tr)-max)
			break
		}
		if st.Thread < 0 {
			s += fmt.Sprintf("%4d cancel\n", i)
			continue
		}
		s += fmt.Sprintf("%4d thread %d %s case=%d %s", i, st.Thread, st.Kind, st.Pick, SiteName(st.Site))
		if st.With >= 0 {
			s += fmt.Sprintf(" with thread %d %s", st.With, SiteName(st.Site2))
		}
		s += "\n"
	}
	return s
}

// Self-test of the channel layout this package reads.
func init() {
	c := make(chan int, 3)
	c <- 1
	h := (*hchan)(ptrOf(c))
	if h.qcount != 1 || h.dataqsiz != 3 || h.closed != 0 {
		panic("zzs: channel layout changed")
	}
	d := make(chan int)
	go func() { d <- 1 }()
	hd := (*hchan)(ptrOf(d))
	for i := 0; hd.sendq.first == nil; i++ {
		if i > 5_000_000 {
			panic("zzs: channel layout changed")
		}
		runtime.Gosched()
	}
	if hd.recvq.first != nil {
		panic("zzs: channel layout changed")
	}
	<-d
	close(c)
	if h.closed == 0 {
		panic("zzs: channel layout changed")
	}
}

// RangeFirst starts a loop over a channel.
func RangeFirst[T any](site int, c <-chan T) (<-chan T, T, bool) {
	v, ok := Recv2(site, c)
	return c, v, ok
}

// RangeFirstTo starts a loop over a channel that assigns to an existing variable.
func RangeFirstTo[T any](site int, c <-chan T, p *T) (<-chan T, bool) {
	v, ok := Recv2(site, c)
	if ok {
		*p = v
	}
	return c, ok
}
