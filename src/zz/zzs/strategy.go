package zzs

// Default runs the lowest-numbered thread until it blocks: one fixed schedule.
type Default struct{}

func (Default) Choose(d *Decision) int {
	for i, c := range d.Choices {
		if c.Thread == d.Last {
			return i
		}
	}
	return 0
}
func (Default) Eager() bool       { return true }
func (Default) Learned() *Learned { return nil }
func (Default) StopAtStmt() int   { return -1 }

// DFS explores every schedule, with happens-before caching: a state whose
// happens-before signature was met before is not branched from again.
// Operations that commute with everything other threads do (Learned) are not
// branched on.
type DFS struct {
	visited map[uint64]struct{}
	stack   []dfsNode
	prefix  []int32
	path    []int32
	cut     bool
	learned Learned
	// Counters.
	Runs, States, Transitions, CacheHits, Restarts int
}

type dfsNode struct {
	path []int32
	alt  int32
}

func NewDFS() *DFS {
	return &DFS{visited: map[uint64]struct{}{}, learned: Learned{shared: &tab{}}}
}

// Next prepares the next execution; false when the space is exhausted.
func (x *DFS) Next() bool {
	if x.learned.Restart {
		x.learned.Restart = false
		x.Restarts++
		x.visited = map[uint64]struct{}{}
		x.stack = nil
		x.States, x.Transitions = 0, 0
	} else if x.Runs > 0 {
		if len(x.stack) == 0 {
			return false
		}
		n := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.prefix = append(append(x.prefix[:0], n.path...), n.alt)
		x.path = x.path[:0]
		x.cut = false
		x.Runs++
		return true
	}
	x.Runs++
	x.prefix = x.prefix[:0]
	x.path = x.path[:0]
	x.cut = false
	return true
}

func (x *DFS) Choose(d *Decision) int {
	if len(x.path) >= len(x.prefix) && !x.cut {
		if _, ok := x.visited[d.Sig]; ok {
			x.cut = true
			x.CacheHits++
		} else {
			x.visited[d.Sig] = struct{}{}
			x.States++
			x.Transitions += len(d.Choices)
			if len(d.Choices) > 1 {
				p := append([]int32{}, x.path...)
				for a := len(d.Choices) - 1; a >= 1; a-- {
					x.stack = append(x.stack, dfsNode{p, int32(a)})
				}
			}
		}
	}
	if len(d.Choices) == 1 {
		return 0
	}
	var c int32
	if len(x.path) < len(x.prefix) {
		c = x.prefix[len(x.path)]
	}
	x.path = append(x.path, c)
	return int(c)
}
func (x *DFS) Eager() bool       { return true }
func (x *DFS) Learned() *Learned { return &x.learned }
func (x *DFS) StopAtStmt() int   { return -1 }
func (x *DFS) Path() []int32     { return append([]int32{}, x.path...) }

// Replay gives a strategy that takes the same choices again.
func (x *DFS) Replay() *Fixed { return &Fixed{Path: x.Path(), learned: &x.learned} }

// Fixed replays a recorded list of choices of a DFS.
type Fixed struct {
	Path    []int32
	i       int
	learned *Learned
}

func (x *Fixed) Choose(d *Decision) int {
	if len(d.Choices) == 1 {
		return 0
	}
	c := 0
	if x.i < len(x.Path) {
		c = int(x.Path[x.i])
	}
	x.i++
	return c
}
func (x *Fixed) Eager() bool       { return true }
func (x *Fixed) Learned() *Learned { return x.learned }
func (x *Fixed) StopAtStmt() int   { return -1 }

// Prio is a strict-priority schedule with change points: the parked thread of
// highest priority runs; at a change point the running thread drops below all
// others.  Enumerating base orders x change points is systematic.
type Prio struct {
	Base     int        // base order, see BasePrio
	Change   []int      // steps (scheduling-point index) at which the thread that would run is demoted
	StmtStop int        // statement counter at which the running thread parks and is demoted (0: none)
	CancelAt int        // step at which the environment cancels (<0: never)
	PickLast bool       // take the last ready select case instead of the first
	Env      []EnvEvent // when threads of the environment act; otherwise they do when nothing else can
	envN     int
	demoted  map[int]int
	nd       int
	stmtDone bool
}

// EnvEvent is an action of the Who-th part of the environment at a step.
type EnvEvent struct{ At, Who int }

// act takes the next step of the environment, if there is one now: -1 if not.
func (x *Prio) act(d *Decision) int {
	for x.envN < len(x.Env) && d.Step >= x.Env[x.envN].At {
		// the threads of that part of the environment: a clock may have one
		// after the other
		var kinds []string
		var of []*Thread
		for _, t := range d.Exec.threads {
			if t.env == "" {
				continue
			}
			k := 0
			for k < len(kinds) && kinds[k] != t.env {
				k++
			}
			if k == len(kinds) {
				kinds = append(kinds, t.env)
			}
			if k == x.Env[x.envN].Who {
				of = append(of, t)
			}
		}
		alive := false
		for _, t := range of {
			if t.done {
				continue
			}
			alive = true
			for i, c := range d.Choices {
				if c.Thread == t.ID || c.With == t.ID {
					if t.op == opChan {
						x.envN++
					}
					return i
				}
			}
		}
		if len(of) == 0 || alive || d.Step < x.Env[x.envN].At+60 {
			return -1 // not there yet
		}
		x.envN++
	}
	return -1
}

// Reset prepares for another execution with the same parameters.
func (x *Prio) Reset() { x.demoted = map[int]int{}; x.nd = 0; x.stmtDone = false; x.envN = 0 }

// BasePrio gives the initial priority of a thread (higher runs first).
//
//	0: ascending ids first   1: descending ids first
//	2+2k: thread k lowest, others ascending   3+2k: thread k highest, others descending
func BasePrio(base, id int) int {
	switch {
	case base == 0:
		return 1000 - id
	case base == 1:
		return 1000 + id
	case base%2 == 0:
		if id == (base-2)/2 {
			return 1
		}
		return 1000 - id
	default:
		if id == (base-3)/2 {
			return 5000
		}
		return 1000 + id
	}
}

func (x *Prio) prio(id int) int {
	if n, ok := x.demoted[id]; ok {
		return -n
	}
	return BasePrio(x.Base, id)
}

// rank orders the choices: by the more urgent of their threads, then by the other.
func (x *Prio) rank(d *Decision, c Choice) (int, int) {
	of := func(id int) int {
		p := x.prio(id)
		if d.Exec.threads[id].env != "" {
			p -= 1 << 20
		}
		return p
	}
	p := of(c.Thread)
	if c.With < 0 {
		return p, p
	}
	q := of(c.With)
	if q > p {
		p, q = q, p
	}
	return p, q
}

func (x *Prio) best(d *Decision) int {
	b, bp, bq := -1, 0, 0
	for i, c := range d.Choices {
		if c.Thread < 0 {
			continue
		}
		p, q := x.rank(d, c)
		if b < 0 || p > bp || (p == bp && q > bq) || (x.PickLast && p == bp && q == bq) {
			b, bp, bq = i, p, q
		}
	}
	return b
}

// top is the most urgent thread of a choice.
func (x *Prio) top(c Choice) int {
	if c.With >= 0 && x.prio(c.With) > x.prio(c.Thread) {
		return c.With
	}
	return c.Thread
}

func (x *Prio) demote(id int) {
	x.nd++
	x.demoted[id] = x.nd
}

func (x *Prio) Choose(d *Decision) int {
	if x.demoted == nil {
		x.Reset()
	}
	if x.CancelAt >= 0 && d.Step >= x.CancelAt {
		for i, c := range d.Choices {
			if c.Thread < 0 {
				return i
			}
		}
	}
	if i := x.act(d); i >= 0 {
		return i
	}
	if !x.stmtDone && x.StmtStop > 0 {
		for _, c := range d.Choices {
			if c.Thread >= 0 && d.Exec.ThreadKind(c.Thread) == KS {
				x.stmtDone = true
				x.demote(c.Thread)
				break
			}
		}
	}
	b := x.best(d)
	for _, c := range x.Change {
		if c == d.Step && b >= 0 {
			x.demote(x.top(d.Choices[b]))
			b = x.best(d)
		}
	}
	if b < 0 {
		b = 0
	}
	return b
}
func (x *Prio) Eager() bool       { return false }
func (x *Prio) Learned() *Learned { return nil }
func (x *Prio) StopAtStmt() int {
	if x.StmtStop > 0 {
		return x.StmtStop
	}
	return -1
}

// Bounded explores every schedule with at most Bound preemptions: switches away
// from a thread that could go on.  With Stmts set, threads can be preempted
// between any two statements of code built for it.
type Bounded struct {
	Bound  int
	Stmts  bool
	stack  []dfsNode
	prefix []int32
	path   []int32
	used   int
	Runs   int
}

// Next prepares the next execution; false when the space is exhausted.
func (x *Bounded) Next() bool {
	x.prefix = x.prefix[:0]
	if x.Runs > 0 {
		if len(x.stack) == 0 {
			return false
		}
		n := x.stack[len(x.stack)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.prefix = append(append(x.prefix, n.path...), n.alt)
	}
	x.path = x.path[:0]
	x.used = 0
	x.Runs++
	return true
}

func (x *Bounded) Choose(d *Decision) int {
	if len(d.Choices) == 1 {
		return 0
	}
	def, can := 0, false
	on := func(c Choice) bool { return c.Thread == d.Last || c.With >= 0 && c.With == d.Last }
	for i, c := range d.Choices {
		if on(c) {
			def, can = i, true
			break
		}
	}
	cost := func(c Choice) int {
		if can && c.Thread >= 0 && !on(c) {
			return 1
		}
		return 0
	}
	c := int32(def)
	if len(x.path) < len(x.prefix) {
		c = x.prefix[len(x.path)]
		if int(c) >= len(d.Choices) {
			return int(c) // diverged
		}
	} else {
		for a := len(d.Choices) - 1; a >= 0; a-- {
			if a != def && x.used+cost(d.Choices[a]) <= x.Bound {
				x.stack = append(x.stack, dfsNode{append([]int32{}, x.path...), int32(a)})
			}
		}
	}
	x.used += cost(d.Choices[c])
	x.path = append(x.path, c)
	return int(c)
}
func (x *Bounded) Eager() bool       { return false }
func (x *Bounded) Learned() *Learned { return nil }
func (x *Bounded) StopAtStmt() int {
	if x.Stmts {
		return EveryStmt
	}
	return -1
}
func (x *Bounded) Path() []int32 { return append([]int32{}, x.path...) }

// Again gives a strategy that takes the same choices once more.
func (x *Bounded) Again() *Bounded {
	return &Bounded{Bound: x.Bound, Stmts: x.Stmts, prefix: x.Path(), Runs: 1}
}
