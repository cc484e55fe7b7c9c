package cli

import (
	"fmt"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// counts is what entitycount has to print about a file.
func counts(f osmref.File) string {
	var nodes, ways, refs, rels int
	var maxN, maxW, maxR int64
	maxRefs := 0
	for _, b := range f.Expect() {
		for _, n := range b.Nodes {
			nodes++
			if n.ID > maxN {
				maxN = n.ID
			}
		}
		for _, w := range b.Ways {
			ways++
			refs += len(w.Refs)
			if w.ID > maxW {
				maxW = w.ID
			}
			if len(w.Refs) > maxRefs {
				maxRefs = len(w.Refs)
			}
		}
		for _, x := range b.Rels {
			rels++
			if x.ID > maxR {
				maxR = x.ID
			}
		}
	}
	return fmt.Sprintf("%d | %d %d | %d %d | %d %d | %d %d", len(f), nodes, maxN, ways, maxW, refs, maxRefs, rels, maxR)
}

// printed reads what entitycount printed.
func printed(s string) string {
	var a [9]int64
	n, err := fmt.Sscanf(strings.ReplaceAll(s, "\n", " "), "Counted %d blocks Counted %d nodes, %d max Counted %d ways, %d max Counted %d ways refs, %d maximum length Counted %d relations, %d max",
		&a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8])
	if err != nil {
		return fmt.Sprintf("unreadable (%d fields, %v): %q", n, err, s)
	}
	return fmt.Sprintf("%d | %d %d | %d %d | %d %d | %d %d", a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
}

func countCheck(cmd string, f osmref.File) run.Check {
	want := counts(f)
	return func(x *run.Res) string {
		if b := x.Bad(); b != "" {
			return b
		}
		switch cmd {
		case "blockcount":
			var n int
			if _, err := fmt.Sscanf(x.Stdout, "Counted %d blocks", &n); err != nil || n != len(f) {
				return fmt.Sprintf("blockcount says %q, not %d", x.Stdout, len(f))
			}
		case "entitycount":
			if got := printed(x.Stdout); got != want {
				return fmt.Sprintf("entitycount says %s, not %s", got, want)
			}
		}
		return ""
	}
}

// stats reads the four counters rewritenodes and relindex print.
func stats(s string) (a [4]int, bad string) {
	seen := 0
	for _, l := range strings.Split(s, "\n") {
		for i, k := range []string{"hitHint:", "hitDefault:", "missDefault:", "missDeferred:"} {
			if strings.HasPrefix(l, k) {
				if _, err := fmt.Sscan(l[len(k):], &a[i]); err != nil {
					return a, "unreadable line " + l
				}
				seen |= 1 << i
			}
		}
	}
	if seen != 15 {
		return a, "counters missing from " + run.Short(s)
	}
	return a, ""
}

// Lookups in one pass of rewritenodes: every ref that is not a location yet.
// An id that a gap stands for counts as a hit or as a miss: both are an account of it.
func rewriteStats(f osmref.File, locs map[int64]int64, passes int) func(out string) string {
	found, absent, gap := 0, 0, 0
	for _, b := range f.Expect() {
		for _, w := range b.Ways {
			for _, x := range w.Refs {
				if x < 0 {
					continue
				}
				if _, ok := locs[x]; ok {
					found++
				} else {
					absent++
					_, a := locs[x-1]
					_, b := locs[x+1]
					if a && b {
						gap++
					}
				}
			}
		}
	}
	return func(out string) string {
		a, bad := stats(out)
		if bad != "" {
			return bad
		}
		hits, sum := a[0]+a[1], a[0]+a[1]+a[2]+a[3]
		if hits < found || hits > found+gap {
			return fmt.Sprintf("%d hits are counted, %d refs (and %d gaps) were found", hits, found, gap)
		}
		if passes == 1 && sum != found+absent {
			return fmt.Sprintf("%d lookups are counted, %d were made", sum, found+absent)
		}
		if passes > 1 {
			// a ref that is not in the index is looked up in every pass, one that
			// is in pass p was looked up p+1 times
			if sum < found+passes*absent || sum > passes*(found+absent) {
				return fmt.Sprintf("%d lookups are counted for %d and %d refs in %d passes", sum, found, absent, passes)
			}
		}
		return ""
	}
}

func relStats(f osmref.File, look func(int64) ([]int64, bool), passes int) func(out string) string {
	found, absent := 0, 0
	for _, b := range f.Expect() {
		for _, x := range b.Rels {
			for _, m := range x.Members {
				if m.Type != 1 {
					continue
				}
				if _, ok := look(m.ID); ok {
					found++
				} else {
					absent++
				}
			}
		}
	}
	return func(out string) string {
		a, bad := stats(out)
		if bad != "" {
			return bad
		}
		hits, sum := a[0]+a[1], a[0]+a[1]+a[2]+a[3]
		if hits != found {
			return fmt.Sprintf("%d hits are counted, %d ways were found", hits, found)
		}
		if sum < found+passes*absent || sum > passes*(found+absent) || passes == 1 && sum != found+absent {
			return fmt.Sprintf("%d lookups are counted for %d and %d members in %d passes", sum, found, absent, passes)
		}
		return ""
	}
}

func statCheck(r *vlib.R, d string, e *env, cmd string, passes int) run.Check {
	var ck func(string) string
	if cmd == "rewritenodes" {
		ck = rewriteStats(e.f, osmref.NodeLocs(e.f.Expect()), passes)
	} else {
		rw, err := osmref.Parse([]byte(e.rw))
		if err != nil {
			return func(*run.Res) string { return err.Error() }
		}
		m := map[int64]bool{}
		for _, b := range rw {
			for _, w := range b.Ways {
				m[w.ID] = true
			}
		}
		ck = relStats(e.f, func(id int64) ([]int64, bool) { return nil, m[id] }, passes)
	}
	return func(x *run.Res) string {
		if b := x.Bad(); b != "" {
			return b
		}
		return ck(x.Stdout)
	}
}

func init() {
	cases := func(r *vlib.R, d string, f osmref.File, cmds []string, ws []int, fn func(d, cmd string, e *env, w int, one run.One, ck run.Check)) {
		for _, cmd := range cmds {
			for _, w := range ws {
				dd := fmt.Sprintf("%s on %s with %d workers", cmd, d, w)
				if !run.Mine(r, dd) || r.Stop() || r.Late(dd) {
					continue
				}
				r.Begin(dd)
				switch cmd {
				case "blockcount", "entitycount":
					e := &env{r: r, dir: r.Scratch + "/d", f: f, in: f.Encode()}
					run.Fresh(e.dir, map[string][]byte{"in.pbf": e.in})
					a := []string{"-i", e.p("in.pbf"), "-w", fmt.Sprint(w)}
					fn(dd, cmd, e, w, func(o run.Opt) *run.Res { o.NoFiles = true; return run.Cmd(r, e.dir, o, cmd, a...) }, countCheck(cmd, f))
				default:
					e, bad := prepare(r, f)
					if bad != "" {
						r.Fail("prepare "+d, bad, "", nil)
						return
					}
					fn(dd, cmd, e, w, e.one(cmd, e.args(cmd, w)), statCheck(r, dd, e, cmd, 1))
				}
			}
		}
	}
	all := []string{"blockcount", "entitycount", "rewritenodes", "relindex"}
	vlib.Register("C18.dfs", func(r *vlib.R) {
		fn := func(d, cmd string, e *env, w int, one run.One, ck run.Check) { run.DFS(r, d, false, 0, one, ck) }
		cases(r, "multi2", run.Multi(2, false), all, []int{1, 2}, fn)
		cases(r, "multi3", run.Multi(3, false), all[:2], []int{1, 2}, fn)
		cases(r, "multi3", run.Multi(3, false), all[:1], []int{3}, fn)
		cases(r, "multi2", run.Multi(2, false), all[:1], []int{3}, fn)
		if r.Thorough() {
			cases(r, "multi2", run.Multi(2, false), all[1:], []int{3}, fn)
			cases(r, "multi3", run.Multi(3, false), all[1:], []int{3}, fn)
			cases(r, "multi3", run.Multi(3, false), all[2:], []int{2}, fn)
			cases(r, "multi4", run.Multi(4, false), all[:2], []int{2, 3}, fn)
		}
	})
	vlib.Register("C18.prio", func(r *vlib.R) {
		cases(r, "multi6", run.Multi(6, true), all, []int{3}, func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
			run.Prio(r, d, run.Sweep{Threads: w + 3, Changes: 1, Stride: r.Pick(2, 1)}, one, ck)
		})
		for _, c := range run.Corpus() {
			cases(r, c.Name, c.F, all, []int{1, 2, 5, 33}, func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
				run.Prio(r, d, run.Sweep{Bases: []int{0, 1, 2, 5}, Last: true}, one, ck)
			})
		}
	})
	// one preemption at every statement, with the loads and stores of shared variables apart
	vlib.Register("C18.stmt", func(r *vlib.R) {
		fn := func(stride int) func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
			return func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
				run.Prio(r, d, run.Sweep{Bases: []int{0, 1}, Stmts: stride}, one, ck)
			}
		}
		cases(r, "multi2", run.Multi(2, false), all[:2], []int{2, 3}, fn(1))
		cases(r, "multi2", run.Multi(2, false), all[2:], []int{2}, fn(r.Pick(3, 1)))
		// enough blobs for whatever is done once in a while to be done by both
		for from := 0; from < 16; from++ {
			part := func(stride int) func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
				return func(d, cmd string, e *env, w int, one run.One, ck run.Check) {
					run.Prio(r, d, run.Sweep{Bases: []int{0, 1}, Stmts: 16 * stride, StmtFrom: from}, one, ck)
				}
			}
			part2 := fmt.Sprintf(", from statement %d", from)
			cases(r, "multi70"+part2, run.Multi(70, false), all[:1], []int{2}, part(1))
			cases(r, "multi70"+part2, run.Multi(70, false), all[1:2], []int{2}, part(r.Pick(25, 1)))
			if r.Thorough() {
				cases(r, "multi260"+part2, run.Multi(260, false), all[:1], []int{2}, part(1))
				cases(r, "multi130"+part2, run.Multi(130, false), all[1:2], []int{2}, part(3))
			}
		}
	})
	// files: every kind of group, ids of every size, in every order of blocks
	vlib.Register("C18.files", func(r *vlib.R) {
		big := osmref.Way{ID: 1 << 40}
		for i := int64(0); i < 300; i++ {
			big.Refs = append(big.Refs, i%7+1)
		}
		kinds := []osmref.Group{
			{Nodes: []osmref.Node{run.N(0, 1, 1)}},
			{Nodes: []osmref.Node{run.N(5, 1, 1), run.N(1<<40, 2, 2, "a", "b")}, NoKV: false},
			{Ways: []osmref.Way{run.W(1), run.W(2, 1, 2, 3)}},
			{Ways: []osmref.Way{big}},
			{Rels: []osmref.Rel{{ID: 1}, {ID: 1 << 33, Members: []osmref.Member{{Type: 1, ID: 2}}}}},
			{},
		}
		sequences(len(kinds), r.Pick(4, 5), func(s []int) {
			for split := 0; split < 3; split++ {
				f := osmref.File{run.Header("h")}
				b := run.Data()
				for i, k := range s {
					b.Groups = append(b.Groups, kinds[k])
					if split == 1 || split == 2 && i%2 == 1 {
						f = append(f, b)
						if split == 2 {
							f = append(f, run.Header(""))
						}
						b = run.Data()
					}
				}
				f = append(f, b)
				d := fmt.Sprintf("groups %v split=%d", s, split)
				if !run.Mine(r, d) || r.Stop() || r.Late("C18.files") {
					continue
				}
				for _, cmd := range all[:2] {
					for _, w := range []int{1, 3} {
						dd := fmt.Sprintf("%s on %s with %d workers", cmd, d, w)
						if !run.MineIn(r, dd) {
							continue
						}
						r.Begin(dd)
						run.Fresh(r.Scratch+"/d", map[string][]byte{"in.pbf": f.Encode()})
						x := run.Cmd(r, r.Scratch+"/d", run.Opt{NoFiles: true}, cmd, "-i", r.Scratch+"/d/in.pbf", "-w", fmt.Sprint(w))
						if bad := countCheck(cmd, f)(x); bad != "" {
							r.Fail(dd, bad, x.Stack, nil)
							return
						}
						r.Nontrivial(dd)
					}
				}
			}
		})
	})
	// the counters over several passes
	vlib.Register("C18.passes", func(r *vlib.R) {
		for _, n := range []int{131072*2 + 5, 131072} {
			f, locs := bigIndex(n)
			for _, m := range []string{"1", "2", "3"} {
				d := fmt.Sprintf("rewritenodes over %d nodes -m %s", n, m)
				if !run.Mine(r, d) || r.Stop() || r.Late(d) {
					continue
				}
				r.Begin(d)
				dir := r.Scratch + "/d"
				nix, _, bad := buildNodes(r, dir, f)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					continue
				}
				sm := smallOver(n)
				mb := 0
				fmt.Sscan(m, &mb)
				passes := n*8/(mb<<20) + 1
				run.Fresh(dir, map[string][]byte{"in.pbf": sm.Encode(), "n.idx": []byte(nix)})
				for w := 1; w <= 2; w++ {
					run.Prio(r, fmt.Sprintf("%s with %d workers", d, w), run.Sweep{Threads: w + 3, Last: true},
						func(o run.Opt) *run.Res {
							return run.Cmd(r, dir, o, "rewritenodes", "-i", dir+"/in.pbf", "-x", dir+"/n.idx", "-o", dir+"/out", "-m", m, "-w", fmt.Sprint(w))
						}, func(x *run.Res) string {
							if b := x.Bad(); b != "" {
								return b
							}
							return rewriteStats(sm, locs, passes)(x.Stdout)
						})
				}
			}
		}
		wf := wayFile()
		for al := 0; al < 4; al++ {
			for p := 1; p <= 9; p++ {
				d := fmt.Sprintf("relindex alignment %d with %d passes", al, p)
				if !run.Mine(r, d) || r.Stop() {
					continue
				}
				r.Begin(d)
				dir := r.Scratch + "/d"
				wix, bad := buildWays(r, dir, wf, al)
				if bad != "" {
					r.Fail(d, bad, "", nil)
					continue
				}
				f := osmref.File{run.Data(osmref.Group{Rels: []osmref.Rel{{ID: 1, Members: members([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 1})}, {ID: 2}, {ID: 3, Members: members([]int{9, 8, 7, 3, 3})}}})}
				run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode(), "w.idx": []byte(wix)})
				x := run.Cmd(r, dir, run.Opt{}, "relindex", "-i", dir+"/in.pbf", "-x", dir+"/w.idx", "-o", dir+"/out", "-p", fmt.Sprint(p), "-w", "1")
				if b := x.Bad(); b != "" {
					r.Fail(d, b, x.Stack, nil)
				} else if bad := relStats(f, lookup(wf), p)(x.Stdout); bad != "" {
					r.Fail(d, bad, x.Stdout, nil)
				} else {
					r.Nontrivial(d)
				}
			}
		}
	})
}
