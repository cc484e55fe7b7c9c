package cli

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"zz.local/zz/osmref"
	"zz.local/zz/vlib"

	"github.com/squizzling/osmindex/internal/zzv/run"
)

// val is a Go expression in canonical form: numbers in decimal, maps sorted,
// pointers and type names without their package.
func val(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return val(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.SUB {
			return "-" + val(x.X)
		}
		return val(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			if n, err := strconv.ParseUint(x.Value, 0, 64); err == nil {
				return fmt.Sprint(int64(n)) // (refs are printed as unsigned numbers)
			}
		case token.STRING:
			if s, err := strconv.Unquote(x.Value); err == nil {
				return strconv.Quote(s)
			}
		}
		return x.Value
	case *ast.Ident:
		if x.Name == "nil" {
			return "{}"
		}
		return x.Name
	case *ast.CallExpr: // []T(nil)
		if len(x.Args) == 1 {
			return val(x.Args[0])
		}
	case *ast.SelectorExpr:
		return x.Sel.Name
	case *ast.CompositeLit:
		var kv []string
		isMap := false
		if _, ok := x.Type.(*ast.MapType); ok {
			isMap = true
		}
		n := ""
		switch t := x.Type.(type) {
		case *ast.SelectorExpr:
			n = t.Sel.Name
		case *ast.Ident:
			n = t.Name
		}
		for _, y := range x.Elts {
			if k, ok := y.(*ast.KeyValueExpr); ok {
				kv = append(kv, val(k.Key)+":"+val(k.Value))
			} else {
				kv = append(kv, val(y))
			}
		}
		if isMap || n != "" {
			sort.Strings(kv)
		}
		return n + "{" + strings.Join(kv, " ") + "}"
	}
	return fmt.Sprintf("?%T", e)
}

// entities reads what entityfind printed, sorted.
func entities(s string) ([]string, string) {
	var out []string
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if l == "" {
			continue
		}
		e, err := parser.ParseExpr(l)
		if err != nil {
			return nil, fmt.Sprintf("unreadable line %q", l)
		}
		out = append(out, val(e))
	}
	sort.Strings(out)
	return out, ""
}

func tagText(m map[string]string) string {
	var s []string
	for k, v := range m {
		s = append(s, strconv.Quote(k)+":"+strconv.Quote(v))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, " ") + "}"
}

func list[T any](s []T) string {
	var o []string
	for _, x := range s {
		o = append(o, fmt.Sprint(x))
	}
	return "{" + strings.Join(o, " ") + "}"
}

// expectFind is what entityfind has to print, sorted.
func expectFind(f osmref.File, ids map[int64]bool) []string {
	var out []string
	for _, b := range f.Expect() {
		for _, n := range b.Nodes {
			if ids[n.ID] {
				out = append(out, fmt.Sprintf("HLNode{Id:%d Lat:%d Lon:%d Tags:%s}", n.ID, n.Lat, n.Lon, tagText(n.Tags)))
			}
		}
		for _, w := range b.Ways {
			if ids[w.ID] {
				out = append(out, fmt.Sprintf("HLWay{Id:%d Nodes:%s Tags:%s}", w.ID, list(w.Refs), tagText(w.Tags)))
			}
		}
		for _, x := range b.Rels {
			if ids[x.ID] {
				var ms []int64
				var ts []int32
				var rs []string
				for _, m := range x.Members {
					ms, ts, rs = append(ms, m.ID), append(ts, int32(m.Type)), append(rs, strconv.Quote(m.Role))
				}
				out = append(out, fmt.Sprintf("HLRelation{Id:%d MemberType:%s Members:%s Roles:%s Tags:%s}", x.ID, list(ts), list(ms), list(rs), tagText(x.Tags)))
			}
		}
	}
	sort.Strings(out)
	return out
}

// findCase asks entityfind for ids.
func findCheck(f osmref.File, ids []int64) run.Check {
	m := map[int64]bool{}
	for _, id := range ids {
		m[id] = true
	}
	want := strings.Join(expectFind(f, m), "\n")
	return func(x *run.Res) string {
		if b := x.Bad(); b != "" {
			return b
		}
		got, bad := entities(x.Stdout)
		if bad != "" {
			return bad
		}
		if g := strings.Join(got, "\n"); g != want {
			return "wrong entities: " + run.Diff(g, want)
		}
		return ""
	}
}

func findOne(r *vlib.R, f osmref.File, ids []int64, w int) run.One {
	dir := r.Scratch + "/d"
	run.Fresh(dir, map[string][]byte{"in.pbf": f.Encode()})
	a := []string{"-i", dir + "/in.pbf", "-w", fmt.Sprint(w)}
	for _, id := range ids {
		a = append(a, "-e", fmt.Sprint(id))
	}
	return func(o run.Opt) *run.Res { o.NoFiles = true; return run.Cmd(r, dir, o, "entityfind", a...) }
}

func idsOf(f osmref.File) []int64 {
	m := map[int64]bool{}
	for _, b := range f.Expect() {
		for _, n := range b.Nodes {
			m[n.ID] = true
		}
		for _, w := range b.Ways {
			m[w.ID] = true
		}
		for _, x := range b.Rels {
			m[x.ID] = true
		}
	}
	var ids []int64
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func init() {
	vlib.Register("C19.ids", func(r *vlib.R) {
		// every id of every corpus file alone, its neighbours, every pair, all of them, none of them
		for _, c := range run.Corpus() {
			f := c.F
			ids := idsOf(f)
			sets := [][]int64{{1 << 50}, {0}, append([]int64{}, ids...)}
			for i, id := range ids {
				sets = append(sets, []int64{id}, []int64{id + 1}, []int64{id, id})
				for j := range ids {
					if j > i && (len(ids) < 12 || r.Thorough()) {
						sets = append(sets, []int64{ids[j], id})
					}
				}
			}
			if len(ids) <= 10 {
				for m := 0; m < 1<<len(ids); m++ {
					var s []int64
					for i := range ids {
						if m>>i&1 == 1 {
							s = append(s, ids[i])
						}
					}
					if len(s) > 2 {
						sets = append(sets, s)
					}
				}
			}
			for _, s := range sets {
				d := fmt.Sprintf("%s: ids %v", c.Name, s)
				if len(s) == 0 || !run.Mine(r, d) || r.Stop() || r.Late("C19.ids") {
					continue
				}
				for _, w := range []int{1, 4} {
					dd := fmt.Sprintf("%s with %d workers", d, w)
					if run.MineIn(r, dd) {
						run.Once(r, dd, dd, findOne(r, f, s, w), findCheck(f, s))
					}
				}
			}
		}
	})
	// entities with every kind of tag, text, position and member
	vlib.Register("C19.values", func(r *vlib.R) {
		txt := []string{"", "a", "name", "%d%s", "a\nb", "\"q\" `t`", "é世界", "\x00\x7f", "long" + strings.Repeat("x", 200)}
		for i, k := range txt {
			for j, v := range txt {
				d := fmt.Sprintf("tag %q=%q", k, v)
				if !run.Mine(r, d) || r.Stop() {
					continue
				}
				nt := osmref.Node{ID: 7, Lat: int64(i), Lon: -int64(j)}
				if k != "" {
					nt.Tags = run.Tags(k, v, "z", "")
				}
				f := osmref.File{run.Data(osmref.Group{Nodes: []osmref.Node{run.N(5, 1, 1), nt}},
					osmref.Group{Ways: []osmref.Way{{ID: 7, Refs: []int64{1, -1, 1 << 62, -1 << 63, 7}, Tags: run.Tags(k, v, "y", "n")}, run.W(8)}},
					osmref.Group{Rels: []osmref.Rel{{ID: 7, Tags: run.Tags("t", "u", k, v), Members: []osmref.Member{{Type: 0, ID: 7, Role: v}, {Type: 2, ID: 1 << 40, Role: k}, {Type: 1, ID: 3, Role: ""}, {Type: 1, ID: 3, Role: "y"}}}, {ID: 8}}})}
				run.Once(r, d, d, findOne(r, f, []int64{7, 8}, 1), findCheck(f, []int64{7, 8}))
			}
		}
		for _, g := range []int64{1, 10, 50, 100, 1000, 10000, 1000000} {
			for _, la := range []int64{0, 1, -1, 5000000, -123456789} {
				for _, lo := range []int64{0, 7, -90000000000, 3} {
					d := fmt.Sprintf("granularity %d offsets %d,%d", g, la, lo)
					if !run.Mine(r, d) || r.Stop() {
						continue
					}
					b := run.Data(osmref.Group{Nodes: []osmref.Node{run.N(1, 0, 0), run.N(2, 89000000000/g, 179000000000/g), run.N(3, -89000000000/g, -179000000000/g, "a", "b"), run.N(4, -1, 1)}})
					b.Gran, b.LatOff, b.LonOff = int32(g), la, lo
					f := osmref.File{b}
					run.Once(r, d, d, findOne(r, f, []int64{1, 2, 3, 4}, 2), findCheck(f, []int64{1, 2, 3, 4}))
				}
			}
		}
	})
	// the first and last ids there can be, and those where widths change
	vlib.Register("C19.range", func(r *vlib.R) {
		ids := []int64{0, 1, 127, 128, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<53 + 1, 1<<62 - 1, 1<<63 - 1}
		var ns, ws, rs osmref.Group
		for i, id := range ids {
			k := int64(i)
			ns.Nodes = append(ns.Nodes, run.N(id, k, -k, "k", fmt.Sprint(i)))
			if id > 0 {
				ws.Ways = append(ws.Ways, run.W(id, k+1, 5))
			}
			rs.Rels = append(rs.Rels, osmref.Rel{ID: id, Members: []osmref.Member{{Type: i % 3, ID: k + 1, Role: "r"}}})
		}
		for _, f := range []osmref.File{{run.Data(ns, ws, rs)}, {run.Data(ns)}, {run.Data(rs), run.Data(ws)}, {run.Data(ns), run.Data(ws), run.Data(rs)}} {
			for i, a := range ids {
				for j := i; j <= len(ids); j++ {
					s := []int64{a}
					if j < len(ids) {
						s = append(s, ids[j])
					}
					d := fmt.Sprintf("%d blocks with ids of every width: ids %v", len(f), s)
					if !run.Mine(r, d) || r.Stop() || r.Late("C19.range") {
						continue
					}
					run.Once(r, d, d, findOne(r, f, s, 1+j%2), findCheck(f, s))
				}
			}
		}
	})
	vlib.Register("C19.sched", func(r *vlib.R) {
		for n := 2; n <= 3; n++ {
			for w := 1; w <= 3; w++ {
				if n+w > 5 && !r.Thorough() {
					continue
				}
				f := run.Multi(n, false)
				ids := []int64{1, 2, 4, 11, 15}
				d := fmt.Sprintf("multi%d with %d workers", n, w)
				if run.Mine(r, d) && !r.Stop() {
					run.DFS(r, d, false, 0, findOne(r, f, ids, w), findCheck(f, ids))
				}
			}
		}
		for _, c := range run.Corpus() {
			for _, w := range []int{2, 3, 17} {
				d := fmt.Sprintf("%s with %d workers", c.Name, w)
				if run.Mine(r, d) && !r.Stop() && !r.Late(d) {
					ids := append(idsOf(c.F), 1<<50)
					run.Prio(r, d, run.Sweep{Threads: w + 2, Last: true, Changes: 1, Stride: r.Pick(4, 1)}, findOne(r, c.F, ids, w), findCheck(c.F, ids))
				}
			}
		}
	})
	// so much found that it cannot be kept back: lines stay whole and complete
	vlib.Register("C19.large", func(r *vlib.R) {
		for _, c := range []struct{ blobs, per, tags, size int }{{30, 3, 4, 60}, {20, 12, 8, 50}, {12, 40, 20, 100}, {6, 3, 2, 70000}} {
			var f osmref.File
			var ids []int64
			for b := 0; b < c.blobs; b++ {
				var ns []osmref.Node
				for i := 0; i < c.per; i++ {
					n := osmref.Node{ID: int64(len(ids) + 1), Lat: int64(b), Lon: int64(i)}
					for t := 0; t < c.tags; t++ {
						n.Tags = append(n.Tags, run.Tags(fmt.Sprint("k", t), strings.Repeat(string(rune('a'+(b+i+t)%26)), c.size))...)
					}
					ids = append(ids, n.ID)
					ns = append(ns, n)
				}
				f = append(f, run.Data(osmref.Group{Nodes: ns}))
			}
			for _, w := range []int{1, 2, 3, 8} {
				d := fmt.Sprintf("%d entities with %d tags of %d bytes in %d blobs, %d workers", len(ids), c.tags, c.size, c.blobs, w)
				if run.Mine(r, d) && !r.Stop() && !r.Late(d) {
					s := run.Sweep{Threads: w + 2, Last: true}
					if w < 4 {
						s.Bases, s.Changes, s.Stride = []int{0, 1, 4, 5}, 1, r.Pick(7, 1)
					}
					run.Prio(r, d, s, findOne(r, f, ids, w), findCheck(f, ids))
				}
			}
		}
	})
	vlib.Register("C19.stmt", func(r *vlib.R) {
		f := run.Multi(2, false)
		ids := []int64{1, 2, 4, 11, 15}
		for w := 2; w <= 3; w++ {
			d := fmt.Sprintf("multi2 with %d workers", w)
			if run.Mine(r, d) && !r.Stop() {
				run.Prio(r, d, run.Sweep{Bases: []int{0, 1}, Stmts: r.Pick(2, 1)}, findOne(r, f, ids, w), findCheck(f, ids))
			}
		}
	})
}
