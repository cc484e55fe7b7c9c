// instr writes instrumented copies of the Go files of a module and an overlay
// that puts them in place of the originals.
//
//	instr -repo /repo -work DIR [-stmt pkgsuffix,...] [-plain pkgsuffix,...] [-add overlay.json] -o overlay.json
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
}

const zz = "zz.local/zz/"

var (
	siteNames []string
	repo      string
)

func newSite(name string) int {
	siteNames = append(siteNames, name)
	return len(siteNames) - 1
}

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	seq      int
}

type rewriter struct {
	fset  *token.FileSet
	file  *ast.File
	src   []byte
	info  *types.Info
	name  string
	edits []edit
	stmt  bool
	useZ  bool
	tmp   int
	plain bool
	keep  bool // leaves imports as they are
	time  bool // time is controlled as well
	maps  bool // the order of map iterations is controlled as well
}

func (r *rewriter) off(p token.Pos) int { return r.fset.Position(p).Offset }
func (r *rewriter) text(n ast.Node) string {
	return string(r.src[r.off(n.Pos()):r.off(n.End())])
}
func (r *rewriter) ins(p token.Pos, s string) {
	o := r.off(p)
	r.edits = append(r.edits, edit{o, o, s, len(r.edits)})
}
func (r *rewriter) rep(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits)})
}
func (r *rewriter) site(n ast.Node, what string) int {
	p := r.fset.Position(n.Pos())
	r.useZ = true
	return newSite(fmt.Sprintf("%s:%d %s", r.name, p.Line, what))
}

func (r *rewriter) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// constOrNil reports expressions that must not be captured in a := variable.
func (r *rewriter) constOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok {
		return true
	}
	if tv.IsNil() || (tv.Value != nil && tv.Value.Kind() != constant.Unknown) {
		return true
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return true
	}
	return false
}

// renderSub returns the source of n with the edits made so far inside it applied
// and removes those edits.
func (r *rewriter) take(n ast.Node) string {
	a, b := r.off(n.Pos()), r.off(n.End())
	var in, out []edit
	for _, e := range r.edits {
		if e.pos >= a && e.end <= b {
			in = append(in, e)
		} else {
			out = append(out, e)
		}
	}
	r.edits = out
	return string(apply(r.src[a:b], in, a))
}

func apply(src []byte, edits []edit, base int) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var out bytes.Buffer
	at := 0
	for _, e := range edits {
		p, q := e.pos-base, e.end-base
		if p < at {
			log.Fatalf("overlapping edits near %q", e.text)
		}
		out.Write(src[at:p])
		out.WriteString(e.text)
		at = q
	}
	out.Write(src[at:])
	return out.Bytes()
}

// stmtList rewrites the statements of one block.
func (r *rewriter) stmtList(list []ast.Stmt) {
	for _, s := range list {
		r.stmtTop(s)
	}
}

func (r *rewriter) sPoint(s ast.Stmt) {
	if r.stmt {
		switch s.(type) {
		case *ast.EmptyStmt:
			return
		case *ast.BranchStmt:
			if s.(*ast.BranchStmt).Tok == token.FALLTHROUGH {
				return
			}
		}
		o := r.off(s.Pos())
		r.edits = append(r.edits, edit{o, o, fmt.Sprintf("zzs.S(%d);", r.site(s, "stmt")), -1 - len(r.edits)})
	}
}

func (r *rewriter) stmtTop(s ast.Stmt) {
	r.rewriteStmt(s, s.Pos())
	r.sPoint(s) // last, so that it is not taken for a part of the statement
}

// rewriteStmt rewrites s; outer is where text may be put in front of it (before any label).
func (r *rewriter) rewriteStmt(s ast.Stmt, outer token.Pos) {
	switch x := s.(type) {
	case nil:
	case *ast.LabeledStmt:
		r.rewriteStmt(x.Stmt, outer)
	case *ast.BlockStmt:
		r.stmtList(x.List)
	case *ast.GoStmt:
		r.goStmt(x)
	case *ast.DeferStmt:
		r.expr(x.Call)
	case *ast.SendStmt:
		r.expr(x.Chan)
		r.expr(x.Value)
		ch := r.take(x.Chan)
		val := r.take(x.Value)
		n := r.site(x, "send")
		r.tmp++
		pre, v := "", val
		if !r.constOrNil(x.Value) {
			pre = fmt.Sprintf("zzv%d := %s;", r.tmp, val)
			v = fmt.Sprintf("zzv%d", r.tmp)
		}
		r.rep(x.Pos(), x.End(), fmt.Sprintf("{zzc%d := %s; %s zzs.PS(%d, zzc%d); zzc%d <- %s; zzs.Q(%d)}", r.tmp, ch, pre, n, r.tmp, r.tmp, v, n))
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			r.commutativeAdd(c)
		}
		r.expr(x.X)
	case *ast.IncDecStmt:
		r.expr(x.X)
		if r.stmt && r.shared(x.X) {
			l := r.text(x.X)
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			r.take(x)
			r.tmp++
			r.rep(x.Pos(), x.End(), fmt.Sprintf("{zzt%d := %s %s 1; zzs.S(%d); %s = zzt%d}", r.tmp, l, op, r.site(x, "store"), l, r.tmp))
		}
	case *ast.AssignStmt:
		for _, e := range x.Rhs {
			r.expr(e)
		}
		for _, e := range x.Lhs {
			r.expr(e)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv(u, true)
			}
		}
		if r.stmt && len(x.Lhs) == 1 && len(x.Rhs) == 1 && r.shared(x.Lhs[0]) {
			l := r.text(x.Lhs[0])
			switch {
			case x.Tok == token.ASSIGN && !r.constOrNil(x.Rhs[0]) && types.Identical(r.info.TypeOf(x.Lhs[0]), r.info.TypeOf(x.Rhs[0])):
				v := r.take(x.Rhs[0])
				r.tmp++
				r.take(x)
				r.rep(x.Pos(), x.End(), fmt.Sprintf("{zzt%d := %s; zzs.S(%d); %s = zzt%d}", r.tmp, v, r.site(x, "store"), l, r.tmp))
			case x.Tok != token.ASSIGN && x.Tok != token.DEFINE:
				op := strings.TrimSuffix(x.Tok.String(), "=")
				v := r.take(x.Rhs[0])
				r.tmp++
				r.take(x)
				r.rep(x.Pos(), x.End(), fmt.Sprintf("{zzt%d := %s %s (%s); zzs.S(%d); %s = zzt%d}", r.tmp, l, op, v, r.site(x, "store"), l, r.tmp))
			}
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for _, v := range vs.Values {
						r.expr(v)
					}
					if len(vs.Names) == 2 && len(vs.Values) == 1 {
						if u, ok := unparen(vs.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
							r.recv(u, true)
						}
					}
				}
			}
		}
	case *ast.ReturnStmt:
		for _, e := range x.Results {
			r.expr(e)
		}
	case *ast.IfStmt:
		r.simple(x.Init)
		r.expr(x.Cond)
		r.stmtList(x.Body.List)
		if x.Else != nil {
			r.rewriteStmt(x.Else, x.Else.Pos())
		}
	case *ast.ForStmt:
		r.simple(x.Init)
		if x.Cond != nil {
			r.expr(x.Cond)
		}
		r.simple(x.Post)
		r.stmtList(x.Body.List)
	case *ast.RangeStmt:
		r.expr(x.X)
		if r.isChan(x.X) {
			r.rangeChan(x)
		} else if r.maps && r.isMap(x.X) {
			r.rangeMap(x)
		}
		r.stmtList(x.Body.List)
	case *ast.SwitchStmt:
		r.simple(x.Init)
		if x.Tag != nil {
			r.expr(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.expr(e)
			}
			r.stmtList(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		r.simple(x.Init)
		for _, c := range x.Body.List {
			r.stmtList(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		r.selectStmt(x, outer)
	}
}

// simple handles init/post statements, where nothing can be put in front.
func (r *rewriter) simple(s ast.Stmt) {
	switch x := s.(type) {
	case nil:
	case *ast.ExprStmt:
		r.expr(x.X)
	case *ast.AssignStmt:
		for _, e := range x.Rhs {
			r.expr(e)
		}
		for _, e := range x.Lhs {
			r.expr(e)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.recv(u, true)
			}
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// shared: an lvalue other threads may see, and that can be evaluated twice.
func (r *rewriter) shared(e ast.Expr) bool {
	pure := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			pure = false
		}
		return true
	})
	if !pure {
		return false
	}
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		_, isMap := r.info.TypeOf(x.X).Underlying().(*types.Map)
		return !isMap
	case *ast.Ident:
		if v, ok := r.info.Uses[x].(*types.Var); ok {
			return v.Parent() != nil && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
		}
	}
	return false
}

// fileOps are the operations on files that others can get in before.
var fileOps = map[string]bool{"Write": true, "WriteAt": true, "WriteString": true, "Read": true, "ReadAt": true, "ReadFrom": true, "WriteTo": true, "Seek": true, "Close": true, "Sync": true, "Truncate": true}

// nameOps are the functions of os that look up or change names.
var nameOps = map[string]bool{"Create": true, "Open": true, "OpenFile": true, "Remove": true, "RemoveAll": true, "Rename": true, "Truncate": true, "ReadFile": true, "WriteFile": true, "Stat": true}

func (r *rewriter) isFile(e ast.Expr) bool {
	p, ok := r.info.TypeOf(e).(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

func (r *rewriter) commutativeAdd(c *ast.CallExpr) {
	if r.plain || r.keep {
		return
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || !strings.HasPrefix(s.Sel.Name, "Add") {
		return
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return
	}
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" && !r.stmt {
		r.rep(s.Sel.Pos(), s.Sel.End(), "ZZ"+s.Sel.Name)
	}
}

func (r *rewriter) recv(u *ast.UnaryExpr, two bool) {
	if two {
		// already rewritten as Recv by expr: turn it into Recv2
		for i := range r.edits {
			if r.edits[i].pos == r.off(u.Pos()) && strings.HasPrefix(r.edits[i].text, "zzs.Recv(") {
				r.edits[i].text = "zzs.Recv2(" + strings.TrimPrefix(r.edits[i].text, "zzs.Recv(")
			}
		}
		return
	}
	n := r.site(u, "recv")
	r.rep(u.Pos(), u.X.Pos(), fmt.Sprintf("zzs.Recv(%d, ", n))
	r.ins(u.End(), ")")
}

// expr rewrites receives, closes and function literals inside e.
func (r *rewriter) expr(e ast.Node) {
	if e == nil {
		return
	}
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			r.stmtList(x.Body.List)
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r.recv(x, false)
			}
		case *ast.CallExpr:
			if r.isBuiltin(x.Fun, "close") {
				r.rep(x.Pos(), x.Args[0].Pos(), fmt.Sprintf("zzs.Close(%d, ", r.site(x, "close")))
			}
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if r.maps && fileOps[s.Sel.Name] && r.isFile(s.X) {
					r.useZ = true
					r.ins(s.X.Pos(), "zzs.IO(")
					r.ins(s.X.End(), ")")
				}
				if id, ok := s.X.(*ast.Ident); ok && r.maps && nameOps[s.Sel.Name] && len(x.Args) > 0 {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "os" {
						r.useZ = true
						r.ins(x.Args[0].Pos(), "zzs.Name(")
						r.ins(x.Args[0].End(), ")")
					}
				}
				if id, ok := s.X.(*ast.Ident); ok {
					if pn, ok := r.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "os" && s.Sel.Name == "Exit" {
						r.useZ = true
						// keeps os used
						r.rep(s.Pos(), s.End(), "func(zzc int) { _ = os.Exit; zzs.Exit(zzc) }")
						if id.Name != "os" {
							log.Fatalf("renamed os import in %s", r.name)
						}
					}
				}
			}
		}
		return true
	})
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) {
	n := r.site(x, "range")
	ch := r.take(x.X)
	r.tmp++
	ok := fmt.Sprintf("zzok%d", r.tmp)
	key := "_"
	decl := true
	if x.Key != nil {
		key = r.text(x.Key)
		decl = x.Tok == token.DEFINE
	}
	if decl {
		// the channel expression is evaluated once
		r.rep(x.For, x.Body.Pos(), fmt.Sprintf("for zzch%d, %s, %s := zzs.RangeFirst(%d, %s); %s; %s, %s = zzs.Recv2(%d, zzch%d) ", r.tmp, key, ok, n, ch, ok, key, ok, n, r.tmp))
	} else {
		r.rep(x.For, x.Body.Pos(), fmt.Sprintf("for zzch%d, %s := zzs.RangeFirstTo(%d, %s, &%s); %s; %s, %s = zzs.Recv2(%d, zzch%d) ", r.tmp, ok, n, ch, key, ok, key, ok, n, r.tmp))
	}
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// rangeMap lets the harness choose the order of the iteration.
func (r *rewriter) rangeMap(x *ast.RangeStmt) {
	name := func(e ast.Expr, want types.Type) (string, bool) {
		if e == nil {
			return "", true
		}
		id, ok := e.(*ast.Ident)
		if !ok {
			return "", false
		}
		if id.Name == "_" {
			return "", true
		}
		if x.Tok == token.ASSIGN && !types.Identical(r.info.TypeOf(e), want) {
			return "", false
		}
		return id.Name, true
	}
	mt := r.info.TypeOf(x.X).Underlying().(*types.Map)
	k, ok1 := name(x.Key, mt.Key())
	v, ok2 := name(x.Value, mt.Elem())
	if !ok1 || !ok2 {
		return
	}
	m := r.take(x.X)
	r.tmp++
	it := fmt.Sprintf("zzit%d", r.tmp)
	ptr := func(s string) string {
		if s == "" {
			return "nil"
		}
		return "&" + s
	}
	f, vars := "", ""
	if x.Tok == token.DEFINE {
		if k != "" {
			f, vars = f+"K", vars+", "+k
		}
		if v != "" {
			f, vars = f+"V", vars+", "+v
		}
	}
	r.useZ = true
	r.rep(x.For, x.Body.Pos(), fmt.Sprintf("for %s%s := zzs.MapRange%s(%s); %s.Next(%s, %s); ", it, vars, f, m, it, ptr(k), ptr(v)))
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.expr(x.Call)
	n := r.site(x, "go")
	_ = n
	r.tmp++
	id := r.tmp
	var b strings.Builder
	fun := r.take(x.Call.Fun)
	fmt.Fprintf(&b, "{zzf%d := %s;", id, fun)
	var args []string
	for i, a := range x.Call.Args {
		s := r.take(a)
		if r.constOrNil(a) {
			args = append(args, s)
			continue
		}
		v := fmt.Sprintf("zza%d_%d", id, i)
		fmt.Fprintf(&b, "%s := %s;", v, s)
		args = append(args, v)
	}
	call := strings.Join(args, ", ")
	if x.Call.Ellipsis.IsValid() {
		call += "..."
	}
	fmt.Fprintf(&b, "zzs.Go(func() { zzf%d(%s) })}", id, call)
	r.take(x)
	r.rep(x.Pos(), x.End(), b.String())
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, outer token.Pos) {
	n := r.site(x, "select")
	r.tmp++
	k := fmt.Sprintf("zzk%d", r.tmp)
	var args []string
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		var ch ast.Expr
		dir := "CR"
		switch s := cc.Comm.(type) {
		case nil:
		case *ast.SendStmt:
			ch, dir = s.Chan, "CS"
			r.expr(s.Value)
		case *ast.ExprStmt:
			ch = unparen(s.X).(*ast.UnaryExpr).X
		case *ast.AssignStmt:
			ch = unparen(s.Rhs[0]).(*ast.UnaryExpr).X
		}
		if ch != nil {
			args = append(args, fmt.Sprintf("zzs.%s(%s)", dir, r.text(ch)))
			r.ins(ch.Pos(), fmt.Sprintf("zzs.M(%s, %d, ", k, len(args)-1))
			r.ins(ch.End(), ")")
		}
		r.ins(cc.Colon+1, fmt.Sprintf(" zzs.Q(%d);", n))
		_ = i
		r.stmtList(cc.Body)
	}
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			args = append(args, "zzs.CD()")
		}
	}
	pre := fmt.Sprintf("{%s := zzs.Sel(%d", k, n)
	for _, a := range args {
		pre += ", " + a
	}
	r.ins(outer, pre+");_ = "+k+";")
	r.ins(x.End(), "}")
}

func (r *rewriter) run() {
	for _, d := range r.file.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.stmtList(x.Body.List)
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				if vs, ok := s.(*ast.ValueSpec); ok {
					for _, v := range vs.Values {
						r.expr(v)
					}
				}
			}
		}
	}
	if r.plain || r.keep {
		return
	}
	for _, im := range r.file.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		to := map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "context": "vcontext", "time": "vtime"}[path]
		if to == "" || (to == "vtime" && !r.time) {
			continue
		}
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		r.rep(im.Pos(), im.Path.End(), fmt.Sprintf("%s %q", name, zz+to))
	}
}

func hasSuffixIn(s string, l []string) bool {
	for _, x := range l {
		if x == "" {
			continue
		}
		if x == "*" || strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

func main() {
	work := flag.String("work", "", "")
	flag.StringVar(&repo, "repo", "/repo", "")
	stmt := flag.String("stmt", "", "packages with statement points")
	plain := flag.String("plain", "", "packages whose sync operations stay as they are")
	add := flag.String("add", "", "overlay to merge in")
	out := flag.String("o", "", "")
	mod := flag.String("modfile", "", "")
	vtime := flag.Bool("time", false, "time is controlled as well")
	maps := flag.Bool("maps", false, "the order of map iterations is controlled as well")
	extra := flag.String("extra", "", "directory of a copy of tcell to instrument as well")
	flag.Parse()
	log.SetFlags(0)
	log.SetPrefix("instr: ")

	la := []string{"list"}
	if *mod != "" {
		la = append(la, "-modfile", *mod)
	}
	cmd := exec.Command("go", append(la, "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module", "./...")...)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	js, err := cmd.Output()
	if err != nil {
		log.Fatalf("go list: %v", err)
	}
	var pkgs []*pkgInfo
	byPath := map[string]*pkgInfo{}
	dec := json.NewDecoder(bytes.NewReader(js))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			log.Fatal(err)
		}
		pkgs = append(pkgs, &p)
		byPath[p.ImportPath] = &p
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := byPath[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	overlay := map[string]string{}
	var cmds []string
	newSite("-")
	for i := 1; i < 20; i++ {
		newSite([]string{"", "mutex.Lock", "mutex.Unlock", "rwmutex.Lock", "rwmutex.Unlock", "wg.Add", "wg.Wait", "cond", "pool", "", "atomic.Load", "atomic.Store", "atomic.Add", "atomic.Swap", "atomic.CAS", "ctx.Err", "cancel", "file", "", ""}[i])
	}
	nfiles := 0
	for _, p := range pkgs {
		if p.Standard || p.Module == nil || p.Dir == "" || (!strings.HasPrefix(p.Dir+"/", repo+"/") && (*extra == "" || (p.Dir != *extra && p.Dir != *extra+"/views"))) {
			continue
		}
		own := strings.HasPrefix(p.Dir+"/", repo+"/")
		if p.ImportPath == "" || len(p.GoFiles) == 0 {
			continue
		}
		rel, _ := filepath.Rel(repo, p.Dir)
		if !own {
			rel = "tcell/" + strings.TrimPrefix(strings.TrimPrefix(p.Dir, *extra), "/")
		}
		if strings.HasPrefix(rel, "internal/zzv") {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			fn := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				log.Fatal(err)
			}
			af, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				log.Fatal(err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		tc := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = tc.Check(p.ImportPath, fset, files, info)
		isMain := p.Name == "main"
		for i, af := range files {
			rw := &rewriter{fset: fset, file: af, src: srcs[i], info: info, name: filepath.Join(rel, p.GoFiles[i]), plain: hasSuffixIn(rel, strings.Split(*plain, ","))}
			rw.stmt = own && hasSuffixIn(rel, strings.Split(*stmt, ","))
			rw.time = own && *vtime
			rw.maps = own && *maps
			if !own && p.Dir == *extra {
				if p.GoFiles[i] != "simulation.go" {
					continue
				}
				rw.keep = true // its lock is never held at a scheduling point
			}
			if !rw.plain {
				rw.run()
			}
			if isMain {
				rw.rep(af.Name.Pos(), af.Name.End(), "zzcmd")
				for _, d := range af.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
						rw.rep(fd.Name.Pos(), fd.Name.End(), "Main")
					}
				}
			}
			globals := ""
			if own {
				for _, d := range af.Decls {
					gd, ok := d.(*ast.GenDecl)
					if !ok || gd.Tok != token.VAR {
						continue
					}
					for _, sp := range gd.Specs {
						for _, n := range sp.(*ast.ValueSpec).Names {
							if n.Name != "_" {
								globals += "\tzzs.Global(&" + n.Name + ")\n"
							}
						}
					}
				}
				if globals != "" {
					rw.useZ = true
				}
			}
			if len(rw.edits) == 0 && !isMain && globals == "" {
				continue
			}
			if rw.useZ {
				rw.ins(af.Name.End(), "; import zzs \""+zz+"zzs\"; var _ = zzs.S")
			}
			// imports must precede other declarations: put the use marker at the end instead
			text := string(apply(srcs[i], rw.edits, 0))
			if rw.useZ {
				text = strings.Replace(text, "; var _ = zzs.S", "", 1) + "\nvar _ = zzs.S\n"
			}
			if globals != "" {
				text += "\nfunc init() {\n" + globals + "}\n"
			}
			text = addBuild(text)
			dst := filepath.Join(p.Dir, p.GoFiles[i])
			if isMain {
				dst = filepath.Join(repo, "internal/zzv/cmds", filepath.Base(p.Dir), p.GoFiles[i])
			}
			wf := filepath.Join(*work, "src", fmt.Sprintf("%s__%s", strings.ReplaceAll(rel, "/", "_"), p.GoFiles[i]))
			_ = os.MkdirAll(filepath.Dir(wf), 0o755)
			if err := os.WriteFile(wf, []byte(text), 0o644); err != nil {
				log.Fatal(err)
			}
			overlay[dst] = wf
			nfiles++
		}
		if isMain {
			cmds = append(cmds, filepath.Base(p.Dir))
		}
	}
	// sites
	var b strings.Builder
	b.WriteString("package zzsites\n\nimport \"" + zz + "zzs\"\n\nfunc init() { zzs.SetSites([]string{\n")
	for _, s := range siteNames {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}) }\n")
	sf := filepath.Join(*work, "src", "zzsites.go")
	_ = os.MkdirAll(filepath.Dir(sf), 0o755)
	if err := os.WriteFile(sf, []byte(b.String()), 0o644); err != nil {
		log.Fatal(err)
	}
	overlay[filepath.Join(repo, "internal/zzv/zzsites/sites.go")] = sf
	if *add != "" {
		var o struct{ Replace map[string]string }
		d, err := os.ReadFile(*add)
		if err != nil {
			log.Fatal(err)
		}
		if err := json.Unmarshal(d, &o); err != nil {
			log.Fatal(err)
		}
		for k, v := range o.Replace {
			overlay[k] = v
		}
	}
	d, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(*out, d, 0o644); err != nil {
		log.Fatal(err)
	}
	sort.Strings(cmds)
	fmt.Printf("instrumented %d files, %d sites, commands: %s\n", nfiles, len(siteNames), strings.Join(cmds, " "))
}

// addBuild raises the file's language version enough for the generic helpers,
// and not so far that loop variables change meaning.
func addBuild(s string) string {
	lines := strings.SplitN(s, "\n", 40)
	for i, l := range lines {
		if strings.HasPrefix(l, "//go:build ") {
			lines[i] = "//go:build (" + strings.TrimPrefix(l, "//go:build ") + ") && go1.21"
			return strings.Join(lines, "\n")
		}
		if strings.HasPrefix(l, "package ") {
			break
		}
	}
	return "//go:build go1.21\n\n" + s
}
