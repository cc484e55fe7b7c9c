// mutate lists small changes of Go files: file, from, to (offsets), text, description, as JSON lines.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File     string
	From, To int
	Text     string
	What     string
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	token.LAND: {"||"}, token.LOR: {"&&"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		line := func(p token.Pos) int { return fset.Position(p).Line }
		out := func(a, b token.Pos, text, what string) {
			_ = enc.Encode(mut{fn, off(a), off(b), text, fmt.Sprintf("%s:%d: %s", fn, line(a), what)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		short := func(n ast.Node) string {
			s := text(n)
			if len(s) > 60 {
				s = s[:60] + "..."
			}
			return s
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT || x.Tok == token.TYPE {
					return false
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					out(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t, "in "+short(x)+": "+x.Op.String()+" -> "+t)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						out(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> "+fmt.Sprint(v+1))
						if v > 1 {
							out(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> "+fmt.Sprint(v-1))
						}
					}
				}
			case *ast.IfStmt:
				out(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "if "+short(x.Cond)+" negated")
			case *ast.Ident:
				if x.Name == "true" {
					out(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					out(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					out(x.Pos(), x.End(), "continue", "break -> continue")
				} else if x.Label == nil && x.Tok == token.CONTINUE {
					out(x.Pos(), x.End(), "break", "continue -> break")
				}
			case *ast.BlockStmt:
				stmts(x.List, out, short)
			case *ast.CaseClause:
				stmts(x.Body, out, short)
			case *ast.CommClause:
				stmts(x.Body, out, short)
			}
			return true
		})
	}
}

func stmts(l []ast.Stmt, out func(a, b token.Pos, text, what string), short func(ast.Node) string) {
	for i, s := range l {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt:
			out(s.Pos(), s.End(), "", "deleted: "+short(s))
		case *ast.AssignStmt:
			if x.Tok == token.ASSIGN {
				out(s.Pos(), s.End(), "", "deleted: "+short(s))
			} else if x.Tok != token.DEFINE {
				out(s.Pos(), s.End(), "", "deleted: "+short(s))
			}
		}
		if i+1 < len(l) {
			switch a := s.(type) {
			case *ast.ExprStmt:
				if _, ok := l[i+1].(*ast.ExprStmt); ok { // two calls the other way round
					out(a.Pos(), l[i+1].End(), "\x00swap", "exchanged: "+short(a)+" and "+short(l[i+1]))
				}
			}
		}
	}
}
