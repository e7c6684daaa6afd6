// Command mut lists small changes (mutants) of a Go file as JSON lines.  A
// development tool used to look for changes the checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
)

type edit struct {
	File string `json:"file"`
	Line int    `json:"line"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	New  string `json:"new"`
	What string `json:"what"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(n ast.Node, a, b token.Pos, repl, what string) {
			enc.Encode(edit{name, fs.Position(n.Pos()).Line, off(a), off(b), repl, what})
		}
		var results []*ast.FieldList
		list := func(ss []ast.Stmt) {
			for i, s := range ss {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
					emit(s, s.Pos(), s.End(), "", "delete "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s, s.Pos(), s.End(), "", "delete "+text(s))
					}
				case *ast.IfStmt:
					if s.Init == nil {
						emit(s, s.Pos(), s.End(), "", "delete if "+text(s.Cond))
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s, s.Pos(), s.End(), "", "delete return")
					}
				case *ast.ForStmt, *ast.RangeStmt:
					var body *ast.BlockStmt
					if x, ok := s.(*ast.ForStmt); ok {
						body = x.Body
					} else {
						body = s.(*ast.RangeStmt).Body
					}
					emit(s, body.Rbrace, body.Rbrace, "; break;", "one iteration")
				}
				if i+1 < len(ss) {
					emit(s, s.Pos(), ss[i+1].End(), text(ss[i+1])+"\n"+text(s), "swap with the next statement")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				results = append(results, n.Type.Results)
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
				emit(n, n.Pos(), n.End(), "", "delete case")
				if len(n.List) > 1 {
					for i, x := range n.List {
						if i+1 < len(n.List) {
							emit(x, x.Pos(), n.List[i+1].Pos(), "", "delete alternative "+text(x))
						} else {
							emit(x, n.List[i-1].End(), x.End(), "", "delete alternative "+text(x))
						}
					}
				}
			case *ast.CommClause:
				list(n.Body)
				emit(n, n.Pos(), n.End(), "", "delete select case")
			case *ast.IfStmt:
				emit(n, n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
				emit(n, n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "always "+text(n.Cond))
				emit(n, n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "never "+text(n.Cond))
				if n.Else != nil {
					emit(n, n.Body.End(), n.Else.End(), "", "delete else")
				}
			case *ast.BinaryExpr:
				m := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}}
				for _, r := range m[n.Op] {
					emit(n, n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, fmt.Sprintf("%s -> %s in %s", n.Op, r, text(n)))
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n, n.Pos(), n.End(), text(n.X), "left of "+text(n))
					emit(n, n.Pos(), n.End(), text(n.Y), "right of "+text(n))
				}
			case *ast.Ident:
				if n.Name == "true" {
					emit(n, n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					emit(n, n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					emit(n, n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+"+1")
				}
			case *ast.ReturnStmt:
				for _, r := range n.Results {
					if _, ok := r.(*ast.Ident); ok && text(r) == "err" {
						emit(n, r.Pos(), r.End(), "nil", "return nil for err")
					}
					if c, ok := r.(*ast.CallExpr); ok {
						emit(n, c.Pos(), c.End(), "nil", "return nil for "+text(c))
					}
				}
			case *ast.CallExpr:
				if len(n.Args) == 1 {
					emit(n, n.Pos(), n.End(), text(n.Args[0]), "argument of "+text(n))
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 1 {
					emit(n, n.Rparen, n.Rparen, ", 1", "buffered")
				}
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "make" && len(n.Args) == 2 {
					emit(n, n.Args[0].End(), n.Args[1].End(), "", "unbuffered")
				}
			case *ast.GoStmt:
				emit(n, n.Pos(), n.Call.Pos(), "", "go removed")
			case *ast.DeferStmt:
				emit(n, n.Pos(), n.Call.Pos(), "", "defer removed")
			}
			return true
		})
	}
}
