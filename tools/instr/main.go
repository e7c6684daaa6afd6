// Command instr writes a go build overlay for the juju/worker sources found in
// a repository: every statement is preceded by a call to verifsched.Point, and
// the blocking primitives of package sync are replaced by ones that block
// durably in a testing/synctest bubble.  It works on whatever the sources are
// at the time it runs; it does not look for particular functions or names.
//
// usage: instr [-plain] REPO OUTDIR PKGDIR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

const schedPath = "github.com/juju/worker/v4/verifsched"

func main() {
	args := os.Args[1:]
	plain := false
	if len(args) > 0 && args[0] == "-plain" {
		plain = true
		args = args[1:]
	}
	repo, out, sched := args[0], args[1], args[2]
	pkgs := args[3:]
	repl := map[string]string{
		filepath.Join(repo, "verifsched", "verifsched.go"): sched,
	}
	if !plain {
		for _, p := range pkgs {
			files, err := filepath.Glob(filepath.Join(repo, p, "*.go"))
			check(err)
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := instrument(f)
				check(err)
				dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(f, repo+"/"), "/", "__"))
				check(os.WriteFile(dst, src, 0o644))
				repl[f] = dst
			}
		}
	}
	data, err := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), data, 0o644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func instrument(file string) ([]byte, error) {
	fset := token.NewFileSet()
	// Comments are dropped except build constraints, which come first in the
	// file and are copied verbatim.
	raw, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	f, err := parser.ParseFile(fset, file, raw, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	syncName := ""
	for _, imp := range f.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			syncName = "sync"
			if imp.Name != nil {
				syncName = imp.Name.Name
			}
		}
	}
	used := false
	if syncName != "" && syncName != "." && syncName != "_" {
		ast.Inspect(f, func(n ast.Node) bool {
			sel, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := sel.X.(*ast.Ident)
			if !ok || id.Name != syncName {
				return true
			}
			switch sel.Sel.Name {
			case "Mutex", "RWMutex", "Once":
				id.Name = "verifsched"
				used = true
			}
			return true
		})
	}
	point := func() ast.Stmt {
		used = true
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{
			X: ast.NewIdent("verifsched"), Sel: ast.NewIdent("Point")}}}
	}
	expand := func(list []ast.Stmt) []ast.Stmt {
		var res []ast.Stmt
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
			default:
				res = append(res, point())
			}
			res = append(res, s)
		}
		return res
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// Function literals in variable declarations.
			ast.Inspect(d, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					fl.Body.List = expand(fl.Body.List)
				}
				return true
			})
			continue
		}
		if fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				// Their bodies hold only clauses.
				var body *ast.BlockStmt
				switch n := n.(type) {
				case *ast.SwitchStmt:
					body = n.Body
				case *ast.TypeSwitchStmt:
					body = n.Body
				case *ast.SelectStmt:
					body = n.Body
				}
				for _, c := range body.List {
					ast.Inspect(c, func(ast.Node) bool { return false })
				}
				return true
			case *ast.BlockStmt:
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				n.List = expand(n.List)
			case *ast.CaseClause:
				n.Body = expand(n.Body)
			case *ast.CommClause:
				n.Body = expand(n.Body)
			}
			return true
		})
	}
	var buf bytes.Buffer
	for _, line := range strings.Split(string(raw), "\n") {
		if strings.HasPrefix(line, "package ") {
			break
		}
		if strings.HasPrefix(line, "//go:build") || strings.HasPrefix(line, "// +build") {
			fmt.Fprintf(&buf, "%s\n\n", line)
		}
	}
	f.Comments = nil
	f.Doc = nil
	if used {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(schedPath)}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
	if syncName != "" && syncName != "." && syncName != "_" {
		// Keep the import used.
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{
			Names: []*ast.Ident{ast.NewIdent("_")},
			Type:  &ast.SelectorExpr{X: ast.NewIdent(syncName), Sel: ast.NewIdent("Locker")},
		}}})
	}
	if err := printer.Fprint(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}
