// Command mutate lists or applies small mechanical changes to godis: negated
// conditions, shifted comparisons and constants, removed statements, swapped
// operators. It measures the checks; no check uses it.
//
//	mutate list DIR            prints "n file:line kind text"
//	mutate apply DIR n         writes mutant n into DIR
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file string
	line int
	kind string
	text string
	do   func()
}

func main() {
	dir := os.Args[2]
	var files []string
	for _, d := range []string{"datastruct", "event", "protocol", "redis", "server/v2", "server/v1", "lib/shard_map", "cmd/server"} {
		m, _ := filepath.Glob(filepath.Join(dir, d, "*.go"))
		for _, f := range m {
			if !strings.HasSuffix(f, "_test.go") && !strings.HasSuffix(f, ".cmd.go") {
				files = append(files, f)
			}
		}
	}
	sort.Strings(files)
	want := -1
	if os.Args[1] == "apply" {
		want, _ = strconv.Atoi(os.Args[3])
	}
	n := 0
	for _, f := range files {
		fset := token.NewFileSet()
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		text := func(x ast.Node) string {
			s := string(src[fset.Position(x.Pos()).Offset:fset.Position(x.End()).Offset])
			s = strings.Join(strings.Fields(s), " ")
			if len(s) > 80 {
				s = s[:80]
			}
			return s
		}
		var ms []mutant
		add := func(x ast.Node, kind string, do func()) {
			rel, _ := filepath.Rel(dir, f)
			ms = append(ms, mutant{rel, fset.Position(x.Pos()).Line, kind, text(x), do})
		}
		skip := map[string]bool{"print": true, "String": true, "PrintSupportedCmd": true}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || skip[fd.Name.Name] {
				continue
			}
			ast.Inspect(fd.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.IfStmt:
					c := x.Cond
					add(c, "negate", func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
				case *ast.BinaryExpr:
					swap := map[token.Token][]token.Token{
						token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
						token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
						token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
					}[x.Op]
					for _, o := range swap {
						if o == token.NEQ || o == token.EQL {
							continue // the same as negate
						}
						add(x, "op "+o.String(), func() { x.Op = o })
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							add(x, "const+1", func() { x.Value = strconv.Itoa(v + 1) })
							if v > 0 {
								add(x, "const-1", func() { x.Value = strconv.Itoa(v - 1) })
							}
						}
					}
				case *ast.IncDecStmt:
					add(x, "incdec", func() {
						if x.Tok == token.INC {
							x.Tok = token.DEC
						} else {
							x.Tok = token.INC
						}
					})
				case *ast.DeferStmt:
					c := x.Call
					add(x, "undefer", func() {
						x.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}}
						_ = c
					})
				case *ast.BlockStmt:
					drop(x.List, add)
				case *ast.CaseClause:
					drop(x.Body, add)
				case *ast.CommClause:
					drop(x.Body, add)
				}
				return true
			})
		}
		for _, m := range ms {
			if want < 0 {
				fmt.Printf("%d %s:%d %s | %s\n", n, m.file, m.line, m.kind, m.text)
			} else if n == want {
				m.do()
				var b bytes.Buffer
				if err := format.Node(&b, fset, af); err != nil {
					panic(err)
				}
				if err := os.WriteFile(f, b.Bytes(), 0o644); err != nil {
					panic(err)
				}
				return
			}
			n++
		}
	}
}

// drop removes single statements.
func drop(l []ast.Stmt, add func(ast.Node, string, func())) {
	for i := range l {
		i := i
		switch s := l[i].(type) {
		case *ast.ExprStmt:
			if strings.HasPrefix(callee(s.X), "log.") {
				continue
			}
			add(s, "drop", func() { l[i] = &ast.EmptyStmt{} })
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s, "drop", func() { l[i] = &ast.EmptyStmt{} })
			}
		case *ast.BranchStmt:
			if s.Tok == token.BREAK || s.Tok == token.CONTINUE {
				add(s, "drop", func() { l[i] = &ast.EmptyStmt{} })
			}
		case *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
			add(s, "drop", func() { l[i] = &ast.EmptyStmt{} })
		case *ast.ReturnStmt:
			if len(s.Results) == 0 {
				add(s, "drop", func() { l[i] = &ast.EmptyStmt{} })
			}
		case *ast.IfStmt:
			if s.Init == nil && s.Else == nil {
				add(s, "dropif", func() { l[i] = &ast.EmptyStmt{} })
			}
		}
	}
}

func callee(x ast.Expr) string {
	c, ok := x.(*ast.CallExpr)
	if !ok {
		return ""
	}
	if s, ok := c.Fun.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			return id.Name + "." + s.Sel.Name
		}
	}
	return ""
}
