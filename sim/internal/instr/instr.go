// Package instr copies the godis tree and inserts a scheduling point before
// every statement. Insertions stay on the statement's own line, so panic
// traces keep the original line numbers.
package instr

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Site is one inserted scheduling point.
type Site struct {
	File string
	Line int
	Func string
}

// skipDirs are not part of the server: the code generator, the end-to-end test
// helpers and non-code.
var skipDirs = map[string]bool{"cmd/gen_redis_cmd": true, "e2e": true, ".git": true, "benchmark": true, "static": true}

type ins struct {
	off int
	txt string
}

// Copy instruments src into dst and returns the sites.
func Copy(src, dst string) ([]Site, error) {
	var sites []Site
	var files []string
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if skipDirs[rel] {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		if strings.HasSuffix(rel, ".go") || rel == "go.mod" || rel == "go.sum" {
			files = append(files, rel)
			return nil
		}
		if !fi.Mode().IsRegular() || fi.Size() > 1<<20 {
			return nil
		}
		// data files that might be embedded
		return cp(p, filepath.Join(dst, rel))
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, rel := range files {
		b, err := os.ReadFile(filepath.Join(src, rel))
		if err != nil {
			return nil, err
		}
		if strings.HasSuffix(rel, ".go") {
			b, err = file(rel, b, &sites)
			if err != nil {
				return nil, err
			}
		}
		out := filepath.Join(dst, rel)
		if err := os.MkdirAll(filepath.Dir(out), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(out, b, 0o644); err != nil {
			return nil, err
		}
	}
	return sites, nil
}

func cp(a, b string) error {
	if err := os.MkdirAll(filepath.Dir(b), 0o755); err != nil {
		return err
	}
	d, err := os.ReadFile(a)
	if err != nil {
		return err
	}
	return os.WriteFile(b, d, 0o644)
}

var importRewrite = map[string][2]string{
	`"os/signal"`: {"signal", `"simgodis/simsignal"`},
	`"net"`:       {"net", `"simgodis/simnet"`},
}

func file(rel string, src []byte, sites *[]Site) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var add []ins
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var fn string
	point := func(p token.Pos) {
		id := len(*sites)
		*sites = append(*sites, Site{rel, fset.Position(p).Line, fn})
		add = append(add, ins{off(p), fmt.Sprintf("simhook.Y(%d);", id)})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			point(s.Pos())
		}
	}
	for _, d := range f.Decls {
		fn = "init"
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + "." + fn
				}
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.BlockStmt:
				if s == nil {
					return true
				}
				if len(s.List) == 0 {
					point(s.Lbrace + 1)
				} else {
					// switch and select bodies hold clauses, not statements
					switch s.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
					default:
						list(s.List)
					}
				}
			case *ast.CaseClause:
				list(s.Body)
			case *ast.CommClause:
				list(s.Body)
			}
			return true
		})
	}
	for _, im := range f.Imports {
		rw, ok := importRewrite[im.Path.Value]
		if !ok {
			continue
		}
		name := rw[0] + " "
		if im.Name != nil {
			name = ""
		}
		o := off(im.Path.Pos())
		copyTail := len(im.Path.Value)
		add = append(add, ins{o, name + rw[1] + "/*"}, ins{o + copyTail, "*/"})
	}
	// os.Exit ends the simulated process, not the simulator
	exits := false
	ast.Inspect(f, func(n ast.Node) bool {
		if se, ok := n.(*ast.SelectorExpr); ok && se.Sel.Name == "Exit" {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == "os" && id.Obj == nil {
				add = append(add, ins{off(se.Pos()), "simhook.Exit/*"}, ins{off(se.End()), "*/"})
				exits = true
			}
		}
		return true
	})
	if exits {
		add = append(add, ins{len(src), "\nvar _ = os.Exit\n"})
	}
	isMain := f.Name.Name == "main"
	if len(*sites) > 0 && len(add) > 0 {
		need := false
		for _, a := range add {
			need = need || strings.HasPrefix(a.txt, "simhook.")
		}
		if need {
			add = append(add, ins{off(f.Name.End()), `;import simhook "simgodis/simhook"`})
		}
	}
	if isMain {
		add = append(add, ins{off(f.Name.Pos()), "srv"})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				add = append(add, ins{off(fd.Name.Pos()), "Main; func unusedMain"})
			}
		}
	}
	sort.SliceStable(add, func(i, j int) bool { return add[i].off < add[j].off })
	var out bytes.Buffer
	last := 0
	for _, a := range add {
		out.Write(src[last:a.off])
		out.WriteString(a.txt)
		last = a.off
	}
	out.Write(src[last:])
	res := out.Bytes()
	if isMain {
		res = bytes.Replace(res, []byte("func Main; func unusedMainmain("), []byte("func Main("), 1)
	}
	return res, nil
}
