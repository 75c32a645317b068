// mutate lists small source changes of the program's Go files as JSON:
// {file, line, from, to, text}: replace bytes from..to of file by text.
// tools/mutants.py runs the checks against a sample of them, to find gaps.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Old  string `json:"old"`
	New  string `json:"text"`
	Kind string `json:"kind"`
}

func main() {
	root := os.Args[1]
	files, _ := filepath.Glob(filepath.Join(root, "processors", "*.go"))
	files = append(files, filepath.Join(root, "gtfstidy.go"))
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			panic(err)
		}
		rel, _ := filepath.Rel(root, fn)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, text string) {
			enc.Encode(mut{rel, fset.Position(a).Line, off(a), off(b), string(src[off(a):off(b)]), text, kind})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		printing := func(n ast.Node) bool { return strings.Contains(txt(n), "fmt.") || strings.Contains(txt(n), "flag.") }
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				if printing(s) {
					continue
				}
				switch v := s.(type) {
				case *ast.AssignStmt:
					if v.Tok != token.DEFINE {
						use := ""
						for _, e := range v.Rhs {
							_ = e
						}
						emit("delstmt", s.Pos(), s.End(), use+"{}")
					}
				case *ast.ExprStmt, *ast.IncDecStmt:
					emit("delstmt", s.Pos(), s.End(), "{}")
				case *ast.BranchStmt:
					if v.Label == nil && v.Tok == token.CONTINUE {
						emit("delstmt", s.Pos(), s.End(), "{}")
						emit("branch", s.Pos(), s.End(), "break")
					} else if v.Label == nil && v.Tok == token.BREAK {
						emit("delstmt", s.Pos(), s.End(), "{}")
					}
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.BlockStmt:
					stmts(v.List)
				case *ast.CaseClause:
					stmts(v.Body)
				case *ast.CallExpr:
					if s := txt(v.Fun); strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "flag.") {
						return false
					}
				case *ast.IfStmt:
					if !printing(v.Cond) {
						emit("negcond", v.Cond.Pos(), v.Cond.End(), "!("+txt(v.Cond)+")")
					}
				case *ast.BinaryExpr:
					a, b := v.OpPos, v.OpPos+token.Pos(len(v.Op.String()))
					sub := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
					for _, t := range sub[v.Op] {
						emit("binop", a, b, t)
					}
					if v.Op == token.LAND || v.Op == token.LOR {
						emit("dropright", v.Pos(), v.End(), txt(v.X))
						emit("dropleft", v.Pos(), v.End(), txt(v.Y))
					}
				case *ast.BasicLit:
					if v.Kind == token.INT {
						emit("int", v.Pos(), v.End(), fmt.Sprintf("(%s+1)", v.Value))
						emit("int", v.Pos(), v.End(), fmt.Sprintf("(%s-1)", v.Value))
					}
				case *ast.Ident:
					if v.Name == "true" {
						emit("bool", v.Pos(), v.End(), "false")
					} else if v.Name == "false" {
						emit("bool", v.Pos(), v.End(), "true")
					}
				}
				return true
			})
		}
	}
}
