// mutate FILE.go...: lists every small change of the files as JSON lines (file, function, line, kind, offset, end, text).
// Used with campaign.py to see which changes that pass the existing tests our checks do not notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type M struct {
	File, Func, Kind string
	Line, Off, End   int
	Old, New         string
}

func main() {
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		tree, err := parser.ParseFile(fs, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range tree.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(kind string, from, to token.Pos, new string) {
				a, b := fs.Position(from).Offset, fs.Position(to).Offset
				j, _ := json.Marshal(M{f, fn.Name.Name, kind, fs.Position(from).Line, a, b, string(src[a:b]), new})
				fmt.Println(string(j))
			}
			text := func(n ast.Node) string { return string(src[fs.Position(n.Pos()).Offset:fs.Position(n.End()).Offset]) }
			isLog := func(n ast.Node) bool {
				t := text(n)
				return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "metrics.")
			}
			var walk func(n ast.Node) bool
			walk = func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if isLog(x) {
						if strings.HasPrefix(text(x), "log.Fatal") {
							emit("nofatal", x.Pos(), x.End(), "_ = 0")
						}
						return false
					}
					if _, ok := x.X.(*ast.CallExpr); ok {
						emit("nocall", x.Pos(), x.End(), "_ = 0")
					}
				case *ast.DeferStmt:
					emit("nodefer", x.Pos(), x.End(), "_ = 0")
				case *ast.IncDecStmt:
					emit("noinc", x.Pos(), x.End(), "_ = 0")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						emit("noassign", x.Pos(), x.End(), "_ = 0")
					} else if x.Tok != token.DEFINE {
						emit("noassign", x.Pos(), x.End(), "_ = 0")
					}
				case *ast.BranchStmt:
					if x.Label == nil && (x.Tok == token.CONTINUE || x.Tok == token.BREAK) {
						emit("nobranch", x.Pos(), x.End(), "_ = 0")
						if x.Tok == token.CONTINUE {
							emit("break", x.Pos(), x.End(), "break")
						}
					}
				case *ast.IfStmt:
					c := text(x.Cond)
					emit("iffalse", x.Cond.Pos(), x.Cond.End(), "("+c+") && false")
					emit("iftrue", x.Cond.Pos(), x.Cond.End(), "("+c+") || true")
				case *ast.ForStmt:
				case *ast.BinaryExpr:
					sw := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"}}
					if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
						return true
					}
					if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.STRING && x.Op == token.ADD {
						return true
					}
					for _, o := range sw[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						emit("int", x.Pos(), x.End(), "("+x.Value+"+1)")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						t := text(r)
						if t == "true" {
							emit("ret", r.Pos(), r.End(), "false")
						} else if t == "false" {
							emit("ret", r.Pos(), r.End(), "true")
						} else if t == "err" || strings.HasPrefix(t, "errors.") {
							emit("ret", r.Pos(), r.End(), "nil")
						}
					}
				case *ast.CallExpr:
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						sw := map[string]string{"Add": "Sub", "Sub": "Add", "Lock": "RLock", "RLock": "Lock", "Cmp": "CmpAbs"}
						if isLog(x) {
							return false
						}
						if v, ok := sw[s.Sel.Name]; ok && s.Sel.Name != "Cmp" {
							emit("call", s.Sel.Pos(), s.Sel.End(), v)
						}
					}
				}
				return true
			}
			ast.Inspect(fn.Body, walk)
		}
	}
}
