// mutate lists small changes to Go files: one JSON object per line with file, byte range and replacement.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	From, To int
	New, Op  string
	Old      string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	root := os.Args[1]
	for _, rel := range os.Args[2:] {
		name := root + "/" + rel
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		put := func(op string, from, to token.Pos, repl string) {
			a, b := off(from), off(to)
			enc.Encode(mut{rel, fs.Position(from).Line, a, b, repl, op, string(src[a:b])})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		islog := func(n ast.Node) bool { return strings.HasPrefix(text(n), "log.") }
		var list func(ss []ast.Stmt)
		list = func(ss []ast.Stmt) {
			for i, s := range ss {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.SendStmt:
					if !islog(x) {
						put("delete", x.Pos(), x.End(), "")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put("delete", x.Pos(), x.End(), "")
					}
				case *ast.BranchStmt:
					put("delete", x.Pos(), x.End(), "")
				case *ast.ReturnStmt:
					if i < len(ss)-1 || len(x.Results) == 0 {
						put("delete", x.Pos(), x.End(), "")
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil && !islog(x.Body) {
						put("deleteif", x.Pos(), x.End(), "")
					}
				}
				if i+1 < len(ss) {
					a, b := s, ss[i+1]
					_, ok1 := a.(*ast.ExprStmt)
					_, ok2 := b.(*ast.ExprStmt)
					_, ok3 := a.(*ast.AssignStmt)
					_, ok4 := b.(*ast.AssignStmt)
					if (ok1 || ok3) && (ok2 || ok4) && !islog(a) && !islog(b) {
						put("swap", a.Pos(), b.End(), text(b)+"\n"+text(a))
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.IfStmt:
				put("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
			case *ast.BinaryExpr:
				r := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.EQL: "!=", token.NEQ: "=="}
				if y, ok := r[x.Op]; ok {
					if x.Op == token.ADD && strings.Contains(text(x), "\"") {
						return true
					}
					put("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), y)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					put("left", x.Pos(), x.End(), text(x.X))
					put("right", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					put("const", x.Pos(), x.End(), "("+x.Value+"+1)")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					put("bool", x.Pos(), x.End(), "true")
				}
			case *ast.ReturnStmt:
				if k := len(x.Results); k > 0 {
					last := x.Results[k-1]
					if t := text(last); t == "err" || strings.HasPrefix(t, "errors.") || strings.HasPrefix(t, "fmt.Errorf") {
						put("nilerr", last.Pos(), last.End(), "nil")
					}
				}
			}
			return true
		})
	}
	fmt.Fprintln(os.Stderr, "ok")
}
