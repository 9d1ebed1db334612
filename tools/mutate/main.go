// Command mutate lists small changes to the Go files below a directory, one JSON object a line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	n := 0
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, path)
		if info.IsDir() {
			if b := filepath.Base(path); rel != "." && (b[0] == '.' || b == "example" || b == "app" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		at := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(a ast.Node) string { return string(src[at(a.Pos()):at(a.End())]) }
		add := func(what string, a, b token.Pos, s string) {
			n++
			enc.Encode(mutant{fmt.Sprintf("m%04d", n), rel, fset.Position(a).Line, what, at(a), at(b), s})
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch v := x.(type) {
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
				}[v.Op] {
					add("operator "+v.Op.String()+" to "+o, v.OpPos, v.OpPos+token.Pos(len(v.Op.String())), o)
				}
				if v.Op == token.LAND || v.Op == token.LOR {
					add("only left of "+v.Op.String(), v.X.End(), v.End(), "")
					add("only right of "+v.Op.String(), v.Pos(), v.Y.Pos(), "")
				}
			case *ast.IfStmt:
				if v.Init == nil {
					c := text(v.Cond)
					add("if negated", v.Cond.Pos(), v.Cond.End(), "!("+c+")")
					add("if true", v.Cond.Pos(), v.Cond.End(), "("+c+") || true")
					add("if false", v.Cond.Pos(), v.Cond.End(), "("+c+") && false")
				}
				if v.Else != nil {
					add("else dropped", v.Body.End(), v.Else.End(), "")
				}
			case *ast.UnaryExpr:
				if v.Op == token.NOT {
					add("! dropped", v.Pos(), v.X.Pos(), "")
				}
			case *ast.BasicLit:
				if v.Kind == token.INT {
					if i, err := strconv.Atoi(v.Value); err == nil {
						add("number+1", v.Pos(), v.End(), strconv.Itoa(i+1))
						if i > 0 {
							add("number-1", v.Pos(), v.End(), strconv.Itoa(i-1))
						}
					}
				}
				if v.Kind == token.FLOAT {
					add("number*2", v.Pos(), v.End(), "(2*"+v.Value+")")
				}
			case *ast.BranchStmt:
				switch v.Tok {
				case token.CONTINUE:
					add("continue to break", v.Pos(), v.End(), "break")
					add("continue dropped", v.Pos(), v.End(), "")
				case token.BREAK:
					add("break dropped", v.Pos(), v.End(), "")
				}
			case *ast.ExprStmt:
				add("call dropped", v.Pos(), v.End(), "")
			case *ast.DeferStmt:
				add("defer dropped", v.Pos(), v.End(), "")
			case *ast.AssignStmt:
				if v.Tok == token.DEFINE || len(v.Lhs) != 1 {
					break
				}
				l, r := text(v.Lhs[0]), text(v.Rhs[0])
				if !strings.HasPrefix(r, "append(") {
					add("assignment dropped", v.Pos(), v.End(), "_ = "+r)
				} else {
					add("append dropped", v.Pos(), v.End(), "_ = "+l)
				}
			case *ast.IncDecStmt:
				o := "--"
				if v.Tok == token.DEC {
					o = "++"
				}
				if l, ok := v.X.(*ast.Ident); ok {
					add("step reversed", v.Pos(), v.End(), l.Name+o)
				}
			case *ast.ReturnStmt:
				for _, e := range v.Results {
					if id, ok := e.(*ast.Ident); ok {
						switch id.Name {
						case "true":
							add("true to false", id.Pos(), id.End(), "false")
						case "false":
							add("false to true", id.Pos(), id.End(), "true")
						}
					}
				}
			case *ast.Ident:
				if v.Name == "true" || v.Name == "false" {
					add("flag flipped", v.Pos(), v.End(), map[string]string{"true": "false", "false": "true"}[v.Name])
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(v.Args); i++ {
					a, b := v.Args[i], v.Args[i+1]
					if _, ok := a.(*ast.FuncLit); ok {
						continue
					}
					if _, ok := b.(*ast.FuncLit); ok {
						continue
					}
					if text(a) != text(b) {
						add("arguments swapped", a.Pos(), b.End(), text(b)+", "+text(a))
					}
				}
			case *ast.SliceExpr:
				if v.Low != nil {
					add("slice from the start", v.Low.Pos(), v.Low.End(), "")
				}
				if v.High != nil && !v.Slice3 {
					add("slice to the end", v.High.Pos(), v.High.End(), "")
				}
			}
			return true
		})
		return nil
	})
}
