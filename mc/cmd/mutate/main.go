// Command mutate lists small changes to the Go files named on the command
// line, one JSON object per line. It is a tool for finding gaps in the checks
// and takes no part in them.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File     string
	From, To int
	New      string
	Line     int
	What     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(x token.Pos) int { return fset.Position(x).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(from, to token.Pos, new, what string) {
			enc.Encode(mutant{p, off(from), off(to), new, fset.Position(from).Line, what})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}}
					for _, a := range alts[x.Op] {
						if x.Op == token.ADD {
							if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
								continue
							}
						}
						put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, x.Op.String()+" -> "+a)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							put(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								put(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
					if x.Kind == token.CHAR {
						put(x.Pos(), x.End(), `'\x01'`, x.Value+" -> other")
					}
				case *ast.Ident:
					if x.Name == "true" {
						put(x.Pos(), x.End(), "false", "true -> false")
					}
					if x.Name == "false" {
						put(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.IfStmt:
					put(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					put(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
					put(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always "+text(x.Cond))
				case *ast.IncDecStmt:
					t := "--"
					if x.Tok == token.DEC {
						t = "++"
					}
					put(x.TokPos, x.TokPos+2, t, x.Tok.String()+" -> "+t)
				case *ast.BranchStmt:
					if x.Label == nil && x.Tok == token.BREAK {
						put(x.Pos(), x.End(), "continue", "break -> continue")
					}
					if x.Label == nil && x.Tok == token.CONTINUE {
						put(x.Pos(), x.End(), "break", "continue -> break")
					}
				case *ast.SliceExpr:
					if x.High != nil && x.Max == nil {
						put(x.High.Pos(), x.High.End(), "", "drop high bound "+text(x.High))
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
							put(s.Pos(), s.End(), "", "delete "+text(s))
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								put(s.Pos(), s.End(), "", "delete "+text(s))
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt:
							put(s.Pos(), s.End(), "", "delete "+text(s))
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								put(s.Pos(), s.End(), "", "delete "+text(s))
							}
						}
					}
				case *ast.CallExpr:
					// swap the first two arguments if both are plain names
					if len(x.Args) >= 2 {
						a, ok1 := x.Args[0].(*ast.Ident)
						b, ok2 := x.Args[1].(*ast.Ident)
						if ok1 && ok2 && a.Name != b.Name {
							put(x.Args[0].Pos(), x.Args[1].End(), text(b)+", "+text(a), "swap arguments of "+text(x.Fun))
						}
					}
				}
				return true
			})
		}
	}
}
