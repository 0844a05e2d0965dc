// Package dict collects the numbers and the texts that the code under test
// mentions. They only widen what is enumerated: sizes, counts and texts that
// the code treats specially are likely to be written in it. No verdict depends
// on them.
package dict

import (
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

var (
	once  sync.Once
	ints  []int
	texts []string
)

func root() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func load() {
	seenI, seenT := map[int]bool{}, map[string]bool{}
	number := func(v constant.Value) {
		v = constant.ToInt(v)
		if n, ok := constant.Int64Val(v); ok && v.Kind() == constant.Int && n > 2 && n < 1<<31 {
			seenI[int(n)] = true
		}
	}
	filepath.WalkDir(root(), func(p string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() && (strings.HasPrefix(d.Name(), ".") && p != root() || d.Name() == "build") {
			if d != nil && d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.CallExpr: // documentation is not behaviour
				if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "RegisterDocumentation" {
					return false
				}
			case *ast.BinaryExpr, *ast.BasicLit, *ast.UnaryExpr:
				v := fold(n.(ast.Expr))
				if v == nil {
					return true
				}
				switch v.Kind() {
				case constant.Int, constant.Float:
					number(v)
				case constant.String:
					s := constant.StringVal(v)
					if len(s) <= 40 && len(strings.Fields(s)) <= 4 && !strings.Contains(s, "expects") {
						seenT[s] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for n := range seenI {
		ints = append(ints, n)
	}
	sort.Ints(ints)
	for s := range seenT {
		texts = append(texts, s)
	}
	sort.Strings(texts)
}

// fold computes a constant expression of literals.
func fold(e ast.Expr) constant.Value {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.CHAR {
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				return nil
			}
			return constant.MakeString(s)
		}
		return constant.MakeFromLiteral(e.Value, e.Kind, 0)
	case *ast.ParenExpr:
		return fold(e.X)
	case *ast.CallExpr: // a conversion
		if len(e.Args) == 1 {
			return fold(e.Args[0])
		}
	case *ast.BinaryExpr:
		x, y := fold(e.X), fold(e.Y)
		if x == nil || y == nil || x.Kind() != constant.Int || y.Kind() != constant.Int {
			return nil
		}
		switch e.Op {
		case token.SHL:
			if n, ok := constant.Uint64Val(y); ok && n < 40 {
				return constant.Shift(x, token.SHL, uint(n))
			}
		case token.ADD, token.SUB, token.MUL:
			return constant.BinaryOp(x, e.Op, y)
		}
	}
	return nil
}

// Around gives the numbers the code mentions, each with its neighbours, from
// lo to hi, at most a hundred.
func Around(lo, hi int) []int {
	once.Do(load)
	seen := map[int]bool{}
	var r []int
	for _, n := range ints {
		for d := -1; d <= 1; d++ {
			if m := n + d; m >= lo && m <= hi && !seen[m] {
				seen[m] = true
				r = append(r, m)
			}
		}
	}
	for len(r) > 100 {
		var s []int
		for i := 0; i < len(r); i += 2 {
			s = append(s, r[i])
		}
		r = s
	}
	sort.Ints(r)
	return r
}

// Texts gives the texts the code mentions.
func Texts() []string {
	once.Do(load)
	return append([]string(nil), texts...)
}
