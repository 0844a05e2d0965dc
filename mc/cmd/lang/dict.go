package main

import (
	"sort"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/dict"
	"verifmc/model"
)

// mentioned are programs that call every function there is, and every name the
// code mentions, with arguments of every kind, and that hold the texts the code
// mentions.
func mentioned() [][]any {
	var names []string
	seen := map[string]bool{}
	add := func(x string) {
		if p, ok := refParse(x); ok && !seen[x] && x != "" && x[0] != '[' && sameProg(p, []any{model.List{model.Sym(x)}}) {
			seen[x] = true
			names = append(names, x)
		}
	}
	for n := range edlisp.NewDefaultEnvironment().Functions {
		add(n)
	}
	var texts []string
	for _, x := range dict.Texts() {
		if utf8.ValidString(x) { // as scripts are
			texts = append(texts, x)
		}
	}
	for _, x := range texts {
		add(x)
	}
	sort.Strings(names)
	var progs [][]any
	args := []any{"a", "", "12", "-1.5", "nil", "true", "point", "(point)", "[1]", "a b", "a\nb", "\\", "$1", 1.0, -2.0, 1.5, 0.0, model.List{model.Sym("point")}, model.List{model.Sym("concat"), "a", 1.0}}
	for i, n := range names {
		f := model.Sym(n)
		progs = append(progs, []any{model.List{f}})
		for j, a := range args {
			progs = append(progs, []any{model.List{f, a}}, []any{model.List{f, a, args[(i+j)%len(args)]}, model.List{f}})
			if (i+j)%3 == 0 {
				progs = append(progs, []any{model.List{f, a, a, a}}, []any{model.List{model.Sym("insert"), model.List{f, a}}}, []any{model.List{f, model.List{f, a}, a}})
			}
		}
		progs = append(progs, []any{model.List{f, n}}, []any{model.List{model.Sym("insert"), n, "x"}})
	}
	for i, x := range texts {
		progs = append(progs, []any{c("insert", x)}, []any{c("insert", "a"+x+"b"), c("search-forward", x), c("replace-match", x+x)}, []any{c("f", x, float64(i), c("g", x+" "))})
	}
	return progs
}
