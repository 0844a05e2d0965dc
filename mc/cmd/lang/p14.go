package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

// result of running a script: the text, or the index of the failing instruction.
type result struct {
	text   string
	failed bool
	index  int // -1: rejected by the parser
	instr  string
	panic  any
}

func (r result) String() string {
	switch {
	case r.panic != nil:
		return fmt.Sprint("panic: ", r.panic)
	case r.failed && r.index < 0:
		return "rejected by the parser"
	case r.failed:
		return fmt.Sprintf("error at instruction %d: %s", r.index, r.instr)
	}
	return fmt.Sprintf("text %q", r.text)
}

func outcome(text string, err error) (r result) {
	if err == nil {
		return result{text: text}
	}
	r = result{failed: true, index: -1}
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) {
		r.index = ee.InstructionIndex
		r.instr = model.Show(drive.FromReal(ee.CurrentInstruction))
	}
	return r
}

func guarded(f func() (string, error)) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r = result{panic: p}
		}
	}()
	return outcome(f())
}

// directly runs the program itself, with no script text involved.
func directly(p []any, input string) result {
	prog := make([]edlisp.Value, len(p))
	for i, e := range p {
		prog[i] = drive.ToReal(e)
	}
	return guarded(func() (string, error) {
		buf := edlisp.NewBuffer(input)
		if _, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), buf); err != nil {
			return "", err
		}
		return buf.String(), nil
	})
}

func runP14(chk *rep.Check) {
	outs := newOutcomes()
	atoms := []any{
		c("insert", "x;y"), c("insert", "(\"\\"), c("insert", "é\n"), c("search-forward", "b"), c("re-search-forward", "[b-c]+"), c("replace-match", "[1]"),
		c("goto-char", 3.0), c("goto-char", c("point-max")), c("backward-char"), c("delete-char", 2.0), c("set-mark", 2.0), c("delete-region", c("region-beginning"), c("region-end")),
		c("insert", c("concat", "<", c("buffer-substring", 1.0, 3.0), ">")), c("kill-line"), c("replace-region", "R"), c("insert", 1.5), c("no-such-command", "a"), c("search-forward", "zz"),
	}
	if chk.Thorough() {
		atoms = append(atoms, c("mark-whole-buffer"), c("capitalize", c("substring", "abc", 1.0)), c("insert", ""), c("end-of-line"), c("backward-word", -1.0), c("insert", "\\x41\\n"))
	}
	depth := chk.Pick(4, 4)
	inputs := []string{"abc b\ncd", "", "éb\n"}
	styles := []style{{0, 0, 0}, {1, 1, 1}}
	if chk.Thorough() {
		styles = append(styles, style{2, 2, 2}, style{3, 3, 5})
	}
	chk.Bound("commands", len(atoms))
	chk.Bound("commands per script", depth)
	var check func(w int, p []any, sts []style, ins []string)
	check = func(w int, p []any, sts []style, ins []string) {
		for _, in := range ins {
			want := directly(p, in)
			chk.States.Add(1)
			k := "text"
			if want.failed {
				k = fmt.Sprint("error at ", want.index)
			}
			outs[w][k]++
			for _, st := range sts {
				for _, t := range renderings(p, st) {
					for _, entry := range []string{"format", "guess"} {
						if entry == "guess" && len(p) == 0 && t.format == "json" {
							continue
						}
						chk.Begin(w, func() string { return t.format + ": " + showText(t.script) })
						got := guarded(func() (string, error) {
							if entry == "guess" {
								return texted.ExecuteScript(in, t.script)
							}
							return texted.ExecuteScriptWithFormat(in, t.script, t.format)
						})
						chk.End(w)
						chk.Transitions.Add(1)
						chk.Validated.Add(1)
						if got.String() != want.String() {
							chk.Fail(&rep.Violation{What: "P14: a script does not run as its program (" + t.name + ", " + entry + ")", Repro: map[string]any{"script": t.script, "format": t.format, "input": in}, Expected: want.String(), Actual: got.String(), HowTo: []string{"printf %s input | texted edit --format FORMAT -s script"}})
						}
					}
				}
			}
		}
	}
	n := len(atoms)
	check(0, nil, styles, inputs)
	chk.Parallel(n*n+n, func(w, i int) {
		if i < n {
			check(w, []any{atoms[i]}, styles, inputs)
			return
		}
		i -= n
		p := []any{atoms[i/n], atoms[i%n]}
		check(w, p, styles, inputs)
		var rec func(p []any, left int)
		rec = func(p []any, left int) {
			if left == 0 || chk.Stop() {
				return
			}
			for _, a := range atoms {
				q := append(p[:len(p):len(p)], a)
				if left == 1 {
					check(w, q, styles[:1], inputs[:1])
				} else {
					check(w, q, styles[:2], inputs)
				}
				rec(q, left-1)
			}
		}
		rec(p, depth-2)
	})
	// every literal, number, and position of the failing command
	var progs [][]any
	literalProgs := 0
	for _, l := range literals {
		progs = append(progs, []any{c("insert", l), c("insert", c("concat", l, l)), c("goto-char", 1.0), c("search-forward", l)})
		literalProgs++
	}
	for _, x := range numbers {
		progs = append(progs, []any{c("goto-char", x), c("insert", "|"), c("forward-char", -x), c("insert", "|")})
	}
	for k := 1; k <= chk.Pick(24, 60); k++ {
		for bad := 0; bad <= k; bad++ {
			var p []any
			for i := 0; i < k; i++ {
				if i == bad {
					p = append(p, c("search-forward", "never"))
				} else {
					p = append(p, c("insert", fmt.Sprintf("%d;", i)))
				}
			}
			progs = append(progs, p)
		}
	}
	whole := len(progs)
	progs = append(progs, mentioned()...)
	chk.Family("literals, numbers, positions of the failing command", int64(len(progs)))
	chk.Parallel(len(progs), func(w, i int) {
		if i >= whole {
			check(w, progs[i], styles[i%len(styles):][:1], inputs[:1+i%5/4*2])
			return
		}
		check(w, progs[i], styles, inputs[:1])
		for q := 2; q < 5 && i < literalProgs; q++ { // every way to quote
			check(w, progs[i], []style{{q, q, q}}, inputs[:1])
		}
	})
	// every small call tree, well-typed or not
	var ts []any
	for _, names := range [][]string{{"concat", "concat", "concat"}, {"insert", "concat", "point"}, {"concat", "insert", "buffer-substring"}, {"goto-char", "length", "concat"}} {
		ts = append(ts, trees(names...)...)
	}
	chk.Family("every call tree of three levels and two arguments", int64(len(ts)))
	chk.Parallel(len(ts), func(w, i int) {
		if i%4 == 0 || i < len(ts)/4 || chk.Thorough() {
			check(w, []any{ts[i], c("insert", "x")}, styles[:1], inputs[:1])
		}
	})
	// what is not a script is an error in every entry point and has no effect
	var bad = []text{{"", "shell", "insert \"a\"\ninsert \"b"}, {"", "shell", "insert \"a\"; )"}, {"", "sexp", "(insert \"a\") (insert \"b\""}, {"", "sexp", "(insert \"a\") x"}, {"", "json", "[[\"insert\",\"a\"],[\"insert\",\"b\"]"}, {"", "json", "[[\"insert\",\"a\"],true]"}, {"", "json", "[\"insert\",\"a\"] [\"insert\",null]"}, {"", "json", ""}, {"", "json", "insert \"a\""}}
	for _, t := range bad {
		got := guarded(func() (string, error) { return texted.ExecuteScriptWithFormat("t", t.script, t.format) })
		chk.Transitions.Add(1)
		if !got.failed || got.index >= 0 {
			chk.Fail(&rep.Violation{What: "P14: text that is no script is not rejected", Repro: t.script, Expected: "rejected", Actual: got.String()})
		}
	}
	for _, f := range []string{"", "lisp", "JSON", "Shell", "yaml"} {
		if got := guarded(func() (string, error) { return texted.ExecuteScriptWithFormat("t", "point", f) }); !got.failed {
			chk.Fail(&rep.Violation{What: "P14: unknown format accepted", Repro: f})
		}
	}
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(map[string]any{"program": model.ShowProgram(progs[7]), "renderings": len(renderings(progs[7], styles[0]))})
	chk.Sample(renderings(progs[len(progs)-1], styles[0])[5].script)
	chk.Assume("programs made of calls on strings, numbers and nested calls; strings are valid UTF-8", "texted.ExecuteScript takes text that starts with [ as JSON, everything else as line/S-expression syntax")
	_ = strings.TrimSpace
}
