package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"verifmc/dict"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	edtesting "github.com/dhamidi/texted/edlisp/testing"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

// ---- P10 and P12: whole programs against single instructions ----

// snap is the observable state of an editor.
type snap struct {
	Text        string
	Point, Mark int
	Match       string
	MS, ME      int
}

func snapOf(r *drive.Real) snap {
	m, a, b := r.MatchInfo()
	return snap{r.Buf.String(), r.Buf.Point(), r.Buf.Mark(), m, a, b}
}

// oneCall runs a call whose arguments are already values.
func oneCall(r *drive.Real, name string, args []edlisp.Value) (v edlisp.Value, err error) {
	fn, ok := r.Env.Functions[name]
	if !ok {
		return nil, errors.New("undefined")
	}
	return fn(args, r.Buf)
}

// stepwise evaluates an expression innermost first, left to right, one call at a time.
func stepwise(r *drive.Real, e edlisp.Value) (edlisp.Value, bool) {
	switch x := e.(type) {
	case *edlisp.String, *edlisp.Number:
		return e, true
	case *edlisp.List:
		if len(x.Elements) == 0 {
			return nil, false
		}
		sym, ok := x.Elements[0].(*edlisp.Symbol)
		if !ok {
			return nil, false
		}
		if _, ok := r.Env.Functions[sym.Name]; !ok {
			return nil, false
		}
		var args []edlisp.Value
		for _, a := range x.Elements[1:] {
			v, ok := stepwise(r, a)
			if !ok {
				return nil, false
			}
			args = append(args, v)
		}
		v, err := oneCall(r, sym.Name, args)
		return v, err == nil
	}
	return nil, false
}

// expectation of a program: the state after every instruction, up to the one that fails.
type expectation struct {
	states []snap // after instruction i
	fail   int    // -1: none
	val    any
}

func expect(env *edlisp.Environment, text string, prog []edlisp.Value) (x expectation) {
	r := &drive.Real{Buf: edlisp.NewBuffer(text), Env: env}
	x.fail = -1
	x.val = ""
	for i, e := range prog {
		v, ok := stepwise(r, e)
		x.states = append(x.states, snapOf(r))
		if !ok {
			x.fail = i
			return
		}
		x.val = drive.FromReal(v)
	}
	return
}

func initial(env *edlisp.Environment, text string) snap {
	return snapOf(&drive.Real{Buf: edlisp.NewBuffer(text), Env: env})
}

func (g *engine) program(w int, text string, ops []op, trace bool) {
	env := g.envs[w]
	prog := make([]edlisp.Value, len(ops))
	for i, o := range ops {
		prog[i] = o.real
	}
	x := expect(env, text, prog)
	r := &drive.Real{Buf: edlisp.NewBuffer(text), Env: env}
	bad := func(what, exp, act string) {
		o := ops
		if len(o) == 0 {
			o = []op{{name: "empty", e: model.List{}}}
		}
		g.fail(text, 1, 1, o, what, exp, act, "")
	}
	var traced []edlisp.TraceContext
	var seen []snap
	var val edlisp.Value
	var err error
	var pan any
	g.c.Begin(w, func() string { return fmt.Sprint(scriptOf(text, 1, 1, ops).Script) })
	func() {
		defer func() { pan = recover() }()
		if trace {
			val, err = edlisp.EvalWithTrace(prog, env, r.Buf, func(ctx *edlisp.TraceContext) {
				traced = append(traced, *ctx)
				seen = append(seen, snapOf(&drive.Real{Buf: ctx.Buffer, Env: env}))
			})
		} else {
			val, err = edlisp.Eval(prog, env, r.Buf)
		}
	}()
	g.c.End(w)
	g.c.Transitions.Add(int64(len(ops)))
	g.c.Validated.Add(1)
	final := initial(env, text)
	if len(x.states) > 0 {
		final = x.states[len(x.states)-1]
	}
	if pan != nil {
		bad("panic", "a result or an error", fmt.Sprint(pan))
		return
	}
	got := snapOf(r)
	if got != final {
		bad("state differs from running the instructions one by one", fmt.Sprintf("%+v", final), fmt.Sprintf("%+v", got))
		return
	}
	if trace {
		want := len(ops)
		if x.fail >= 0 {
			want = x.fail
		}
		if len(traced) != want {
			bad("number of traced instructions", fmt.Sprint(want), fmt.Sprint(len(traced)))
			return
		}
		for i := range traced {
			if traced[i].Instruction != prog[i] {
				bad(fmt.Sprintf("traced instruction %d", i), model.Show(ops[i].e), fmt.Sprint(traced[i].Instruction))
				return
			}
			if seen[i] != x.states[i] {
				bad(fmt.Sprintf("state in the trace after instruction %d", i), fmt.Sprintf("%+v", x.states[i]), fmt.Sprintf("%+v", seen[i]))
				return
			}
			if traced[i].Environment != env || traced[i].Buffer != r.Buf {
				bad("trace refers to another editor", "the running one", "another")
				return
			}
		}
	}
	if x.fail < 0 {
		g.outs[w][fmt.Sprintf("completed")]++
		if err != nil {
			bad("unexpected error", "value "+model.Show(x.val), err.Error())
		} else if !drive.Same(drive.FromReal(val), x.val) {
			bad("value of the program", model.Show(x.val), model.Show(drive.FromReal(val)))
		}
		return
	}
	g.outs[w][fmt.Sprintf("failed at %d", min(x.fail, 12))]++
	if err == nil {
		bad("error expected", fmt.Sprintf("an error at instruction %d", x.fail), "value "+model.Show(drive.FromReal(val)))
		return
	}
	var ee *edlisp.ExecutionError
	if !errors.As(err, &ee) {
		bad("error carries no report", "a report of the failing instruction", err.Error())
		return
	}
	rep := snap{ee.BufferContents, ee.Point, ee.Mark, ee.LastSearchMatch, ee.LastSearchStart, ee.LastSearchEnd}
	switch {
	case ee.InstructionIndex != x.fail:
		bad("reported index", fmt.Sprint(x.fail), fmt.Sprint(ee.InstructionIndex))
	case ee.CurrentInstruction != prog[x.fail]:
		bad("reported instruction", model.Show(ops[x.fail].e), fmt.Sprint(ee.CurrentInstruction))
	case rep != final:
		bad("reported state", fmt.Sprintf("%+v", final), fmt.Sprintf("%+v", rep))
	case len(ee.Program) != len(prog) || ee.Environment != env:
		bad("reported program", fmt.Sprint(len(prog)), fmt.Sprint(len(ee.Program)))
	case errors.Unwrap(err) == nil || !strings.HasPrefix(err.Error(), errors.Unwrap(err).Error()):
		bad("error text does not carry the cause", fmt.Sprint(errors.Unwrap(err)), err.Error())
	default:
		msg := err.Error()
		for _, re := range []string{fmt.Sprintf(`instruction %d\b`, x.fail), fmt.Sprintf(`point=%d\b`, final.Point), fmt.Sprintf(`mark=%d\b`, final.Mark)} {
			if !numberIn(msg, re) {
				bad("error text", re, msg)
				return
			}
		}
	}
}

var reMemo sync.Map

func numberIn(msg, re string) bool {
	v, ok := reMemo.Load(re)
	if !ok {
		v = regexp.MustCompile(re)
		reMemo.Store(re, v)
	}
	return v.(*regexp.Regexp).MatchString(msg)
}

func programAlphabet() []op {
	n := func(name string, args ...any) any { return call(name, args...).e }
	return []op{
		call("insert", "a"), call("goto-char", 2.0), call("search-forward", "b"), call("point"), call("insert", n("buffer-substring", 1.0, 3.0)),
		call("search-forward", "nope"), call("nope", n("insert", "z")), call("insert", 1.0), call("set-mark"),
		call("concat", n("buffer-substring", 1.0, -1.0), n("insert", "q"), n("buffer-substring", 1.0, -1.0)),
		call("replace-match", "R"), call("delete-char", n("length", "ab")), call("mark-whole-buffer"), call("insert", n("insert", "1"), n("insert", "2")),
		call("substring", n("concat", "xy", n("insert", "w")), n("point"), n("search-forward", "a")), {name: "()", e: model.List{}, real: edlisp.NewList()},
		{name: "lit", e: model.List{"lit"}, real: edlisp.NewString("lit")},
		{name: "num", e: model.List{7.0}, real: edlisp.NewNumber(7)}, {name: "sym", e: model.List{model.Sym("bare")}, real: edlisp.NewSymbol("bare")},
		call("goto-char", n("point-max")), call("concat", n("looking-at", "a"), n("insert", "k")), call("looking-at", "b"),
	}
}

func runPrograms(c *rep.Check, trace bool) {
	g := newEngine(c)
	defer g.done()
	al := programAlphabet()
	texts := []string{"ab\nb b", "", "aab"}
	depth := c.Pick(5, 6)
	if trace {
		depth = c.Pick(5, 6)
	}
	c.Bound("instruction alphabet", len(al))
	c.Bound("program length, all programs", depth)
	k := len(al)
	total := 1
	for d := 0; d <= depth; d++ {
		n := total
		dd := d
		blocks := 64
		c.Parallel(blocks, func(w, b int) {
			for j := b; j < n; j += blocks {
				if j&255 == 0 && c.Stop() {
					return
				}
				ops := make([]op, dd)
				rest := j
				for i := range ops {
					ops[i] = al[rest%k]
					rest /= k
				}
				for _, t := range texts {
					g.program(w, t, ops, trace)
				}
				c.States.Add(1)
			}
		})
		c.Family(fmt.Sprintf("all programs of length %d", d), int64(n*len(texts)))
		total *= k
	}
	// length ladder, with no failing instruction and with one at every index
	var lens []int
	for n := 1; n <= 70; n++ {
		lens = append(lens, n)
	}
	for p := 7; p <= c.Pick(12, 15); p++ {
		lens = append(lens, 1<<p-1, 1<<p, 1<<p+1)
	}
	lens = append(lens, 99, 100, 101, 200, 500, 999, 1000, 1001, 1500, 5000, 9999, 10000, 10001, 16385, 32769, 65535, 65537, 100001)
	lens = append(lens, dict.Around(71, 100000)...)
	sort.Ints(lens)
	good := []op{call("insert", "a"), call("forward-char", 1.0), call("insert", call("concat", "b", call("insert", "c").e).e), call("set-mark"), call("search-backward", "a")}
	if trace { // cheap instructions: the trace records the whole state each time
		good = []op{call("insert", "a"), call("backward-char", 1.0), call("delete-char"), call("set-mark")}
	}
	bads := []op{call("search-forward", "nope"), call("nope"), call("insert", call("insert", "z").e, 1.0)}
	c.Bound("longest program", lens[len(lens)-1])
	c.Parallel(len(lens), func(w, i int) {
		n := lens[len(lens)-1-i]
		base := make([]op, n)
		for j := range base {
			base[j] = good[j%len(good)]
			if n > 100 {
				base[j] = []op{call("forward-char", 1.0), call("insert", "a"), call("delete-backward-char", 1.0), call("set-mark")}[j%4]
			}
		}
		g.program(w, "ab\nab", base, trace)
		var at []int
		if n <= 70 {
			for j := 0; j < n; j++ {
				at = append(at, j)
			}
		} else {
			at = []int{0, 1, n / 2, n - 2, n - 1}
		}
		for _, j := range at {
			for _, b := range bads {
				ops := append([]op{}, base...)
				ops[j] = b
				g.program(w, "ab\nab", ops, trace)
			}
		}
	})
	c.Family("length ladder with one failing instruction", int64(len(lens)))
	// an instruction that succeeds where it is first written and fails later on
	type again struct{ n, i, j, k int }
	var agains []again
	for n := 2; n <= c.Pick(18, 34); n++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				agains = append(agains, again{n, i, j, -1})
				for k := j + 1; k < n; k += 1 + n/5 {
					agains = append(agains, again{n, i, j, k})
				}
			}
		}
	}
	for _, n := range lens {
		if n > 34 && n < c.Pick(3000, 20000) {
			agains = append(agains, again{n, 0, n - 1, -1}, again{n, n / 2, n - 2, n - 1}, again{n, n - 3, n - 1, -1}, again{n, 1, 3, n - 1})
		}
	}
	repeats := []func() op{
		func() op { return call("search-forward", "x") },
		func() op { return call("insert", call("re-search-forward", "x+").e) },
		func() op {
			return call("concat", call("insert", "q").e, "b", "c", call("search-forward", "x").e, "d")
		},
		func() op { return call("replace-match", "y") },
	}
	c.Parallel(len(agains), func(w, i int) {
		x := agains[i]
		for r, mk := range repeats {
			ops := make([]op, x.n)
			for q := range ops {
				ops[q] = []op{call("forward-char", 0.0), call("set-mark"), call("point")}[(q+r)%3]
				if q == x.i || q == x.j || q == x.k {
					ops[q] = mk()
				}
			}
			text := "..x.."
			if r == 3 && x.i > 0 {
				ops[x.i-1] = call("search-forward", "x")
			}
			g.program(w, text, ops, trace)
			if x.n <= 18 || i%3 == 0 { // the very same value each time
				for _, q := range []int{x.j, x.k} {
					if q >= 0 {
						ops[q] = ops[x.i]
					}
				}
				g.program(w, text, ops, trace)
			}
		}
	})
	c.Family("an instruction that first succeeds and later fails", int64(len(agains)*len(repeats)))
	for _, n := range []int{2, 3, 5, 8, 17, 40, 64, 100, 129, 300, c.Pick(1000, 5000)} {
		for _, fits := range []int{0, 1, n / 2, n - 2, n - 1, n} {
			if fits < 0 {
				continue
			}
			ops := make([]op, n)
			for q := range ops {
				ops[q] = repeats[q%3*(n%2)]()
				if n%3 == 0 {
					ops[q] = repeats[0]()
				}
			}
			g.program(0, strings.Repeat(".x", fits), ops, trace)
		}
	}
	// nesting and argument count ladders
	var nests []op
	for d := 1; d <= 260; d++ {
		if d > 70 && d%37 != 0 && d != 127 && d != 128 && d != 129 && d != 255 && d != 256 && d != 257 {
			continue
		}
		in := any(model.List{model.Sym("insert"), "x"})
		both := any(model.List{model.Sym("concat"), "<", ">"})
		second := any(model.List{model.Sym("substring"), "abc", 2.0})
		deep := any("y")
		wide := []any{}
		for i := 0; i < d; i++ {
			in = model.List{model.Sym("concat"), in, model.List{model.Sym("insert"), fmt.Sprint(i % 10)}}
			deep = model.List{model.Sym("concat"), deep}
			both = model.List{model.Sym("concat"), fmt.Sprint("a", i), both, fmt.Sprint("z", i), model.List{model.Sym("insert"), fmt.Sprint(i % 7)}}
			second = model.List{model.Sym([]string{"concat", "replace-regexp-in-string"}[i%2]), "b", fmt.Sprint("[", i, "]"), second}
			wide = append(wide, model.List{model.Sym("concat"), fmt.Sprint(i), model.List{model.Sym("insert"), fmt.Sprint(i % 10)}})
		}
		bad := append(append([]any{}, wide...), model.List{model.Sym("nope")})
		mid := append(append(append([]any{}, wide[:d/2]...), model.List{model.Sym("search-forward"), "nope"}), wide[d/2:]...)
		for _, e := range []model.List{in.(model.List), deep.(model.List), both.(model.List), second.(model.List), append(model.List{model.Sym("concat")}, wide...), append(model.List{model.Sym("concat")}, bad...), append(model.List{model.Sym("concat")}, mid...)} {
			nests = append(nests, op{name: "nest", e: e, real: drive.ToReal(e)})
		}
	}
	c.Parallel(len(nests), func(w, i int) {
		g.program(w, "ab", []op{nests[i]}, trace)
		g.program(w, "ab", []op{call("insert", "p"), nests[i], call("insert", "s")}, trace)
	})
	c.Family("nesting and argument-count ladder", int64(len(nests)))
	c.Bound("nesting depth", 257)
	// programs on long texts, with long strings and a long remembered match
	type longRun struct {
		text string
		ops  []op
	}
	var longRuns []longRun
	for k := 8; k <= c.Pick(20, 22); k++ {
		for d := -1; d <= 1; d++ {
			n := 1<<k + d
			for u, unit := range []string{"ab\n", "word ", "x", "é\n\n"} {
				if k > 16 && u != k%4 && !c.Thorough() {
					continue
				}
				text := strings.Repeat(unit, n/len(unit)+1)[:n/len(unit)*len(unit)]
				half := text[:len(text)/len(unit)/2*len(unit)]
				stop := [][]op{nil, {call("nope")}, {call("search-forward", "no such text")}, {call("insert", call("insert", "z").e, 1.0)}}
				for si, end := range stop {
					if k > 16 && si != (k+d)%4 && si > 0 && !c.Thorough() {
						continue
					}
					for _, p := range [][]op{
						{call("end-of-buffer"), call("insert", "é"), call("set-mark"), call("backward-char", 3.0)},
						{call("search-forward", half), call("replace-match", "x"), call("set-mark")},
						{call("search-forward", half), call("set-mark"), call("end-of-buffer")},
						{call("goto-char", float64(n/2)), call("insert", half), call("set-mark"), call("beginning-of-buffer"), call("delete-char")},
						{call("re-search-forward", "[^q]*"), call("beginning-of-buffer"), call("delete-char", 2.0)},
						{call("insert", call("buffer-substring", 1.0, float64(n/2)).e), call("concat", call("insert", "p").e, half)},
					} {
						longRuns = append(longRuns, longRun{text, append(append([]op{}, p...), end...)})
					}
				}
			}
		}
	}
	c.Bound("longest text of a program", 1<<c.Pick(20, 22)+1)
	c.Parallel(len(longRuns), func(w, i int) {
		x := longRuns[len(longRuns)-1-i]
		g.program(w, x.text, x.ops, trace)
		c.States.Add(1)
	})
	c.Family("programs on long texts", int64(len(longRuns)))
	// texts and names from the sources
	words := dict.Texts()
	c.Parallel(len(words), func(w, i int) {
		x := words[i]
		f := model.Sym(x)
		mk := func(e any) op { return op{name: "word", e: model.List{e}, real: drive.ToReal(e)} }
		for _, ops := range [][]op{
			{call("insert", x), call("search-backward", x), call("set-mark"), call("nope")}, {call("concat", x, call("insert", x).e), call("insert", x, x)},
			{call("insert", "a"), mk(f), call("insert", "b")}, {call("insert", "a"), mk(model.List{f}), call("insert", "b")}, {call("insert", "a"), mk(model.List{f, x}), call("insert", "b")}, {call("insert", "a"), mk(model.List{f, 1.0}), call("insert", "b")},
			{call("insert", "a"), mk(x), mk(2.0)}, {mk(x)}, {mk(f)}, {mk(model.List{x, "a"})}, {call("concat", "a", f)}, {call("insert", model.List{f, "a"}), call("insert", "b")},
		} {
			g.program(w, "ab "+x+"\n", ops, trace)
			g.program(w, x, ops, trace)
		}
		c.States.Add(1)
	})
	c.Family("texts and names from the sources", int64(len(words)))
	// every expression tree of depth 3 over a small alphabet
	leaves := []any{"s", 2.0, model.List{model.Sym("point")}, model.List{model.Sym("insert"), "i"}, model.List{model.Sym("nope")}, model.Sym("x")}
	var t2 []any
	for _, f := range []string{"insert", "concat", "goto-char", "length"} {
		for _, a := range leaves {
			t2 = append(t2, model.List{model.Sym(f), a})
			for _, b := range leaves {
				t2 = append(t2, model.List{model.Sym(f), a, b})
			}
		}
	}
	c.Parallel(len(t2), func(w, i int) {
		for _, b := range append(append([]any{}, leaves...), t2...) {
			for _, f := range []string{"concat", "buffer-substring", "insert"} {
				e := model.List{model.Sym(f), t2[i], b}
				g.program(w, "ab", []op{{name: f, e: e, real: drive.ToReal(e)}}, trace)
			}
			c.States.Add(1)
		}
	})
	c.Sample(scriptOf(texts[0], 1, 1, []op{al[0], al[4], al[5], al[9]}))
	c.Assume("the single calls are the reference: what one call does is the subject of other properties")
}

func runP10(c *rep.Check) {
	runPrograms(c, false)
	// the library entry points: the resulting text, or the error with its context
	env := edlisp.NewDefaultEnvironment()
	al := programAlphabet()[:14]
	k := len(al)
	c.Parallel(k*k*k, func(w, i int) {
		ops := []op{al[i%k], al[i/k%k], al[i/k/k]}
		prog := []edlisp.Value{ops[0].real, ops[1].real, ops[2].real}
		lines := scriptOf("", 1, 1, ops).Script
		for _, t := range []string{"ab\nb b", ""} {
			x := expect(edlisp.NewDefaultEnvironment(), t, prog)
			for _, sep := range []string{"\n", " ; ", " "} {
				out, err := texted.ExecuteScript(t, strings.Join(lines, sep))
				c.Transitions.Add(3)
				ok := x.fail < 0
				if (err == nil) != ok || ok && out != x.states[2].Text {
					c.Fail(&rep.Violation{What: "P10: running a script differs from its instructions one by one", Repro: repro{t, lines}, Expected: fmt.Sprint(x), Actual: fmt.Sprint(out, err)})
				}
				if !ok && err != nil {
					var ee *edlisp.ExecutionError
					if !errors.As(err, &ee) || ee.InstructionIndex != x.fail || ee.BufferContents != x.states[x.fail].Text {
						c.Fail(&rep.Violation{What: "P10: error report of a script", Repro: repro{t, lines}, Expected: fmt.Sprint(x), Actual: fmt.Sprint(err)})
					}
				}
			}
		}
	})
	_ = env
}

func runP12(c *rep.Check) {
	runPrograms(c, true)
	// the test runner with tracing agrees with the one without
	al := programAlphabet()
	k := len(al)
	c.Parallel(k*k, func(w, i int) {
		ops := []op{al[i%k], al[i/k]}
		script := strings.Join(scriptOf("", 1, 1, ops).Script, "\n")
		for _, want := range []string{"ab\nb b", "aab\nb b", "nope"} {
			tc := &edtesting.TestCase{Buffer: "ab\nb b", Input: edtesting.Input{Text: script}, Output: want}
			env := edlisp.NewDefaultEnvironment()
			n := 0
			a := edtesting.RunTest(tc, env)
			b := edtesting.RunTestWithTrace(tc, env, func(*edlisp.TraceContext) { n++ })
			c.Transitions.Add(2)
			prog, perr := parser.ParseString(script)
			x := expect(env, tc.Buffer, prog)
			exp := len(prog)
			if x.fail >= 0 {
				exp = x.fail
			}
			if perr != nil {
				exp = 0
			}
			if a.Passed != b.Passed || a.Actual != b.Actual || a.Expected != b.Expected || fmt.Sprint(a.Error) != fmt.Sprint(b.Error) || n != exp {
				c.Fail(&rep.Violation{What: "P12: test run with and without tracing", Repro: repro{tc.Buffer, []string{script}}, Expected: fmt.Sprintf("%+v, %d traced", *a, exp), Actual: fmt.Sprintf("%+v, %d traced", *b, n)})
			}
		}
	})
}

// ---- P24: independence of earlier runs ----

type run1 struct{ Front, Input, Script string }

func (r run1) do() string {
	defer func() { recover() }()
	switch r.Front {
	case "exec":
		out, err := texted.ExecuteScript(r.Input, r.Script)
		return fmt.Sprintf("%q %v", out, err)
	case "shell", "sexp", "json", "nonsense":
		out, err := texted.ExecuteScriptWithFormat(r.Input, r.Script, r.Front)
		return fmt.Sprintf("%q %v", out, err)
	case "value":
		p, err := parser.ParseString(r.Script)
		if err != nil {
			return err.Error()
		}
		b := edlisp.NewBuffer(r.Input)
		v, err := edlisp.Eval(p, edlisp.NewDefaultEnvironment(), b)
		return fmt.Sprintf("%v %v %q %d %d", v, err, b.String(), b.Point(), b.Mark())
	case "tool":
		return toolEval(r.Input, r.Script, "buffer")
	case "tool-value":
		return toolEval(r.Input, r.Script, "expression")
	case "parse":
		p, err := parser.ParseString(r.Script)
		return fmt.Sprint(p, err)
	case "parse-json":
		p, err := parser.ParseJSONScript(r.Script)
		return fmt.Sprint(p, err)
	case "doc":
		return toolDoc(r.Script)
	}
	panic("harness: front " + r.Front)
}

func historyRuns() []run1 {
	in := []string{"ab a\nab", "", "one two\nthree"}
	var r []run1
	for _, s := range []string{
		"search-forward ab\nreplace-match X", "search-forward \"ab\"\nreplace-match \"X\"", "replace-match \"X\"", "search-forward \"zz\"", "re-search-forward \"a.\"; replace-match \"é\"",
		"re-search-forward \"[\"", "re-search-forward \"(a)(b)\"", "re-search-backward \"a\"", "mark-whole-buffer\nreplace-region \"new\"", "set-mark; end-of-buffer; delete-region",
		"insert \"q\"\nnope", "nope", "insert \"unterminated", "(insert \"a\") (insert \"b\")", "(insert", "goto-char 3\ninsert \"\\n\"\nbeginning-of-line\nset-mark\nend-of-line\nkill-line",
		"point", "goto-char 4; point", "concat \"a\" (buffer-substring 1 -1)", "looking-at \"a\"", "looking-back \"a\"", "current-column", "goto-line 2; line-number-at-pos", "buffer-size",
		"insert 1", "upcase \"aé\"", "string-match \"b+\" \"abb\"", "replace-regexp-in-string \"a\" \"b\" \"aa\"", "capitalize \"éA\"", "delete-line 2", "kill-word; kill-word", "", "exchange-point-and-mark; mark", "search-backward \"b\"",
	} {
		for i, t := range in {
			if i == 0 || len(r)%2 == i-1 {
				r = append(r, run1{"exec", t, s})
			}
		}
		r = append(r, run1{"value", in[0], s}, run1{"tool-value", in[2], s})
	}
	r = append(r, run1{"tool", in[0], "end-of-buffer; insert \"!\""}, run1{"tool", in[0], "nope"}, run1{"json", in[0], `[["search-forward","ab"],["replace-match","J"]]`}, run1{"json", in[0], `["insert","x"]`}, run1{"json", in[0], `["insert",true]`},
		run1{"sexp", in[0], `(insert "s")`}, run1{"shell", in[0], `insert "s"`}, run1{"nonsense", in[0], "point"}, run1{"parse", "", "a \"b\" (c 1 (d)) ; e"}, run1{"parse", "", "(a"}, run1{"parse", "", "\"x"}, run1{"parse-json", "", `[["a",1,["b"]]]`}, run1{"parse-json", "", "{"},
		run1{"doc", "", ""}, run1{"doc", "", "insert"}, run1{"doc", "", "nope"})
	return r
}

// siblings are groups of long runs of one size that differ in one place: in the
// script or in the text.
func siblings(top int) [][]run1 {
	var groups [][]run1
	for k := 3; k <= top; k++ {
		for d := 0; d <= 1; d++ {
			n := 1<<k + d
			vary := func(mk func(b []byte) run1) {
				var g []run1
				for _, at := range []int{-1, 0, n / 2, n - 1} {
					b := []byte(strings.Repeat("x", n))
					if at >= 0 {
						b[at] = 'y'
					}
					g = append(g, mk(b))
				}
				groups = append(groups, g)
			}
			text := func(front, script string) {
				vary(func(b []byte) run1 { return run1{front, string(b), script} })
			}
			inString := func(front, pre, post string) {
				vary(func(b []byte) run1 { return run1{front, "ab", pre + string(b) + post} })
			}
			inString("exec", `insert "`, `"`)
			inString("exec", "; ", "\npoint")
			inString("value", `concat "`, `" (buffer-substring 1 -1)`)
			inString("json", `[["insert","`, `"]]`)
			inString("sexp", `(insert "`, `")`)
			inString("tool", `insert "`, `"`)
			inString("tool-value", `upcase "`, `"`)
			inString("parse", "", "")
			inString("parse", `a "`, `"`)
			inString("parse-json", `[["a","`, `"]]`)
			text("exec", "upcase \"a\"")
			text("value", "buffer-substring 1 -1")
			text("tool", "search-forward \"y\"; replace-match \"z\"")
			text("value", "re-search-forward \"y\"; point")
			if k <= 12 {
				vary(func(b []byte) run1 { // many instructions
					return run1{"value", "ab", "insert \"" + strings.Join(strings.Split(string(b), ""), "\"\ninsert \"") + "\""}
				})
				vary(func(b []byte) run1 { // many arguments
					return run1{"value", "ab", "concat " + strings.Join(strings.Split(string(b), ""), " ") + " 1"}
				})
				vary(func(b []byte) run1 {
					return run1{"value", "ab", "insert \"" + string(b) + "\"; search-backward \"" + string(b) + "\"; point"}
				})
				vary(func(b []byte) run1 {
					return run1{"value", string(b), "re-search-forward \"" + string(b[:n%900]) + "\"; point"}
				})
			}
		}
	}
	return groups
}

func clipRun(r run1) run1 {
	return run1{r.Front, show(r.Input), show(r.Script)}
}

// alikes are groups of runs that call one function with arguments of similar
// spelling: an answer remembered for one must not serve another.
func alikes() [][]run1 {
	text := "hello-world hello\nHELLO  hello héllo \"hello\" a.c a*b (a) [a] a\\b $1 10 01 fi ﬁ\n"
	var groups [][]run1
	add := func(front, input string, script func(q string) string) {
		var g []run1
		for _, s := range spellings {
			g = append(g, run1{front, input, script(strconv.Quote(s))})
		}
		groups = append(groups, g)
	}
	for _, f := range []string{"search-forward", "re-search-forward"} {
		add("value", text, func(q string) string { return f + " " + q + "; concat \"\" (buffer-substring 1 (point)) \"|\"" })
		add("exec", text, func(q string) string { return f + " " + q + "; replace-match \"<X>\"" })
		add("tool", text, func(q string) string { return f + " " + q + "; replace-match \"<X>\"" })
	}
	for _, f := range []string{"search-backward", "re-search-backward"} {
		add("value", text, func(q string) string { return "end-of-buffer; " + f + " " + q + "; buffer-substring 1 (point)" })
		add("exec", text, func(q string) string { return "end-of-buffer; " + f + " " + q + "; replace-match \"<X>\"" })
	}
	for _, f := range []string{"looking-at", "looking-back"} {
		add("value", text, func(q string) string { return "goto-char 13; " + f + " " + q })
		add("value", text, func(q string) string { return "search-forward \"HELLO\"; backward-word; " + f + " " + q })
	}
	for _, f := range []string{"concat", "upcase", "downcase", "capitalize", "length", "insert"} {
		add("value", text, func(q string) string { return f + " " + q })
	}
	add("value", text, func(q string) string { return "concat (upcase " + q + ") (downcase " + q + ") (capitalize " + q + ")" })
	add("value", text, func(q string) string { return "substring " + q + " 1" })
	add("value", text, func(q string) string { return "concat (substring " + q + " 0 1) \"|\"" })
	add("value", text, func(q string) string { return "string-match " + q + " \"hello-world hello\"" })
	add("value", text, func(q string) string { return "string-match \"l+o?\" " + q })
	add("value", text, func(q string) string {
		return "replace-regexp-in-string " + q + " \"<X>\" \" hello-world hello\\nHELLO \""
	})
	add("value", text, func(q string) string { return "replace-regexp-in-string \"o\" " + q + " \"hello-world\"" })
	add("value", text, func(q string) string { return "replace-regexp-in-string \"l+\" \"<X>\" " + q })
	add("exec", text, func(q string) string { return "search-forward \"world\"; replace-match " + q })
	add("exec", text, func(q string) string { return "mark-whole-buffer; replace-region " + q })
	add("exec", text, func(q string) string { return "insert " + q + "\n" + "insert " + q })
	add("json", text, func(q string) string {
		b, _ := strconv.Unquote(q)
		j, _ := json.Marshal([]any{[]any{"insert", b}})
		return string(j)
	})
	add("sexp", text, func(q string) string { return "(insert " + q + ")" })
	add("parse", text, func(q string) string { return "a " + q + "; b" })
	add("doc", "", func(q string) string { b, _ := strconv.Unquote(q); return b })
	var g []run1
	for _, s := range spellings { // as the text
		g = append(g, run1{"value", s, "re-search-forward \"l+\"; buffer-substring 1 -1"})
	}
	groups = append(groups, g)
	g = nil
	for _, s := range spellings {
		g = append(g, run1{"exec", s, "forward-word; capitalize-word; end-of-line; kill-word -1"})
	}
	groups = append(groups, g)
	for _, f := range []string{"goto-char %s; point", "buffer-substring 1 %s", "concat %s 1", "goto-line %s; point", "delete-char %s; buffer-size"} {
		g = nil
		for _, n := range []string{"1", "1.0", "01", "1.4", "1.5", "1.6", "2", "-1", "10", "0", "-0", "0.5", "1e0", "1e1", "9007199254740993", "9007199254740992"} {
			g = append(g, run1{"value", text, fmt.Sprintf(f, n)})
		}
		groups = append(groups, g)
	}
	return groups
}

func similarCalls(c *rep.Check, self string) {
	groups := alikes()
	fresh := make([][]string, len(groups))
	c.Parallel(len(groups), func(w, i int) {
		for _, r := range groups[i] {
			b, _ := json.Marshal(r)
			cmd := exec.Command(self, os.Args[1:]...)
			cmd.Env = append(os.Environ(), "VERIF_ALONE="+string(b))
			out, err := cmd.Output()
			if err != nil {
				c.Fail(&rep.Violation{What: "P24: a single run does not end normally", Repro: clipRun(r), Actual: fmt.Sprint(err)})
			}
			fresh[i] = append(fresh[i], string(out))
		}
	})
	n := 0
	for i, l := range groups {
		for a := range l {
			for b := range l {
				l[a].do()
				if got := l[b].do(); got != fresh[i][b] {
					c.Fail(&rep.Violation{What: "P24: a run gives another result after a similar one", Repro: []any{l[a], l[b]}, Expected: fresh[i][b], Actual: got})
				}
				c.Transitions.Add(2)
				c.Validated.Add(1)
				n++
			}
			c.States.Add(1)
		}
	}
	c.Family("pairs of calls of one function with similar arguments", int64(n))
}

func runP24(c *rep.Check) {
	runs := historyRuns()
	top := c.Pick(14, 16)
	if s := os.Getenv("VERIF_ALONE_LONG"); s != "" {
		var g, i int
		fmt.Sscan(s, &g, &i)
		fmt.Print(siblings(top)[g][i].do())
		os.Exit(0)
	}
	if s := os.Getenv("VERIF_ALONE"); s != "" { // one run in a process of its own
		var r run1
		json.Unmarshal([]byte(s), &r)
		fmt.Print(r.do())
		os.Exit(0)
	}
	self, _ := os.Executable()
	alone := make([]string, len(runs))
	c.Parallel(len(runs), func(w, i int) {
		b, _ := json.Marshal(runs[i])
		cmd := exec.Command(self, os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_ALONE="+string(b))
		out, err := cmd.Output()
		if err != nil {
			c.Fail(&rep.Violation{What: "P24: a single run does not end normally", Repro: runs[i], Actual: fmt.Sprint(err, string(out))})
		}
		alone[i] = string(out)
	})
	c.Bound("runs", len(runs))
	c.Family("runs in a process of their own", int64(len(runs)))
	env := edlisp.NewDefaultEnvironment()
	outs := map[string]int64{}
	check := func(hist ...int) {
		for k, i := range hist {
			got := runs[i].do()
			if k == len(hist)-1 && got != alone[i] {
				var h []run1
				for _, j := range hist {
					h = append(h, runs[j])
				}
				c.Fail(&rep.Violation{What: "P24: a run gives another result after other runs", Repro: h, Expected: alone[i], Actual: got})
			}
		}
		c.Transitions.Add(int64(len(hist)))
		c.Validated.Add(1)
	}
	for i := range runs { // repeated
		check(i, i, i)
		outs[runs[i].Front]++
	}
	for i := range runs {
		if c.Stop() {
			break
		}
		for j := range runs {
			check(i, j)
			c.States.Add(1)
		}
	}
	c.Family("all histories of two runs", int64(len(runs)*len(runs)))
	step := c.Pick(3, 1)
	var sub []int
	for i := 0; i < len(runs); i += step {
		sub = append(sub, i)
	}
	for _, i := range sub {
		if c.Stop() {
			break
		}
		for _, j := range sub {
			for _, k := range sub {
				check(i, j, k)
			}
		}
	}
	c.Family(fmt.Sprintf("all histories of three runs over %d of them", len(sub)), int64(len(sub)*len(sub)*len(sub)))

	similarCalls(c, self)
	// long scripts and texts of one size that differ in one place
	groups := siblings(top)
	fresh := make([][]string, len(groups))
	c.Parallel(len(groups), func(w, i int) {
		for j := range groups[i] {
			cmd := exec.Command(self, os.Args[1:]...)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_ALONE_LONG=%d %d", i, j))
			out, err := cmd.Output()
			if err != nil {
				c.Fail(&rep.Violation{What: "P24: a single run does not end normally", Repro: clipRun(groups[i][j]), Actual: fmt.Sprint(err)})
			}
			fresh[i] = append(fresh[i], string(out))
		}
	})
	for i, l := range groups {
		if c.Stop() {
			break
		}
		for a := range l {
			for b := range l {
				l[a].do()
				if got := l[b].do(); got != fresh[i][b] {
					c.Fail(&rep.Violation{What: "P24: a run gives another result after a similar one of the same size", Repro: []any{clipRun(l[a]), clipRun(l[b]), "sizes", len(l[b].Input), len(l[b].Script)}, Expected: show(fresh[i][b]), Actual: show(got)})
				}
				c.Transitions.Add(2)
				c.Validated.Add(1)
			}
			c.States.Add(1)
		}
	}
	c.Family("pairs of long runs of one size differing in one place", int64(len(groups)*16))
	c.Bound("longest script or text", 1<<top+1)

	// many different runs, then the same again backwards
	many := c.Pick(3000, 30000)
	nth := func(i int) (run1, string) {
		t := fmt.Sprint("k", i)
		switch i % 4 {
		case 0:
			return run1{"exec", "", "insert \"" + t + "\""}, fmt.Sprintf("%q <nil>", t)
		case 1:
			return run1{"exec", t + "z", "re-search-forward \"" + t + "\"; replace-match \"\""}, fmt.Sprintf("%q <nil>", "z")
		case 2:
			return run1{"json", "", "[[\"insert\",\"" + t + "\"]]"}, fmt.Sprintf("%q <nil>", t)
		}
		return run1{"value", "", "concat \"" + t + "\" \"!\""}, fmt.Sprintf("%q <nil> %q 1 1", t+"!", "")
	}
	for pass := 0; pass < 3; pass++ {
		for i := 0; i < many; i++ {
			k := i
			if pass == 1 {
				k = many - 1 - i
			}
			r, want := nth(k)
			if got := r.do(); got != want {
				c.Fail(&rep.Violation{What: "P24: a run gives another result after many different ones", Repro: []any{r, "pass", pass}, Expected: want, Actual: got})
				break
			}
			c.Transitions.Add(1)
		}
	}
	c.Family("many different runs, forwards, backwards and again", int64(3*many))

	// many runs: something that builds up over hundreds of runs shows
	for i := range runs {
		n := 300
		for k := 0; k < n; k++ {
			if got := runs[i].do(); got != alone[i] {
				c.Fail(&rep.Violation{What: "P24: a run gives another result when repeated", Repro: []any{runs[i], k}, Expected: alone[i], Actual: got})
				break
			}
		}
		c.Transitions.Add(int64(n))
	}

	// whatever any call leaves behind in the process shows in a call on another
	// text: every ordered pair of calls, against the model
	every := allOps()
	for _, x := range specs() {
		every = append(every, thin(x.focus, c.Pick(60, 200))...)
	}
	for _, x := range []string{"", "b", "a+"} {
		for _, n := range []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward", "looking-at", "looking-back", "insert", "replace-match", "replace-region", "upcase", "downcase", "capitalize", "length", "concat"} {
			every = append(every, call(n, x))
		}
		every = append(every, call("string-match", x, "abb"), call("substring", x+"cd", 2.0), call("replace-regexp-in-string", x, "z", "abb"))
	}
	g := newEngine(c, names(every)...)
	c.Bound("calls in ordered pairs on different texts", len(every))
	for i := range every {
		if c.Stop() {
			break
		}
		for j := range every {
			// only this goroutine works: the order of calls is exactly this one
			g.one(0, "ab a\nb", 2, 4, every[i], "")
			g.one(0, "aab b", 2, 3, every[j], "")
		}
		c.States.Add(1)
	}
	c.Family("ordered pairs of calls on different texts", int64(len(every)*len(every)))

	// the same on long texts of one size that differ only in the middle
	var middles [][]string
	for _, n := range []int{20, 100, 400, 1000, 5000, 70000} {
		if n > 10000 && !c.Thorough() {
			continue
		}
		for _, unit := range []string{"x", "w ", "y\n"} {
			pad := strings.Repeat(unit, n/len(unit))
			var l []string
			for _, m := range []string{"ab a\nb", "\nab aa", "aa\n\nb.", "xx éa"} {
				l = append(l, pad+m+pad)
			}
			middles = append(middles, l)
		}
	}
	mine := allOps()
	for _, x := range specs() {
		mine = append(mine, thin(x.focus, c.Pick(16, 60))...)
	}
	c.Bound("calls in ordered pairs on long similar texts", len(mine))
	for _, l := range middles {
		if c.Stop() {
			break
		}
		for _, o := range mine {
			for i := range l {
				for j := range l {
					n := len(l[i])
					for _, p := range []int{n / 2, n + 1, 1} {
						if n > 4000 && p != n/2 && !c.Thorough() {
							continue
						}
						g.one(0, l[i], p, n/3, o, "")
						g.one(0, l[j], p, n/3, o, "")
					}
				}
			}
			c.States.Add(1)
		}
	}
	c.Family("ordered pairs of the same call on long texts of one size", int64(len(middles)*len(mine)*16))

	// one parsed program, one set of functions, used again and again on other texts
	before := map[string]uintptr{}
	for n, f := range env.Functions {
		before[n] = reflect.ValueOf(f).Pointer()
	}
	texts := append(seqTexts, "one two\nthree", strings.Repeat("ab\n", 100))
	al := allOps()
	for i := range al {
		for j := range al {
			e := model.List{model.Sym("concat"), "x", model.List{model.Sym("buffer-substring"), 1.0, -1.0}}
			prog := []edlisp.Value{drive.ToReal(al[i].e), drive.ToReal(al[j].e), drive.ToReal(e)}
			shown := fmt.Sprint(prog)
			copyOf := drive.FromReal(edlisp.NewList(prog...))
			for _, t := range texts {
				fresh := []edlisp.Value{drive.ToReal(al[i].e), drive.ToReal(al[j].e), drive.ToReal(e)}
				a := &drive.Real{Buf: edlisp.NewBuffer(t), Env: env}
				b := &drive.Real{Buf: edlisp.NewBuffer(t), Env: edlisp.NewDefaultEnvironment()}
				oa, ob := a.Run(prog), b.Run(fresh)
				sa, sb := snapOf(a), snapOf(b)
				if sa != sb || fmt.Sprint(oa) != fmt.Sprint(ob) {
					c.Fail(&rep.Violation{What: "P24: a program that ran before differs from a fresh one", Repro: repro{t, scriptOf("", 1, 1, []op{al[i], al[j]}).Script}, Expected: fmt.Sprint(ob, sb), Actual: fmt.Sprint(oa, sa)})
				}
				c.Transitions.Add(6)
			}
			if fmt.Sprint(prog) != shown || !drive.Same(drive.FromReal(edlisp.NewList(prog...)), copyOf) {
				c.Fail(&rep.Violation{What: "P24: running a program changed it", Repro: shown, Expected: shown, Actual: fmt.Sprint(prog)})
			}
			c.States.Add(1)
		}
		if c.Stop() {
			break
		}
	}
	// any number of arguments of any kind: what a program is made of is read, not written
	var fnames []string
	for n := range env.Functions {
		fnames = append(fnames, n)
	}
	sort.Strings(fnames)
	kinds := []func(i int) any{
		func(i int) any { return fmt.Sprint("b", i) },
		func(i int) any { return float64(i + 1) },
		func(i int) any { return model.Sym(fmt.Sprint("s", i)) },
		func(i int) any { return model.List{model.Sym("concat"), "a", fmt.Sprint(i)} },
		func(i int) any { return model.List{} },
		func(i int) any { return []any{"a", 2.0, "c"}[i%3] },
		func(i int) any { return []any{"(b)", "<$1>", "abc"}[i%3] },
		func(i int) any {
			return []any{model.List{model.Sym("concat"), "a", "b", "c", "d"}, 1.0, model.List{model.Sym("length"), "ab"}}[i%3]
		},
	}
	args := c.Pick(8, 20)
	c.Bound("arguments of a program that is run again", args)
	for _, n := range fnames {
		for _, k := range kinds {
			for m := 0; m <= args; m++ {
				e := model.List{model.Sym(n)}
				for i := 0; i < m; i++ {
					e = append(e, k(i))
				}
				for _, e := range []model.List{e, {model.Sym("concat"), "x", e, "y", e}} {
					prog := []edlisp.Value{drive.ToReal(e), drive.ToReal(e)}
					shown := fmt.Sprint(prog)
					var results, kept []edlisp.Value
					var said []string
					for round := 0; round < 3; round++ {
						r := &drive.Real{Buf: edlisp.NewBuffer("xb abc\nb1"), Env: env}
						o := r.Run(prog)
						said = append(said, fmt.Sprint(o, snapOf(r)))
						f := &drive.Real{Buf: edlisp.NewBuffer("xb abc\nb1"), Env: env}
						said = append(said, fmt.Sprint(f.Run([]edlisp.Value{drive.ToReal(e), drive.ToReal(e)}), snapOf(f)))
						if v, err := edlisp.Eval(prog, env, edlisp.NewBuffer("xb abc\nb1")); err == nil && v != nil {
							results = append(results, v)
							kept = append(kept, drive.ToReal(drive.FromReal(v)))
						}
						c.Transitions.Add(3)
					}
					for _, x := range said {
						if x != said[0] {
							c.Fail(&rep.Violation{What: "P24: a program that ran before differs from a fresh one", Repro: model.Show(e), Expected: said[0], Actual: x})
						}
					}
					for i := range results {
						if !drive.Same(drive.FromReal(results[i]), drive.FromReal(kept[i])) {
							c.Fail(&rep.Violation{What: "P24: a later run changed the value of an earlier one", Repro: model.Show(e), Expected: fmt.Sprint(kept[i]), Actual: fmt.Sprint(results[i])})
						}
					}
					if fmt.Sprint(prog) != shown || !drive.Same(drive.FromReal(prog[0]), e) || !drive.Same(drive.FromReal(prog[1]), e) {
						c.Fail(&rep.Violation{What: "P24: running a program changed it", Repro: model.Show(e), Expected: shown, Actual: fmt.Sprint(prog)})
					}
				}
				c.States.Add(1)
			}
		}
	}
	c.Family("every function with any number of arguments, run again", int64(len(fnames)*len(kinds)*(args+1)*2))
	// names that are nearly those of functions: what fails once fails again
	var odd []string
	for _, n := range fnames {
		odd = append(odd, strings.ReplaceAll(n, "-", "_"), strings.ToUpper(n), strings.ReplaceAll(n, "-", ""), n+"s", n[:len(n)-1], n+"!", n+"-p", "_"+n, n+"-", strings.ReplaceAll(n, "-", " "), ":"+n, strings.ToUpper(n[:1])+n[1:], strings.ReplaceAll(n, "-", "."), "edlisp-"+n, n+" ")
	}
	odd = append(odd, dict.Texts()...)
	for _, n := range odd {
		for _, args := range [][]any{nil, {"a"}, {2.0}, {"a", "b"}, {1.0, 2.0}} {
			e := append(model.List{model.Sym(n)}, args...)
			var said []string
			for round := 0; round < 3; round++ {
				r := &drive.Real{Buf: edlisp.NewBuffer("xb abc\nb1"), Env: env}
				said = append(said, fmt.Sprint(r.Run([]edlisp.Value{drive.ToReal(e)}), snapOf(r)))
				if round == 2 {
					f := &drive.Real{Buf: edlisp.NewBuffer("xb abc\nb1"), Env: edlisp.NewDefaultEnvironment()}
					said = append(said, fmt.Sprint(f.Run([]edlisp.Value{drive.ToReal(e)}), snapOf(f)))
				}
				c.Transitions.Add(1)
			}
			for _, x := range said {
				if x != said[0] {
					c.Fail(&rep.Violation{What: "P24: a call gives another result when repeated", Repro: model.Show(e), Expected: said[len(said)-1], Actual: fmt.Sprint(said)})
					break
				}
			}
			if len(args) < 2 {
				for _, r := range []run1{{"exec", "ab", fmt.Sprint("insert \"x\"; ", strings.Trim(model.Show(e), "()"))}, {"sexp", "ab", model.Show(e)}, {"tool-value", "ab", model.Show(e)}, {"parse", "", model.Show(e)}} {
					if a, b := r.do(), r.do(); a != b {
						c.Fail(&rep.Violation{What: "P24: a run gives another result when repeated", Repro: r, Expected: a, Actual: b})
					}
				}
			}
		}
		c.States.Add(1)
	}
	c.Family("names that are nearly those of functions, and texts from the sources", int64(len(odd)*5))
	if len(before) != len(env.Functions) {
		c.Fail(&rep.Violation{What: "P24: scripts changed the set of functions", Repro: "", Expected: fmt.Sprint(len(before)), Actual: fmt.Sprint(len(env.Functions))})
	}
	for n, f := range env.Functions {
		if before[n] != reflect.ValueOf(f).Pointer() {
			c.Fail(&rep.Violation{What: "P24: scripts changed a function", Repro: n})
		}
	}
	c.AddOutcomes(outs)
	for _, a := range alone {
		c.Outcome(a)
	}
	c.Sample([]run1{runs[0], runs[2]})
}
