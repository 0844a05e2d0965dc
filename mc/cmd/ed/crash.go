package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

// ---- P01: no crash, no hang ----

func protect(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

func runP01(c *rep.Check) {
	g := newEngine(c)
	defer g.done()
	c.Bound("time limit for one step", rep.HangLimit.String())

	// 1. every function with every argument of every kind and magnitude, everywhere
	nums := []any{-1e308, -1e19, -9.3e18, -9.2e18, -4294967297.0, -2147483649.0, -3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 5.0, 1e9, 2147483648.0, 4294967296.0, 9.2e18, 9.3e18, 1e19, 1e308, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 5e-324, math.MaxFloat64}
	strs := []any{"", "a", "b\n", "\x00", "\xff", "é", "[", "(", "a*", "$", "^", "(a", "x{1000}", "(x{1000}){1000}", "\\", "$1", "${", strings.Repeat("a", 300), "(?P<n>a)", "\\p{L}", "(?s).*", "\\b", "(((((a)))))"}
	other := []any{model.Sym("x"), model.List{}, model.List{model.Sym("looking-at"), "a"}, model.List{"a"}, model.List{model.Sym("delete-char"), 9e18}, model.List{model.Sym("mark-whole-buffer")}, model.List{model.Sym("nope")}}
	pool := append(append(append([]any{}, strs...), nums...), other...)
	var fns []string
	for n := range model.Commands {
		fns = append(fns, n)
	}
	sortStrings(fns)
	fns = append(fns, "nope", "")
	var exprs []model.List
	for _, n := range fns {
		s := model.Sym(n)
		exprs = append(exprs, model.List{s})
		for _, a := range pool {
			exprs = append(exprs, model.List{s, a})
			for _, b := range pool {
				exprs = append(exprs, model.List{s, a, b})
			}
		}
		if len(model.Commands[n].Params) >= 2 {
			for _, a := range pool {
				for _, b := range thinAny(pool, c.Pick(20, 60)) {
					for _, d := range pool {
						exprs = append(exprs, model.List{s, a, b, d})
					}
				}
			}
		}
	}
	texts := []string{"", "a", "\n", "ab c\n\nd", "é\xff", strings.Repeat("ab ", 40)}
	c.Family("every function x argument values x text x position", int64(len(exprs)*len(texts)))
	c.Bound("calls", len(exprs))
	reportPanic := func(t string, seq []op, p any) {
		c.Fail(&rep.Violation{What: "P01: panic", Repro: scriptOf(t, 1, 1, seq), Expected: "a result or an error", Actual: fmt.Sprint(p)})
	}
	c.Parallel(len(exprs), func(w, i int) {
		e := drive.ToReal(exprs[i])
		for _, t := range texts {
			n := len(t) + 1
			for k, pm := range [][2]int{{1, 1}, {n, 1}, {1, n}, {n/2 + 1, n/2 + 1}} {
				if k > 0 && len(exprs[i]) == 4 {
					break
				}
				r := drive.At(g.envs[w], t, pm[0], pm[1])
				c.Begin(w, func() string { return fmt.Sprintf("%s on %q", model.Show(exprs[i]), t) })
				o := r.Exec(e)
				c.End(w)
				if o.Panic != nil {
					reportPanic(t, []op{call("goto-char", float64(pm[1])), call("set-mark"), call("goto-char", float64(pm[0])), {name: "call", e: exprs[i]}}, o.Panic)
				}
				c.Transitions.Add(1)
				if o.Err != nil {
					g.outs[w]["error"]++
				} else {
					g.outs[w]["value"]++
				}
			}
			c.States.Add(1)
		}
	})

	// 2. every sequence of three operations over the whole command set
	var seqOps []op
	for _, n := range fns {
		sig := model.Commands[n]
		switch {
		case sig.Params == "":
			seqOps = append(seqOps, call(n))
		case sig.Params[0] == 'n' && len(sig.Params) == 1:
			seqOps = append(seqOps, call(n, 2.0), call(n, 9.2e18))
			if sig.Opt > 0 {
				seqOps = append(seqOps, call(n))
			}
		case sig.Params == "s":
			seqOps = append(seqOps, call(n, "a"), call(n, ""))
		case sig.Params == "nn":
			seqOps = append(seqOps, call(n, 2.0, -1.0), call(n, 5.0, 2.0))
		}
	}
	k := len(seqOps)
	seqT := []string{"", "ab a\n\na", "a"}
	c.Family("all sequences of three operations of the whole command set", int64(k*k*k*len(seqT)))
	c.Parallel(k*k, func(w, i int) {
		for l := 0; l < k; l++ {
			seq := []op{seqOps[i/k], seqOps[i%k], seqOps[l]}
			for _, t := range seqT {
				r := drive.At(g.envs[w], t, 1, 1)
				c.Begin(w, func() string { return fmt.Sprint(scriptOf(t, 1, 1, seq).Script) })
				for _, o := range seq {
					if out := r.Exec(o.real); out.Panic != nil {
						reportPanic(t, seq, out.Panic)
						break
					}
				}
				c.End(w)
				c.Transitions.Add(3)
				c.Validated.Add(1)
			}
		}
	})
	thinned := thin(seqOps, c.Pick(24, 40))
	k4 := len(thinned)
	c.Parallel(k4*k4, func(w, i int) {
		for l := 0; l < k4*k4; l++ {
			seq := []op{thinned[i/k4], thinned[i%k4], thinned[l/k4], thinned[l%k4]}
			r := drive.At(g.envs[w], "ab a\n\na", 1, 1)
			c.Begin(w, func() string { return fmt.Sprint(scriptOf("ab a\n\na", 1, 1, seq).Script) })
			for _, o := range seq {
				if out := r.Exec(o.real); out.Panic != nil {
					reportPanic("ab a\n\na", seq, out.Panic)
					break
				}
			}
			c.End(w)
			c.Transitions.Add(4)
		}
	})

	// 3. every character string up to a length as a script
	chars := []string{"(", ")", "\"", "\\", ";", " ", "\n", "a", "1", "[", "]", ",", "-", "é", "\x00", "\xff", ".", "{", "'", "\r"}
	tokens := []string{"insert", "\"a\"", "(", ")", ";", "\n", "goto-char ", "9", "-1", "point", "search-forward ", "\"", "\\", "[", "]", ",", "\"insert\"", " ", "1e400", "concat ", "inf"}
	run := func(w int, s string) {
		c.Begin(w, func() string { return fmt.Sprintf("script %q", s) })
		p := protect(func() {
			parser.ParseString(s)
			parser.ParseSexp(s)
			parser.ParseJSONString(s)
			parser.ParseJSONScript(s)
			parser.ParseJSONReader(strings.NewReader(s))
		})
		if p == nil {
			p = protect(func() {
				_, err := texted.ExecuteScript("ab\n", s)
				if err != nil {
					g.outs[w]["script error"]++
					_ = err.Error()
				} else {
					g.outs[w]["script runs"]++
				}
			})
		}
		c.End(w)
		if p != nil {
			c.Fail(&rep.Violation{What: "P01: panic on a script", Repro: repro{"ab\n", []string{fmt.Sprintf("%q", s)}}, Expected: "a result or an error", Actual: fmt.Sprint(p)})
		}
		c.Transitions.Add(6)
		c.Validated.Add(1)
	}
	enum := func(sym []string, n int) {
		k := len(sym)
		c.Parallel(k*k, func(w, i int) {
			base := sym[i/k] + sym[i%k]
			run(w, base)
			if i%k == 0 {
				run(w, sym[i/k])
			}
			var rec func(p string, left int)
			rec = func(p string, left int) {
				if left == 0 || c.Stop() {
					return
				}
				for _, s := range sym {
					run(w, p+s)
					rec(p+s, left-1)
				}
			}
			rec(base, n-2)
		})
		c.States.Add(int64(math.Pow(float64(k), float64(n))))
	}
	enum(chars, c.Pick(4, 5))
	enum(tokens, c.Pick(4, 5))
	c.Bound("script strings", map[string]any{"characters": len(chars), "tokens": len(tokens), "length": c.Pick(4, 5)})
	run(0, "")

	// 4. deep nesting and long scripts
	var deep []string
	top := c.Pick(6, 7)
	for e := 1; e <= top; e++ {
		for _, m := range []int{1, 3} {
			n := m * int(math.Pow(10, float64(e)))
			if n > 3000000 && e < 7 {
				continue
			}
			o, cl := strings.Repeat("(", n), strings.Repeat(")", n)
			deep = append(deep, o, cl, o+cl, strings.Repeat("(concat ", n)+"\"a\""+cl, "insert "+strings.Repeat("(concat ", n)+"\"a\""+cl,
				strings.Repeat("[", n), strings.Repeat("[", n)+strings.Repeat("]", n), strings.Repeat(`["concat",`, n)+`"a"`+strings.Repeat("]", n), "["+strings.Repeat(`["concat",`, n)+`"a"`+strings.Repeat("]", n)+"]",
				strings.Repeat("\"", n), strings.Repeat("\\", n), strings.Repeat(";", n), strings.Repeat("point;", n), strings.Repeat("()", n), strings.Repeat(`{"a":`, n),
				"insert \""+strings.Repeat("a", n)+"\"", strings.Repeat("a", n), strings.Repeat("9", n), strings.Repeat("a ", n), "concat "+strings.Repeat("\"a\" ", n), "re-search-forward \""+strings.Repeat("(", min(n, 100000))+"\"", "re-search-forward \""+strings.Repeat("(a|b)*", min(n, 3000))+"\"", "re-search-forward \""+strings.Repeat("a?", min(n, 3000))+strings.Repeat("a", min(n, 3000))+"\"",
				strings.Repeat("point\n", n), strings.Repeat("(point)", n))
		}
	}
	c.Bound("nesting depth of scripts", int(math.Pow(10, float64(top))))
	c.Family("deep and long scripts", int64(len(deep)))
	c.Parallel(len(deep), func(w, i int) { run(w, deep[i]) })

	// 5. large and awkward texts
	largeOps := func(t string) []op {
		n := float64(len(t))
		pattern := t
		if len(t) > 1024 { // a match takes pattern times text
			pattern = t[:64]
		}
		var r []op
		for _, f := range fns {
			sig := model.Commands[f]
			if sig.Params == "" || sig.Opt >= len(sig.Params) {
				r = append(r, call(f))
			}
			switch sig.Params {
			case "n":
				r = append(r, each(f, 2.0, 1000.0, math.Floor(n/2), n, 9.2e18)...)
			case "s":
				if f == "insert" || strings.HasPrefix(f, "replace-") || strings.HasPrefix(f, "search-") || f[0] != 'r' && f[0] != 'l' {
					r = append(r, call(f, t))
				}
				r = append(r, each(f, "a", "", "(?s).*b", pattern)...)
			case "nn":
				r = append(r, call(f, 2.0, -1.0), call(f, n/2, n), call(f, n, 1.0))
			case "ss":
				r = append(r, call(f, "a", t), call(f, pattern, t))
			case "sss":
				r = append(r, call(f, "a", "$0b", t), call(f, "(?s).*", "$0$0", t), call(f, "", "x", t), call(f, pattern, "", t))
			case "snn":
				r = append(r, call(f, t, 2.0), call(f, t, n/2, n), call(f, t, n, 1.0))
			}
		}
		return r
	}
	c.Family("every function on texts of every shape up to 256 KiB", int64(18*len(long(8))*len(largeOps(""))))
	c.Parallel(18*len(long(8)), func(w, k int) {
		i := k % 18
		for si, t := range long(1 << (i + 1)) {
			if si != k/18 {
				continue
			}
			for j, o := range largeOps(t) {
				for q, p := range []int{1, len(t), len(t) + 1, len(t)/2 + 1} {
					if i > 14 && j%4 != q {
						continue
					}
					r := drive.At(g.envs[w], t, p, len(t)/2+1)
					c.Begin(w, func() string { return fmt.Sprintf("%s on %d bytes", model.Show(o.e), len(t)) })
					out := r.Exec(o.real)
					c.End(w)
					if out.Panic != nil {
						reportPanic(t, []op{o}, out.Panic)
					}
					c.Transitions.Add(1)
				}
			}
		}
	})
	// errors on texts of every size, with point and mark everywhere near a
	// boundary: reporting them must not fail either
	fails := []op{call("nope"), call("search-forward", "never"), call("replace-match", "x"), call("insert", 1.0), call("goto-char"), call("insert", model.List{model.Sym("mark-whole-buffer"), 1.0}), call("re-search-forward", "(")}
	var lens []int
	for n := 0; n <= c.Pick(300, 700); n++ {
		lens = append(lens, n)
	}
	for k := 9; k <= 16; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	c.Family("failing instructions on texts of every size", int64(len(lens)*len(fails)))
	c.Parallel(len(lens), func(w, i int) {
		n := lens[i]
		for _, t := range []string{strings.Repeat("x", n), strings.Repeat("é", n)[:n], strings.Repeat("a\n", n)[:n]} {
			ps := []int{}
			for d := 0; d <= 70; d++ {
				ps = append(ps, d+1, n+1-d, n/2+d)
			}
			for k, p := range ps {
				if p < 1 || p > n+1 {
					continue
				}
				for j, o := range fails {
					if j > 0 && k%7 != j {
						continue
					}
					r := drive.At(g.envs[w], t, p, []int{1, n + 1, n/2 + 1}[k%3])
					out := r.Exec(o.real)
					if out.Panic == nil && out.Err != nil {
						out.Panic = protect(func() { _ = fmt.Sprintf("%v %+v %q", out.Err, out.Err, out.Err.Error()) })
					}
					if out.Panic != nil {
						reportPanic(t, []op{call("goto-char", float64(p)), o}, out.Panic)
					}
					c.Transitions.Add(1)
				}
			}
		}
	})
	// 6. values that only programs built through the library contain
	for _, p := range [][]edlisp.Value{{edlisp.NewEmptyList()}, {edlisp.NewList(edlisp.NewList())}, {edlisp.NewSymbol("")}, {edlisp.NewList(edlisp.NewSymbol("insert"), edlisp.NewEmptyList())}, {}} {
		if x := protect(func() {
			_, err := edlisp.Eval(p, g.envs[0], edlisp.NewBuffer("a"))
			if err != nil {
				_ = err.Error()
			}
		}); x != nil {
			c.Fail(&rep.Violation{What: "P01: panic", Repro: fmt.Sprint(p), Actual: fmt.Sprint(x)})
		}
	}
	c.Sample(model.Show(exprs[77]))
	c.Sample("script " + fmt.Sprintf("%q", chars[0]+tokens[3]+chars[4]))
	c.Assume("termination means finishing within the stated time limit; regular expressions are Go's linear-time ones")
}
