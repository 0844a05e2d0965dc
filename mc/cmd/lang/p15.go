package main

import (
	"bytes"
	"fmt"
	"math"
	"os/exec"
	"strings"
	"verifmc/dict"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

func readAs(format, s string) ([]edlisp.Value, error) {
	if format == "json" {
		return parser.ParseJSONReader(strings.NewReader(s))
	}
	return parser.ParseReader(strings.NewReader(s))
}

func writeAs(format string, p []edlisp.Value) (string, error) {
	w, err := writer.NewWriter(writer.Format(format))
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = w.Write(&b, p)
	return b.String(), err
}

func nested(p []any) bool {
	for _, e := range p {
		for _, x := range e.(model.List) {
			if _, ok := x.(model.List); ok {
				return true
			}
		}
	}
	return false
}

// convert is one conversion; how the script gets there is up to the caller.
type convert func(in, out, script string) (string, error)

func library(in, out, script string) (s string, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	prog, err := readAs(in, script)
	if err != nil {
		return "", err
	}
	return writeAs(out, prog)
}

func runP15(chk *rep.Check) {
	outs := newOutcomes()
	formats := []string{"shell", "sexp", "json"}
	fail := func(what string, in, out, script, exp, act string) {
		chk.Fail(&rep.Violation{What: "P15: " + what, Repro: map[string]any{"script": showText(script), "from": in, "to": out}, Expected: exp, Actual: act, HowTo: []string{"texted parse --input-format FROM --output-format TO < script"}})
	}
	// one converts a script of program p and reads the result back; it returns the converted script.
	one := func(w int, conv convert, in, out, script string, p []any) (string, bool) {
		chk.Begin(w, func() string { return in + " to " + out + ": " + showText(script) })
		got, err := conv(in, out, script)
		chk.End(w)
		chk.Transitions.Add(1)
		chk.Validated.Add(1)
		if out == "shell" && nested(p) {
			outs[w][in+" to "+out+": refused"]++
			if err == nil {
				fail("a nested call is written in line syntax", in, out, script, "an error", showText(got))
			}
			return "", false
		}
		outs[w][fmt.Sprintf("%s to %s: %d commands", in, out, min(len(p), 8))]++
		if err != nil {
			fail("a script cannot be converted", in, out, script, showProg(p, true), err.Error())
			return "", false
		}
		if len(p) == 0 { // an empty script has nothing to read back in JSON
			if strings.TrimSpace(got) != "" && strings.TrimSpace(got) != "[]" {
				fail("an empty script is converted to something", in, out, script, "nothing", got)
			}
			return got, false
		}
		// read back by the implementation and by the reference
		back, err := readAs(out, got)
		if err != nil {
			fail("the converted script does not parse", in, out, script, showProg(p, true), err.Error()+" in "+showText(got))
			return "", false
		}
		if !sameProg(from(back), p) {
			fail("conversion changes the program", in, out, script, showProg(p, true), showProg(from(back), true))
			return "", false
		}
		ref, ok := refParse(got)
		if out == "json" {
			ref, ok = refJSON(got)
		}
		if !ok || !sameProg(ref, p) {
			fail("conversion changes the program (read by the reference)", in, out, script, showProg(p, true), showProg(ref, ok))
			return "", false
		}
		return got, true
	}
	// chain: every path of conversions, each result being converted again
	var chain func(w int, conv convert, in, script string, p []any, left int)
	chain = func(w int, conv convert, in, script string, p []any, left int) {
		chk.States.Add(1)
		for _, out := range formats {
			if got, ok := one(w, conv, in, out, script, p); ok && left > 1 {
				chain(w, conv, out, got, p, left-1)
			}
		}
	}
	atoms := []any{
		c("insert", "x;y"), c("insert", "(\"\\"), c("insert", "é\n\t\u2028"), c("goto-char", -1.5), c("backward-char"), c("goto-char", 1e21), c("f", "", "", 1.0, -0.25),
		c("insert", c("concat", "<", c("buffer-substring", 1.0, c("point-max")), ">")), c("f", c("g"), "a", c("h", 2.0)), c("insert", "<&>'%d%s#"),
	}
	depth := chk.Pick(3, 4)
	links := chk.Pick(3, 4)
	chk.Bound("commands", len(atoms))
	chk.Bound("commands per script", depth)
	chk.Bound("conversions in a row", links)
	n := len(atoms)
	all := func(w int, conv convert, p []any, st style, links int) {
		for j, t := range renderings(p, st) {
			k := links
			if len(t.script) > 4000 && !chk.Thorough() {
				if k = 1; j%4 != st.quote%4 {
					continue
				}
			}
			chain(w, conv, t.format, t.script, p, k)
		}
	}
	for _, t := range renderings(nil, style{}) { // in JSON, [] also reads as one empty command
		if t.format != "json" {
			chain(0, library, t.format, t.script, nil, 1)
		}
	}
	chk.Parallel(n*n+n, func(w, i int) {
		if i < n {
			for q := 0; q < 4; q++ {
				for sp := 0; sp < 8; sp++ {
					all(w, library, []any{atoms[i]}, style{q, sp, sp}, links)
				}
			}
			return
		}
		i -= n
		var rec func(p []any)
		rec = func(p []any) {
			if chk.Stop() {
				return
			}
			all(w, library, p, style{len(p) % 4, len(p), len(p) % 8}, max(1, links+1-len(p)))
			if len(p) < depth {
				for _, a := range atoms {
					rec(append(p[:len(p):len(p)], a))
				}
			}
		}
		rec([]any{atoms[i/n], atoms[i%n]})
	})
	chk.Lap("alphabet")
	// every literal, number and argument count, nesting
	var progs [][]any
	for _, l := range literals {
		progs = append(progs, []any{c("insert", l)}, []any{c("f", l, 1.0, l), c("g", l)}, []any{c("f", c("g", l, c("h", l)), l)})
	}
	for _, x := range append(numbers, math.Nextafter(1, 2), 1.0/3, 2.0/3, 1e15+0.5, math.Copysign(0, -1)) {
		progs = append(progs, []any{c("f", x)}, []any{c("f", -x, x, "1")}, []any{c("f", c("g", x))})
	}
	for i := -1100; i <= 1100; i++ { // around every power of two and ten
		x := math.Ldexp(1, i)
		y := math.Pow(10, float64(i%309))
		var p []any
		for _, z := range []float64{x, math.Nextafter(x, 0), math.Nextafter(x, math.Inf(1)), y, y + 1, -y, 3 * x} {
			if !math.IsInf(z, 0) && !math.IsNaN(z) {
				p = append(p, c("f", z))
			}
		}
		progs = append(progs, p)
	}
	for i := 0; i <= chk.Pick(70, 300); i++ {
		l := model.List{model.Sym("f")}
		var many []any
		var deep any = c("z", "x")
		for j := 0; j < i; j++ {
			l = append(l, fmt.Sprint("s", j), float64(j))
			many = append(many, c("insert", fmt.Sprintf("l%d;\n", j), float64(j)))
			deep = c("f", deep, float64(j))
		}
		progs = append(progs, []any{l}, []any{deep})
		if i > 0 {
			progs = append(progs, many)
		}
	}
	for _, s := range []string{"a-b", "a_b", "f!", "x*", "<=", "a.b", "a/b", "é", "λ", "日本", "a1", "-", "+", "--", "a:b", "nil", "t", "a\\b", "a,b", "'a", "1+", "1.2.3", "<&>"} {
		progs = append(progs, []any{model.List{model.Sym(s)}, model.List{model.Sym(s), "x", model.List{model.Sym(s), 1.0}}})
	}
	for b := 0; b < 1<<16; b += 256 { // characters of the basic plane, 256 at a time
		var l []rune
		for r := rune(b); r < rune(b+256); r++ {
			if r < 0xd800 || r > 0xdfff {
				l = append(l, r)
			}
		}
		if len(l) > 0 {
			progs = append(progs, []any{c("insert", string(l), string(l[:1])+string(l[len(l)-1:]))})
		}
	}
	for b := 1 << 16; b < 0x110000; b += 1 << 12 {
		var l []rune
		for r := rune(b); r < rune(b+1<<12); r++ {
			l = append(l, r)
		}
		progs = append(progs, []any{c("insert", string(l))})
	}
	for k := 8; k <= chk.Pick(16, 20); k++ {
		for d := -1; d <= 1; d++ {
			progs = append(progs, []any{c("a"), c("insert", strings.Repeat("é", (1<<k+d)/2)+"\\\n"), c("z", 1.0)})
		}
	}
	// long commands: of one, two, some and many arguments
	for k := 6; k <= chk.Pick(17, 20); k++ {
		for d := -3; d <= 3; d++ {
			if n := 1<<k + d; d%2 == 0 || k <= 13 {
				half := strings.Repeat("w", n/2-12)
				progs = append(progs, []any{c("a"), c("insert", half, half+"\"é"), c("z", 1.0)})
				some := c("concat")
				for m := 0; m < n; m += 100 {
					some = append(some, strings.Repeat("y", min(97, n-m)))
				}
				progs = append(progs, []any{c("a"), some, c("z", 1.0)}, []any{c("a"), c("insert", some, "end")})
			}
		}
	}
	for i, n := range manyCounts(chk.Pick(14, 17)) {
		progs = append(progs, []any{c("a"), many(n, i%4), c("z")}, []any{c("a"), many(n, (i+1)%4), c("z")})
	}
	for _, n := range dict.Around(3, 1<<19) {
		progs = append(progs, []any{c("a"), c("insert", strings.Repeat("y", n)), c("z", 1.0)}, []any{c("a"), c("insert", strings.Repeat("é;", n/3)), c("z", 1.0)})
		if n < 20000 {
			progs = append(progs, []any{c("a"), many(n, n%4), c("z")}, append(make([]any, 0, n), many(n, 2)[1:]...))
		}
	}
	whole := len(progs)
	progs = append(progs, mentioned()...)
	chk.Family("literals, numbers, sizes, nesting, characters", int64(len(progs)))
	chk.Parallel(len(progs), func(w, i int) {
		for q := 0; q < 3; q++ {
			if i >= whole && !chk.Thorough() {
				for j, t := range renderings(progs[i], style{i % 4, i % 3, 0}) {
					if j%4 == i%4 {
						chain(w, library, t.format, t.script, progs[i], 2)
					}
				}
				break
			}
			all(w, library, progs[i], style{q, q, q}, 2)
			if !chk.Thorough() && len(progs[i]) > 4 {
				break
			}
		}
	})
	ts := trees("f", "g", "h")
	chk.Family("every call tree of three levels and two arguments", int64(len(ts)))
	chk.Parallel(len(ts), func(w, i int) {
		for j, t := range renderings([]any{ts[i]}, style{}) {
			if j%4 == i%4 {
				chain(w, library, t.format, t.script, []any{ts[i]}, 1)
			}
		}
	})
	chk.Lap("families")
	// bytes that are no characters survive between line and S-expression syntax
	chk.Parallel(256, func(w, b int) {
		p := []any{c("insert", string([]byte{byte(b)}), "é"[:1]+string([]byte{byte(b)})+"a")}
		for _, t := range renderings(p, style{3, 0, 0}) {
			if t.format == "json" {
				continue
			}
			s, in := t.script, t.format
			for _, out := range []string{"sexp", "shell", "sexp"} {
				got, ok := one(w, library, in, out, s, p)
				if !ok {
					break
				}
				s, in = got, out
			}
		}
		if prog, err := parser.ParseString(fmt.Sprintf("insert \"\\x%02x\"", b)); b >= 0x80 && err == nil {
			if got, err := writeAs("json", prog); err == nil {
				if back, err := readAs("json", got); err != nil || !sameProg(from(back), from(prog)) {
					chk.Fail(&rep.Violation{What: "P15: a string that is not valid UTF-8 is altered in JSON", Key: "json:invalid-utf8", Repro: fmt.Sprintf("insert \"\\x%02x\"", b), Actual: got})
				}
			}
		}
	})
	// what is no script is refused by a conversion, with nothing converted silently
	for _, in := range formats {
		for _, s := range []string{"insert \"a\"\ninsert \"b", "(a", "a)", "(a) b", "[\"a\"] [1]", "[[\"a\"],[1]]", "[\"a\", true]", "{}", "[\"a\"", "[null]"} {
			_, ok := refParse(s)
			if in == "json" {
				_, ok = refJSON(s)
			}
			if ok {
				continue
			}
			for _, out := range formats {
				if got, err := library(in, out, s); err == nil {
					fail("text that is no script is converted", in, out, s, "an error", got)
				}
				chk.Transitions.Add(1)
			}
		}
	}
	chk.Lap("bytes")
	// the parse command itself
	bin := rep.Texted()
	command := func(in, out, script string) (string, error) {
		args := []string{"parse", "--input-format", in, "--output-format", out}
		if in == "shell" && out == "sexp" {
			args = args[:1] // the defaults
		}
		cmd := exec.Command(bin, args...)
		cmd.Stdin = strings.NewReader(script)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if err := cmd.Run(); err != nil {
			return "", fmt.Errorf("%v: %s", err, se.String())
		}
		return so.String(), nil
	}
	var cmdProgs [][]any
	for i := range atoms {
		cmdProgs = append(cmdProgs, []any{atoms[i], atoms[(i+1)%n]})
	}
	var flatAll, nestAll []any
	for _, p := range progs {
		if len(p) > 50 || len(showProg(p, true)) > 1500 {
			continue
		}
		for _, e := range p {
			if nested([]any{e}) {
				nestAll = append(nestAll, e)
			} else {
				flatAll = append(flatAll, e)
			}
		}
	}
	cmdProgs = append(cmdProgs, flatAll, nestAll, append(append([]any{}, flatAll[:40]...), nestAll[:2]...))
	chk.Family("through the parse command", int64(len(cmdProgs)))
	chk.Parallel(len(cmdProgs), func(w, i int) {
		for j, t := range renderings(cmdProgs[i], style{0, 0, 0}) {
			if j%4 == i%4 || chk.Thorough() {
				chain(w, command, t.format, t.script, cmdProgs[i], 1)
			}
		}
	})
	for _, in := range formats {
		for _, out := range []string{"shell", "sexp", "json", "yaml", ""} {
			for _, s := range []string{"insert \"a", "(a", "[1]", "[\"a\""} {
				if _, err := command(in, out, s); err == nil {
					_, ok := refParse(s)
					if in == "json" {
						_, ok = refJSON(s)
					}
					if !ok || out == "yaml" || out == "" {
						fail("the parse command accepts what is no script or format", in, out, s, "an error", "success")
					}
				}
				chk.Transitions.Add(1)
			}
		}
	}
	chk.Lap("command")
	// running a script and running its conversion give the same result
	run := [][]any{{c("search-forward", "b"), c("replace-match", "x;\"(é"), c("goto-char", 2.0), c("insert", "\n")}, {c("insert", c("concat", c("buffer-substring", 1.0, 3.0), "\\"))}, {c("delete-char", 2.0), c("search-forward", "zz"), c("insert", "a")}}
	for _, p := range run {
		for _, t := range renderings(p, style{0, 0, 0}) {
			for _, out := range formats {
				got, err := library(t.format, out, t.script)
				if err != nil {
					continue
				}
				a := guarded(func() (string, error) { return texted.ExecuteScriptWithFormat("abc b", t.script, t.format) })
				b := guarded(func() (string, error) { return texted.ExecuteScriptWithFormat("abc b", got, out) })
				chk.Transitions.Add(1)
				if a.String() != b.String() {
					fail("a converted script runs differently", t.format, out, t.script, a.String(), b.String())
				}
			}
		}
	}
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(renderings(progs[5], style{0, 0, 0})[2].script)
	chk.Sample(showText(renderings(atoms[7:9], style{1, 0, 0})[4].script))
	chk.Assume("programs made of calls whose name is a symbol writable in line syntax and whose arguments are strings, finite numbers and nested calls", "the JSON writer cannot express strings that are not valid UTF-8 (known finding)", "an empty script converts to no text")
	_ = drive.Same
}
