package main

import (
	"fmt"
	"slices"
	"strings"
	"unicode"
	"verifmc/dict"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

func showText(s string) string {
	if len(s) > 3000 {
		return fmt.Sprintf("<%d bytes> %q...", len(s), s[:3000])
	}
	return fmt.Sprintf("%q", s)
}

func showProg(p []any, ok bool) string {
	if !ok {
		return "rejected"
	}
	s := model.ShowProgram(p)
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return s
}

type outcomes [64]map[string]int64

func newOutcomes() *outcomes {
	var o outcomes
	for i := range o {
		o[i] = map[string]int64{}
	}
	return &o
}

// parse compares one parser on one text with the wanted program.
func parse(chk *rep.Check, outs *outcomes, w int, which string, f func(string) ([]edlisp.Value, error), s string, want []any, ok bool) {
	var got []edlisp.Value
	var err error
	var pan any
	chk.Begin(w, func() string { return which + " " + showText(s) })
	func() {
		defer func() { pan = recover() }()
		got, err = f(s)
	}()
	chk.End(w)
	chk.Transitions.Add(1)
	chk.Validated.Add(1)
	k := "rejected"
	if ok {
		k = fmt.Sprintf("%d commands", min(len(want), 8))
	}
	outs[w][which+" "+k]++
	bad := ""
	switch {
	case pan != nil:
		bad = fmt.Sprint("panic: ", pan)
	case ok && err != nil:
		bad = "rejected: " + err.Error()
	case !ok && err == nil:
		bad = "accepted as " + showProg(from(got), true)
	case ok && !sameProg(from(got), want):
		bad = showProg(from(got), true)
	case !ok && len(got) > 0:
		bad = "an error together with a program: " + showProg(from(got), true)
	}
	if bad != "" {
		chk.Fail(&rep.Violation{What: "P13: " + which + " reads a script wrongly", Repro: showText(s), Expected: showProg(want, ok), Actual: bad, HowTo: []string{"texted parse --output-format sexp < script"}})
	}
}

func parseReader(s string) ([]edlisp.Value, error) { return parser.ParseReader(strings.NewReader(s)) }

func named(format string) func(string) ([]edlisp.Value, error) {
	return func(s string) ([]edlisp.Value, error) { return parser.ParseFormat(format, s) }
}

func enumerate(chk *rep.Check, symbols []string, n int, f func(w int, s string)) {
	k := len(symbols)
	f(0, "")
	chk.Parallel(k*k, func(w, i int) {
		if i%k == 0 {
			f(w, symbols[i/k])
		}
		var rec func(p string, left int)
		rec = func(p string, left int) {
			f(w, p)
			if left == 0 || chk.Stop() {
				return
			}
			for _, s := range symbols {
				rec(p+s, left-1)
			}
		}
		rec(symbols[i/k]+symbols[i%k], n-2)
	})
}

func runP13(chk *rep.Check) {
	outs := newOutcomes()
	line := func(w int, s string) {
		want, ok := refParse(s)
		parse(chk, outs, w, "ParseString", parser.ParseString, s, want, ok)
		chk.States.Add(1)
	}
	chars := []string{"(", ")", "\"", "\\", ";", " ", "\n", "a", "1", "\t", "\r", "é", "-", "\u00a0"}
	toks := []string{"a", "\"x\"", "\"a;b\"", "\"(\\\"\"", "(", ")", " ", ";", "\n", "-1.5", "\"\\n\\\\\"", "\"é\"", "\t", "\r\n"}
	chk.Bound("all strings of characters", map[string]any{"symbols": chars, "length": chk.Pick(5, 6)})
	chk.Bound("all strings of tokens", map[string]any{"symbols": toks, "length": chk.Pick(5, 6)})
	enumerate(chk, chars, chk.Pick(5, 6), line)
	chk.Lap("chars")
	enumerate(chk, toks, chk.Pick(5, 6), line)
	chk.Lap("toks")
	// quoting needs more characters but fewer of them
	enumerate(chk, []string{"\"", "\\", ";", "n", " ", "("}, chk.Pick(8, 9), line)
	enumerate(chk, []string{"(", ")", "a", " ", "\""}, chk.Pick(8, 10), line)
	enumerate(chk, []string{"1", ".", "e", "-", "+", "0", "x", "_", "n", "a", "i", "f"}, chk.Pick(5, 6), func(w int, s string) {
		line(w, "goto-char "+s)
	})

	chk.Lap("quoting etc")
	// JSON
	js := func(w int, s string) {
		want, ok := refJSON(s)
		parse(chk, outs, w, "ParseJSONScript", parser.ParseJSONScript, s, want, ok)
		if ok {
			parse(chk, outs, w, "ParseJSONReader", func(s string) ([]edlisp.Value, error) { return parser.ParseJSONReader(strings.NewReader(s)) }, s, want, ok)
		}
		chk.States.Add(1)
	}
	jt := []string{"[", "]", ",", "\"a\"", "1", " ", "true", "null", "\"x;y\\n\"", "{}", "[\"b\"]", "\n"}
	chk.Bound("all strings of JSON tokens", map[string]any{"symbols": jt, "length": chk.Pick(6, 7)})
	enumerate(chk, jt, chk.Pick(6, 7), func(w int, s string) {
		if isEmptyNest(s) { // an empty array is no command
			// next to commands it is an error or kept, to fail when it runs
			if _, err := parser.ParseJSONScript(s); err == nil && strings.ContainsRune(s, '"') {
				js(w, s)
			}
			return
		}
		js(w, s)
	})

	// numbers and strings in JSON, well-formed and not, written in every way
	for _, n := range []string{"1e308", "1.8e308", "1e309", "-1e309", "1e400", "-1e400", "1e999", "1e99999", "0e999", "1e-400", "5e-324", "1" + strings.Repeat("0", 308), "1" + strings.Repeat("0", 309), "1" + strings.Repeat("0", 400), "0." + strings.Repeat("0", 400) + "1", "9007199254740993", "18446744073709551616", "1.0000000000000000000001", "1E5", "1e+5", "1e-0", "-0", "-0.0", "01", "+1", ".5", "5.", "0x10", "NaN", "Infinity", "1_000", "1e", "--1", "1.e5", "\"1\""} {
		for _, s := range []string{`[["goto-char", ` + n + `]]`, `["goto-char", ` + n + `]`, `[["a"],["f",["g",` + n + `]],["b"]]`, `["a"] ["f",["g",` + n + `]] ["b"]`, `[["f",` + n + `,2]`, `["f",` + n + `]]`} {
			js(0, s)
		}
	}
	enumerate(chk, []string{"1", "0", ".", "e", "-", "+", "9", "E"}, chk.Pick(5, 6), func(w int, s string) {
		js(w, `[["goto-char",`+s+`]]`)
		js(w, `["f",`+s+`,2]`)
	})
	enumerate(chk, []string{`\`, "u", "d83d", "de00", "n", `"`, "a", "0041", "/", "é", "x"}, chk.Pick(5, 6), func(w int, s string) {
		js(w, `[["insert","`+s+`"]]`)
		js(w, `["insert","x`+s+`"]`)
	})
	chk.Lap("json")
	// programs written in every way
	var progs [][]any
	pairs := map[int]bool{}
	for _, l := range literals {
		progs = append(progs, []any{c("insert", l)}, []any{c("concat", l, 1.0, l)}, []any{c("insert", c("concat", l, "x")), c("f", l)})
	}
	for _, n := range numbers {
		progs = append(progs, []any{c("goto-char", n)}, []any{c("f", -n, c("g", n))})
	}
	for _, a := range literals {
		for _, b := range literals {
			pairs[len(progs)] = true
			progs = append(progs, []any{c("f", a), c("g", b)})
		}
	}
	for n := 0; n <= 130; n++ {
		var p []any
		args := model.List{model.Sym("f")}
		for i := 0; i < n; i++ {
			p = append(p, c("insert", fmt.Sprint("n", i), float64(i)))
			args = append(args, fmt.Sprint(i), float64(i))
		}
		progs = append(progs, p, []any{args})
		var nest any = model.List{model.Sym("z")}
		for i := 0; i < n; i++ {
			nest = model.List{model.Sym("f"), "a;(", nest, float64(i)}
		}
		progs = append(progs, []any{nest, c("last")})
	}
	for _, s := range []string{"a-b", "a_b", "f!", "x*", "<=", "a.b", "a/b", "é", "λ", "日本", "a1", "-", "+", "--", "a:b", "nil", "t", "#t", "a\\b", "a,b", "'a", "a'", "[", "{}", "1+", "-x", "1.2.3", "0x"} {
		progs = append(progs, []any{model.List{model.Sym(s)}}, []any{model.List{model.Sym(s), "x"}, model.List{model.Sym("f"), model.List{model.Sym(s), 1.0}}})
	}
	whole := len(progs)
	progs = append(progs, mentioned()...)
	read := map[string]func(string) ([]edlisp.Value, error){"shell": parser.ParseString, "sexp": parser.ParseString, "json": parser.ParseJSONScript}
	both := func(w int, t text, p []any) {
		parse(chk, outs, w, t.format, read[t.format], t.script, p, true)
		if t.format == "json" && len(p) > 0 {
			parse(chk, outs, w, "JSON reader", func(s string) ([]edlisp.Value, error) { return parser.ParseJSONReader(strings.NewReader(s)) }, t.script, p, true)
		}
		if t.format != "json" {
			parse(chk, outs, w, "line reader", parseReader, t.script, p, true)
		}
		// told the format by name
		switch lead := strings.TrimSpace(t.script); {
		case t.format == "sexp" && t.name != "S-expressions with semicolons" && strings.HasPrefix(lead, "("):
			parse(chk, outs, w, "ParseFormat sexp", named("sexp"), t.script, p, true)
		case t.format == "shell":
			parse(chk, outs, w, "ParseFormat shell", named("shell"), t.script, p, true)
		case t.format == "json" && strings.HasPrefix(strings.Join(strings.Fields(lead[:min(len(lead), 99)]), ""), "[["):
			parse(chk, outs, w, "ParseFormat json", named("json"), t.script, p, true)
		}
	}
	// a value on its own is what it says
	var lone []string
	var loneIs []any
	for _, l := range literals {
		for _, q := range quotings(l) {
			lone, loneIs = append(lone, q), append(loneIs, l)
		}
	}
	for _, n := range numbers {
		for _, f := range []float64{n, -n} {
			for _, q := range numerals(f) {
				lone, loneIs = append(lone, q), append(loneIs, f)
			}
		}
	}
	chk.Family("values on their own", int64(len(lone)))
	for i, q := range lone {
		for _, t := range []string{q, " " + q + "\n", "\n\t" + q} {
			parse(chk, outs, 0, "ParseFormat sexp", named("sexp"), t, []any{loneIs[i]}, true)
			parse(chk, outs, 0, "ParseSexp", parser.ParseSexp, t, []any{loneIs[i]}, true)
		}
	}
	chk.Family("programs written in every style and syntax", int64(len(progs)))
	chk.Parallel(len(progs), func(w, i int) {
		for q := 0; q < 5; q++ {
			for sp := 0; sp < 8; sp++ {
				if (sp > 3 || !chk.Thorough() && sp != q) && q > 0 {
					continue
				}
				if pairs[i] && !chk.Thorough() && sp > 0 && q == 0 {
					continue
				}
				if i >= whole && !chk.Thorough() && (sp != 0 || q != i%5) {
					continue
				}
				for _, t := range renderings(progs[i], style{q, q + sp, sp}) {
					both(w, t, progs[i])
				}
			}
		}
		chk.States.Add(1)
	})

	ts := trees("f", "g", "h")
	chk.Family("every call tree of three levels and two arguments", int64(len(ts)))
	chk.Parallel(len(ts), func(w, i int) {
		for j, t := range renderings([]any{ts[i]}, style{}) {
			if j%4 == i%4 || chk.Thorough() {
				both(w, t, []any{ts[i]})
			}
		}
		chk.States.Add(1)
	})
	chk.Lap("styles")
	// lengths: nothing is lost around any buffer size
	var sizes []int
	for k := 6; k <= chk.Pick(17, 21); k++ {
		for d := -2; d <= 2; d++ {
			sizes = append(sizes, 1<<k+d)
		}
	}
	sizes = append(sizes, dict.Around(3, 1<<19)...)
	chk.Bound("longest literal", slices.Max(sizes))
	chk.Parallel(len(sizes), func(w, i int) {
		n := sizes[len(sizes)-1-i]
		units := []string{"a", "a;", "(x", "é", "\\", "\"", " ", "\n"}
		for _, u := range units {
			s := strings.Repeat(u, n/len(u)+1)[:n/len(u)*len(u)]
			p := []any{c("first"), c("insert", s), c("last", 1.0)}
			for j, t := range renderings(p, style{0, 0, 0}) {
				if chk.Thorough() || n < 1<<13 || j%4 == 0 || t.format == "json" && j%2 == 1 {
					both(w, t, p)
				}
			}
		}
		p := []any{c("first"), model.List{model.Sym(strings.Repeat("w", n)), "x"}, c("last")}
		for _, t := range renderings(p, style{0, 0, 0}) {
			both(w, t, p)
		}
		if n < 1<<15+9 { // many commands, many blanks
			var many []any
			for j := 0; j < n; j++ {
				many = append(many, c("f", float64(j)))
			}
			for _, t := range renderings(many, style{0, 0, 0}) {
				both(w, t, many)
			}
			parse(chk, outs, w, "blanks", parser.ParseString, "a"+strings.Repeat(" ", n)+"b"+strings.Repeat("\n", n)+"c"+strings.Repeat(";", n)+"d", []any{model.List{model.Sym("a"), model.Sym("b")}, model.List{model.Sym("c")}, model.List{model.Sym("d")}}, true)
		}
		chk.States.Add(1)
	})
	// numbers of arguments, of elements and of groups side by side
	counts := manyCounts(chk.Pick(16, 18))
	chk.Bound("most arguments of one command", slices.Max(counts))
	chk.Parallel(len(counts)*4, func(w, i int) {
		n := counts[len(counts)-1-i/4]
		p := []any{c("first"), many(n, i%4), c("last", 1.0)}
		for j, t := range renderings(p, style{i % 3, i % 2, 0}) {
			if chk.Thorough() || n < 3000 || j%3 == i%3 {
				both(w, t, p)
			}
		}
		chk.States.Add(1)
	})
	chk.Lap("counts")
	// a few very long lines
	long := []int{1<<20 + 1, 1<<22 + 1, 1<<24 + 1}
	if chk.Thorough() {
		long = append(long, 1<<25+1, 1<<26+1)
	}
	chk.Bound("longest line", long[len(long)-1])
	chk.Parallel(len(long), func(w, i int) {
		s := strings.Repeat("a", long[len(long)-1-i])
		for _, q := range []struct{ f, s string }{{"shell", "first\ninsert \"" + s + "\"; last"}, {"sexp", "(first)\n(insert \"" + s + "\")(last)"}, {"json", `[["first"],["insert","` + s + `"],["last"]]`}} {
			both(w, text{format: q.f, script: q.s}, []any{c("first"), c("insert", s), c("last")})
		}
		b := strings.Repeat(" ", len(s))
		for _, q := range []struct{ f, s string }{{"shell", "first" + b + "\"x\"" + b + "; last"}, {"sexp", "(first" + b + "\"x\")" + b + "(last)"}, {"json", `[["first",` + b + `"x"],["last"]]`}} {
			both(w, text{format: q.f, script: q.s}, []any{c("first", "x"), c("last")})
		}
	})
	chk.Lap("lengths")
	// nesting up to the limit shared by all syntaxes
	chk.Parallel(1, func(w, _ int) {
		for _, d := range []int{100, 1000, 5000, 9998, 9999} {
			s := strings.Repeat("(f ", d) + "\"x\"" + strings.Repeat(")", d)
			want, ok := refParse(s)
			parse(chk, outs, w, "nested", parser.ParseString, s, want, ok)
			s = "g " + s
			want, ok = refParse(s)
			parse(chk, outs, w, "nested", parser.ParseString, s, want, ok)
		}
	})

	chk.Lap("nesting")
	// every character
	chk.Family("every Unicode character in a literal and in a name", 0x10ffff)
	const block = 64
	chk.Parallel(0x110000/block, func(w, b int) {
		var lit []rune
		var prog []any
		var names strings.Builder
		for r := rune(b * block); r < rune((b+1)*block); r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			lit = append(lit, r)
			if !unicode.IsSpace(r) && !strings.ContainsRune("();\"", r) && r != 0 {
				names.WriteString("q" + string(r) + "q\n")
				prog = append(prog, model.List{model.Sym("q" + string(r) + "q")})
			}
		}
		if len(lit) == 0 {
			return
		}
		p := []any{c("insert", string(lit)), c("g", string(lit[:1]), string(lit[len(lit)-1]))}
		for q := 0; q < 3; q++ {
			for j, t := range renderings(p, style{q, 0, 0}) {
				if chk.Thorough() || j%4 == q {
					both(w, t, p)
				}
			}
		}
		parse(chk, outs, w, "names", parser.ParseString, names.String(), prog, true)
		chk.States.Add(1)
	})
	chk.Lap("every character")
	// bytes written as escapes
	for b := 0; b < 256; b++ {
		parse(chk, outs, 0, "byte escapes", parser.ParseString, fmt.Sprintf("insert \"\\x%02x\\%03o\"\n(insert \"a\\x%02x\")", b, b, b), []any{c("insert", string([]byte{byte(b), byte(b)})), c("insert", "a"+string([]byte{byte(b)}))}, true)
	}
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(renderings(progs[3], style{0, 0, 0})[2])
	chk.Sample(renderings(progs[len(progs)-1], style{1, 1, 5})[6])
	chk.Assume("scripts are valid UTF-8; string literals do not span lines", "JSON is read by the same decoder in reference and implementation (encoding/json)")
}

// manyCounts are numbers around every power of two and some of ten.
func manyCounts(top int) []int {
	r := []int{99, 100, 101, 999, 1000, 1001, 9999, 10000, 10001}
	for k := 3; k <= top; k++ {
		r = append(r, 1<<k-1, 1<<k, 1<<k+1)
	}
	return append(append(r, dict.Around(3, 1<<top)...), 70000)
}

// many is a command of n arguments of one of four kinds.
func many(n, kind int) model.List {
	l := model.List{model.Sym("f")}
	for i := 0; i < n; i++ {
		switch {
		case kind == 0:
			l = append(l, fmt.Sprint("s", i%977))
		case kind == 1:
			l = append(l, float64(i))
		case kind == 2 || i%2 == 0:
			l = append(l, c("g", float64(i)))
		default:
			l = append(l, "a;b")
		}
	}
	if kind == 3 { // one level below
		return c("h", "x", l, 2.0)
	}
	return l
}

// isEmptyNest: arrays that hold nothing but empty arrays.
func isEmptyNest(s string) bool {
	p, ok := refJSON(s)
	if !ok {
		return false
	}
	if len(p) == 0 {
		return true
	}
	for _, e := range p {
		if l, is := e.(model.List); is && len(l) == 0 {
			return true
		}
	}
	return false
}

var _ = drive.Same
