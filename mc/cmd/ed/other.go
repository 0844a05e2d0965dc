package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifmc/dict"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

// ---- P02: point and mark stay in the buffer ----

var regionProbe = []edlisp.Value{
	drive.ToReal(model.List{model.Sym("region-beginning")}), drive.ToReal(model.List{model.Sym("region-end")}),
	drive.ToReal(model.List{model.Sym("point")}), drive.ToReal(model.List{model.Sym("mark")}), drive.ToReal(model.List{model.Sym("point-max")}),
}

func inBounds(r *drive.Real, out drive.Outcome, probe bool) string {
	n := len(r.Buf.String()) + 1
	p, m := r.Buf.Point(), r.Buf.Mark()
	if p < 1 || p > n {
		return fmt.Sprintf("point %d outside 1..%d", p, n)
	}
	if m < 1 || m > n {
		return fmt.Sprintf("mark %d outside 1..%d", m, n)
	}
	if out.Panic != nil {
		return fmt.Sprintf("panic: %v", out.Panic)
	}
	var ee *edlisp.ExecutionError
	if errors.As(out.Err, &ee) && (ee.Point != p || ee.Mark != m) {
		return fmt.Sprintf("error reports point %d mark %d, they are %d and %d", ee.Point, ee.Mark, p, m)
	}
	if !probe {
		return ""
	}
	want := []float64{float64(min(p, m)), float64(max(p, m)), float64(p), float64(m), float64(n)}
	for i, e := range regionProbe {
		o := r.Exec(e)
		if o.Panic != nil || o.Err != nil || !drive.Same(o.Val, want[i]) {
			return fmt.Sprintf("%v reports %v, expected %v (point %d, mark %d, size %d)", e, o, want[i], p, m, n-1)
		}
	}
	if r.Buf.Point() != p || r.Buf.Mark() != m {
		return "asking for the region moved it"
	}
	return ""
}

func allOps() []op {
	s := specs()
	seen := map[string]bool{}
	var r []op
	add := func(ops []op) {
		for _, o := range ops {
			if k := model.Show(o.e); !seen[k] {
				seen[k] = true
				r = append(r, o)
			}
		}
	}
	for _, id := range []string{"P03", "P04", "P05", "P06", "P07"} {
		add(s[id].core)
	}
	add(setup())
	return r
}

func runP02(c *rep.Check) {
	g := newEngine(c)
	defer g.done()
	s := specs()
	ops := allOps()
	check := func(w int, t string, p, m int, seq []op) {
		r := drive.At(g.envs[w], t, p, m)
		c.Begin(w, func() string { return fmt.Sprint(scriptOf(t, p, m, seq).Script) })
		for i, o := range seq {
			last := i == len(seq)-1
			n := len(r.Buf.String())
			out := r.Exec(o.real)
			bad := inBounds(r, out, last)
			if bad != "" {
				if last {
					g.fail(t, p, m, seq, bad, "point and mark within the text, region bounds equal to them in ascending order", bad, "")
				}
				break
			}
			if last {
				k := o.name
				if len(r.Buf.String()) < n {
					k += " shrink"
				}
				if out.Err != nil {
					k += " error"
				}
				g.outs[w][k]++
			}
		}
		if len(seq) > 1 { // again, without looking in between
			r := drive.At(g.envs[w], t, p, m)
			for _, o := range seq[:len(seq)-1] {
				r.Exec(o.real)
			}
			out := r.Exec(seq[len(seq)-1].real)
			p2, m2 := r.Buf.Point(), r.Buf.Mark()
			n := len(r.Buf.String())
			bad := inBounds(r, out, true)
			if bad == "" && (p2 < 1 || m2 < 1 || p2 > n+1 || m2 > n+1) {
				bad = fmt.Sprintf("point %d mark %d, size %d", p2, m2, n)
			}
			if bad != "" {
				g.fail(t, p, m, seq, bad+" (without looking in between)", "point and mark within the text, region bounds equal to them in ascending order", bad, "")
			}
		}
		c.End(w)
		c.Transitions.Add(int64(len(seq)))
		c.Validated.Add(1)
	}
	// every instruction of every alphabet from every small state, then a second one
	var wide []op
	for _, id := range []string{"P03", "P04", "P05", "P06", "P07", "P08"} {
		wide = append(wide, s[id].focus...)
	}
	for _, n := range []string{"goto-char", "forward-char", "backward-char", "set-mark-command", "delete-char", "delete-backward-char", "mark-line", "delete-line", "goto-line", "forward-word", "backward-word", "kill-word", "backward-kill-word"} {
		wide = append(wide, each(n, 1e9, -1e9, 4503599627370496.0, -4503599627370496.0, 9e18, -9e18)...)
	}
	texts := alpha([]string{"a", " ", "\n", "é"}, c.Pick(3, 4))
	c.Bound("exhaustive texts", len(texts))
	c.Parallel(len(texts), func(w, i int) {
		t := texts[i]
		for p := 1; p <= len(t)+1; p++ {
			for m := 1; m <= len(t)+1; m++ {
				c.States.Add(1)
				for _, o := range wide {
					check(w, t, p, m, []op{o})
				}
			}
		}
	})
	pre := ops
	run := func(family string, texts []string, depth int, alphabet []op) {
		k := len(alphabet)
		total := 1
		for i := 0; i < depth; i++ {
			total *= k
		}
		c.Family(family, int64(total*len(texts)))
		c.Parallel(k*k, func(w, i int) {
			seq := make([]op, depth)
			seq[0], seq[1] = alphabet[i/k], alphabet[i%k]
			for j := 0; j < total/k/k; j++ {
				rest := j
				for d := 2; d < depth; d++ {
					seq[d] = alphabet[rest%k]
					rest /= k
				}
				for _, t := range texts {
					check(w, t, 1, 1, seq)
				}
				c.States.Add(1)
			}
		})
	}
	run("all sequences of length 2", seqTexts, 2, append(append([]op{}, pre...), thin(wide, 120)...))
	run("all sequences of length 3", seqTexts, 3, pre)
	run("all sequences of length 4 over a thinned alphabet", seqTexts[1:3], 4, thin(pre, c.Pick(26, 45)))
	if c.Thorough() {
		run("all sequences of length 5 over a thinned alphabet", seqTexts[1:3], 5, thin(pre, 20))
	}
	// large texts
	near := few3(dict.Around(9, 1<<20))
	c.Parallel(17+len(near), func(w, i int) {
		if i < 4 {
			return
		}
		for d := -1; d <= 1; d++ {
			size := near[max(0, i-17):]
			if i < 17 {
				size = []int{1 << i}
			}
			for _, t := range long(size[0] + d) {
				for _, o := range pre {
					check(w, t, len(t), len(t)+1, []op{o})
					check(w, t, len(t)/2, len(t), []op{call("mark-whole-buffer"), o, call("delete-region"), call("exchange-point-and-mark")})
				}
			}
		}
	})
	c.Bound("sequence depth", c.Pick(4, 5))
	c.Sample(scriptOf(seqTexts[1], 1, 1, []op{pre[0], pre[3]}))
	c.Assume("the invariant is checked on the implementation itself; every execution is an implementation trace")
}

// ---- P09: string functions ----

func runP09(c *rep.Check) {
	g := newEngine(c, "length", "substring", "concat", "upcase", "downcase", "capitalize", "string-match", "replace-regexp-in-string")
	defer g.done()
	sym := []string{"a", "B", " ", "\n", "é", "1", "ß"}
	strs := alpha(sym, c.Pick(3, 4))
	strs = append(strs, "İ", "ǅ", "ﬁx", "ŉ", "ÀÉ", "éa", "Éa b", "日本", "😀A", "don't STOP", "e\u0301A", "ΑΣ", "\x00a", "\\", "\"", "$1", "µ", "ÿ", "ſt", "K", "hELLO wORLD", "ǆ")
	var ops []op
	for _, s := range strs {
		ops = append(ops, call("length", s), call("upcase", s), call("downcase", s), call("capitalize", s))
		for _, a := range []float64{-1, 0, 1, 2, 3, 4, 9, 1.5} {
			ops = append(ops, call("substring", s, a))
			for _, b := range []float64{-2, -1, 0, 1, 2, 3, 4, 5, 9, 2.5} {
				ops = append(ops, call("substring", s, a, b))
			}
		}
	}
	for _, x := range []float64{1 << 53, 1 << 62, 9.2e18, 1 << 63, 1e19, 1e300, math.Inf(1)} {
		ops = append(ops, call("substring", "abc", x), call("substring", "abc", -x), call("substring", "abc", 1.0, x), call("substring", "abc", 1.0, -x))
	}
	parts := []any{"", "a", "é", "\n", "b c"}
	for _, x := range parts {
		ops = append(ops, call("concat", x))
		for _, y := range parts {
			ops = append(ops, call("concat", x, y))
			for _, z := range parts {
				ops = append(ops, call("concat", x, y, z), call("concat", x, y, z, x, y), call("concat", call("concat", x, y).e, z))
			}
		}
	}
	for _, in := range []string{"\\", "$", "%", "&", "{", "\\\\", "$$", "${", "<", "#", "(?", "[", "*"} {
		for b := 0; b < 128; b++ {
			for _, end := range []string{"", "}", "x"} {
				x := in + string([]byte{byte(b)}) + end
				ops = append(ops, call("replace-regexp-in-string", "(b)", x, "abc"), call("replace-regexp-in-string", x, "y", "a"+x+"b"), call("string-match", x, "a"+x+"b"), call("concat", x, "a"))
			}
		}
	}
	for n := 1; n <= 300; n++ {
		args := make([]any, n)
		for i := range args {
			args[i] = fmt.Sprint(i, ",")
		}
		ops = append(ops, call("concat", args...))
	}
	// every replacement template over what templates are made of, for patterns
	// with no group to more groups than there are digits
	for _, t := range alpha([]string{"$", "1", "0", "{", "}", "a"}, c.Pick(5, 6)) {
		if !strings.Contains(t, "$") {
			continue
		}
		for _, p := range [][2]string{{"b", "abc"}, {"(b)", "abc"}, {"(b)(c)?", "abb"}, {"(?P<a>b)(?P<a1>c)", "abcd"}, {"(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)", "abcdefghijkl-abcdefghijkl"}} {
			ops = append(ops, call("replace-regexp-in-string", p[0], t, p[1]))
		}
	}
	subjects := append(alpha([]string{"a", "b", "\n"}, 3), "aab ab", "éa", "abab", "xaxbx", "$1", "A")
	repls := []any{"", "x", "$1", "${1}y", "$0$0", "$$", "\\1", "$", "$1x", "a"}
	for _, r := range regexps {
		for _, s := range subjects {
			ops = append(ops, call("string-match", r, s))
			for _, t := range repls {
				ops = append(ops, call("replace-regexp-in-string", r, t, s))
			}
		}
	}
	for _, r := range []any{"a(", "[x", "*", "a**", "x{2,1}", "\\"} {
		for _, s := range []any{"", "za(", "[x", "*", "a**", "\\", "q"} {
			ops = append(ops, call("string-match", r, s), call("replace-regexp-in-string", r, "q", s))
		}
	}
	for k := 3; k <= c.Pick(16, 20); k++ {
		for d := -1; d <= 1; d++ {
			n := 1<<k + d
			for _, s := range long(n) {
				ops = append(ops, call("length", s), call("upcase", s), call("capitalize", s), call("downcase", s),
					call("substring", s, float64(n)), call("substring", s, 2.0, float64(n)), call("substring", s, float64(n/2), float64(n/2+2)),
					call("concat", s, "z", s), call("string-match", "ab$", s), call("string-match", "b a", s))
				if k <= 13 {
					ops = append(ops, call("replace-regexp-in-string", "b", "$0!", s), call("replace-regexp-in-string", "[ab]+", "", s))
				}
			}
		}
	}
	for _, x := range dict.Texts() {
		re := regexp.QuoteMeta(x)
		ops = append(ops, call("length", x), call("upcase", x), call("downcase", x), call("capitalize", x), call("concat", x), call("concat", x, "a", x), call("concat", "a", x, "b"), call("string-match", re, x), call("string-match", re, "a "+x), call("string-match", "a", x),
			call("replace-regexp-in-string", "b", x, "abcb"), call("replace-regexp-in-string", re, "q", "a"+x+"b"+x), call("replace-regexp-in-string", re+"|b", x+"$0", "a"+x+"b"), call("replace-regexp-in-string", "[a-z]", "<$0>", x))
		for a := -1; a <= len(x)+1; a += 1 + len(x)/12 {
			ops = append(ops, call("substring", x, float64(a)), call("substring", x, 0.0, float64(a)), call("substring", x, float64(a), float64(len(x))), call("substring", "ab"+x, 1.0, float64(a)))
		}
		if _, err := regexp.Compile(x); err == nil {
			ops = append(ops, call("string-match", x, "a "+x), call("replace-regexp-in-string", x, "q", "a"+x+"b"))
		}
	}
	for _, n := range dict.Around(9, 1<<20) {
		for _, s := range long(n) {
			ops = append(ops, call("length", s), call("upcase", s), call("capitalize", s), call("downcase", s), call("substring", s, float64(n)), call("substring", s, 2.0, float64(n-1)), call("concat", s, "z"), call("string-match", "ab$", s))
			if n <= 8200 {
				ops = append(ops, call("replace-regexp-in-string", "b", "$0!", s), call("replace-regexp-in-string", "[ab]+", "", s))
			}
		}
		if n <= 20000 {
			args := make([]any, n)
			for i := range args {
				args[i] = fmt.Sprint(i, ",")
			}
			ops = append(ops, call("concat", args...))
		}
	}
	// texts with many traits at once
	var traits []string
	for _, t := range sinks()[:12] {
		t = strings.ReplaceAll(t, "\xff", "ÿ")
		traits = append(traits, t)
		for i, x := range []string{t, t + t + t + t, t[len(t)/2:], t[:len(t)/2]} {
			x = strings.ToValidUTF8(x, "")
			ops = append(ops, call("length", x), call("upcase", x), call("downcase", x), call("capitalize", x), call("concat", x, "1", x, "\n", x[:0], "é"), call("concat", call("upcase", x).e, x))
			for k := 0; k <= len(x); k += 1 + i*7 {
				ops = append(ops, call("substring", x, float64(k)), call("substring", x, float64(k), float64(k+1)), call("substring", x, float64(k/2), float64(k)), call("substring", x, float64(k), float64(len(x)-k/3)), call("substring", x, float64(k)+0.5, float64(len(x))))
				if y := x[k:min(k+3, len(x))]; i == 0 && utf8.ValidString(y) {
					q := regexp.QuoteMeta(y)
					ops = append(ops, call("string-match", q, x), call("string-match", "(?m)^.*"+q+".?$", x), call("replace-regexp-in-string", q, "<$0\t\">", x))
				}
			}
			for k := 0; k < len(x); k += 150 {
				q := literal(x[k:min(k+1100, len(x))])
				ops = append(ops, call("string-match", q, x), call("replace-regexp-in-string", q, "$0.", x))
			}
			for _, q := range []string{"ab", "(?i)AB", "\\s+", "(?m)^", "(?m)$", "[^a-z]", "(\\w+) (\\w+)", "\\r?\\n", "\"[^\"]*\"", "\\x00", ".", "(?s).+", "x{40}", "é|日", "\\bab\\b", "a(b)?", "\\d", "_", "\\t"} {
				ops = append(ops, call("string-match", q, x))
				for _, r := range []string{"", "X", "$1", "$0$0", "\\1\\\\", "\t\"é\r\n", "${1}_", "$$1"} {
					ops = append(ops, call("replace-regexp-in-string", q, r, x))
				}
			}
		}
	}
	c.Bound("instructions", len(ops))
	c.Family("every instruction in every state", int64(len(ops)*5))
	states := []model.State{{Text: "", Point: 1, Mark: 1}, {Text: "aab ab\nB", Point: 3, Mark: 6}, {Text: "é", Point: 3, Mark: 1}, {Text: "Ba ", Point: 1, Mark: 4}}
	c.Parallel(len(ops), func(w, i int) {
		for _, s := range states {
			c.States.Add(1)
			g.one(w, s.Text, s.Point, s.Mark, ops[i], key(ops[i].e))
		}
		// with a remembered match, as an argument, and twice
		if key(ops[i].e) != "" {
			return
		}
		g.seq(w, "xab ab", []op{call("search-forward", "ab"), ops[i]})
		if len(ops[i].e) < 20 {
			g.seq(w, "xab ab", []op{ops[i], ops[i]})
		}
		// in buffers that hold one of the arguments, under point, before it,
		// between point and mark, and as the remembered match
		for k, a := range ops[i].args {
			x, ok := a.(string)
			if !ok || x == "" || k > 2 || len(x) > 3000 && i%16 != 0 {
				continue
			}
			find := call("search-forward", x)
			n := len(x)
			for j, t := range []string{x, x + " b\n", "a\n" + x, x + x} {
				at := strings.Index(t, x) + 1
				if (i+j+k)%2 == 0 || c.Thorough() {
					g.from(w, t, lived{find, at}, at+n, ops[i])
				} else {
					g.from(w, t, lived{find, at + n}, at, ops[i])
				}
				c.States.Add(1)
			}
		}
		if i%7 == 0 || c.Thorough() {
			t := traits[i/7%len(traits)]
			g.from(w, t, lived{call("search-forward", t[len(t)/3:len(t)/3+2]), len(t) / 4}, 1+i%len(t), ops[i])
		}
	})
	c.Family("in buffers that hold the arguments", int64(len(ops)))
	// every character, and every pair of ASCII characters
	top := rune(c.Pick(0xffff, 0x10ffff))
	blocks := int(top)/64 + 1
	c.Parallel(blocks, func(w, i int) {
		for r := rune(i * 64); r < rune(i*64+64) && r <= top; r++ {
			if r >= 0xd800 && r < 0xe000 {
				continue
			}
			s := string(r)
			for _, n := range []string{"upcase", "downcase", "capitalize", "length"} {
				g.one(w, "ab", 2, 1, call(n, s), "")
				if r < 0x250 || r&15 == 0 {
					g.one(w, "ab", 2, 1, call(n, "é"+s+"aB "+s), "")
				}
			}
			if r < 0x800 || r&63 == 0 {
				for a := 0.0; a <= float64(len(s)); a++ {
					g.one(w, "ab", 2, 1, call("substring", s+"b", a), "")
					g.one(w, "ab", 2, 1, call("substring", "b"+s, 0.0, a), "")
				}
				g.one(w, "ab", 2, 1, call("concat", s, s), "")
				g.one(w, "ab", 2, 1, call("string-match", "[^a-y]", "a"+s), "")
				g.one(w, "ab", 2, 1, call("replace-regexp-in-string", "[^a-y]", "<$0>", "a"+s+"b"), "")
			}
		}
	})
	c.Parallel(128, func(w, i int) {
		for j := 0; j < 128; j++ {
			s := string([]byte{byte(i), byte(j)})
			for _, n := range []string{"upcase", "downcase", "capitalize", "length"} {
				g.one(w, "ab", 2, 1, call(n, s), "")
			}
			g.one(w, "ab", 2, 1, call("concat", s[:1], s[1:]), "")
			g.one(w, "ab", 2, 1, call("replace-regexp-in-string", "b", s, "abc"), "")
			g.one(w, "ab", 2, 1, call("replace-regexp-in-string", "[[:alpha:]]", s, s), "")
			g.one(w, "ab", 2, 1, call("string-match", s, "x"+s), "")
		}
	})
	c.Bound("single characters up to", fmt.Sprintf("U+%X", top))
	// histories of string functions: every pair and triple of a small alphabet
	core := flat(each("length", "", "abé"), each("upcase", "aé"), each("downcase", "AÉ"), each("capitalize", "éA b", "abc"), []op{
		call("substring", "abcd", 2.0, 3.0), call("substring", "abcd", 2.0), call("concat", "a", "b"), call("concat", "x"), call("string-match", "b+", "abb"), call("string-match", "b", "abb"), call("string-match", "(", "a("),
		call("replace-regexp-in-string", "b+", "x", "abb"), call("replace-regexp-in-string", "b", "x", "abb"), call("replace-regexp-in-string", "(a)(b)", "$2$1", "ab")})
	g.sequences("all sequences of three string functions", []string{"", "ab"}, 3, append(core, few(setup(), "insert", "search-forward", "replace-match")...), core)
	c.Sample(model.Show(ops[10].e))
	c.Sample(model.Show(ops[len(ops)/2].e))
	c.Assume("strings are valid UTF-8 (case conversion of invalid bytes is not specified)", "numbers outside the machine integers only as probes")
}

// ---- P11: ill-typed or ill-counted calls ----

func runP11(c *rep.Check) {
	g := newEngine(c)
	defer g.done()
	type call1 struct {
		name string
		e    model.List
		api  []any // direct values for the API family
	}
	pool := []any{"a", 1.0, model.List{model.Sym("looking-at"), "zz"}, model.List{model.Sym("point")}, model.List{model.Sym("insert"), "q"}, "", "2"}
	// strings that look like numbers, symbols or programs, and unusual numbers
	odd := []any{"2", "0", "-1", "1.5", " 3", "3 ", "+1", "0x1", "1e0", "1_000", "inf", "NaN", "nil", "t", "true", "false", "()", "(point)", "\"a\"", "é", "\n", "\x00", 0.0, -1.0, 1.5, 49.0, 1e9, model.List{model.Sym("concat"), "2"}, model.List{model.Sym("upcase"), "1"}, model.List{model.Sym("buffer-substring"), 1.0, 1.0}, model.List{model.Sym("length"), "ab"}}
	var exprs []model.List
	var fns []string
	for n := range model.Commands {
		fns = append(fns, n)
	}
	sortStrings(fns)
	for _, n := range fns {
		var rec func(args []any, depth int)
		rec = func(args []any, depth int) {
			exprs = append(exprs, append(model.List{model.Sym(n)}, args...))
			if depth == 0 {
				return
			}
			for _, a := range pool {
				rec(append(append([]any{}, args...), a), depth-1)
			}
		}
		rec(nil, c.Pick(4, 5))
		for _, a := range odd {
			exprs = append(exprs, model.List{model.Sym(n), a})
			for _, b := range append(append([]any{}, odd...), pool...) {
				exprs = append(exprs, model.List{model.Sym(n), a, b}, model.List{model.Sym(n), b, a})
			}
			for _, b := range pool {
				exprs = append(exprs, model.List{model.Sym(n), a, b, "a"}, model.List{model.Sym(n), "a", a, b}, model.List{model.Sym(n), b, 1.0, a})
			}
		}
		for k := 5; k <= 40; k++ {
			for _, a := range []any{"a", 1.0} {
				exprs = append(exprs, manyArgs(n, a, k))
			}
		}
	}
	for _, h := range []any{"insert", 1.0, model.List{}, model.List{model.Sym("insert"), "x"}, model.Sym("nope"), model.Sym(""), model.Sym("Insert"), model.Sym("INSERT"), model.Sym("insert "), model.Sym("inser"), model.Sym("insertx"), model.Sym("nil"), model.Sym("t"), model.Sym("quote"), model.Sym("progn")} {
		for _, args := range [][]any{{}, {"x"}, {1.0}, {model.List{model.Sym("insert"), "q"}}, {model.List{}}} {
			exprs = append(exprs, append(model.List{h}, args...))
		}
	}
	var heads []string // names that are nearly those of functions, and names from the sources
	for _, n := range fns {
		heads = append(heads, strings.ReplaceAll(n, "-", "_"), strings.ToUpper(n), strings.ReplaceAll(n, "-", ""), n+"s", n[:len(n)-1], n[1:], n+"!", n+"-p", n+"*", "_"+n, n+"-", ":"+n, "'"+n, "("+n, strings.ToUpper(n[:1])+n[1:], strings.ReplaceAll(n, "-", "."), strings.ReplaceAll(n, "-", " "), "edlisp-"+n, " "+n, n+"\n", n+"\u200b", n+"\x00")
	}
	for _, h := range append(heads, dict.Texts()...) {
		if _, known := model.Commands[h]; known {
			continue
		}
		for _, args := range [][]any{{}, {"x"}, {1.0}, {"a", "b"}, {1.0, 2.0}} {
			exprs = append(exprs, append(model.List{model.Sym(h)}, args...))
		}
	}
	for _, n := range fns { // arguments that are not values
		for _, x := range dict.Texts() {
			exprs = append(exprs, model.List{model.Sym(n), x}, model.List{model.Sym(n), 1.0, x}, model.List{model.Sym(n), x, 1.0}, model.List{model.Sym(n), x, "a", 1.0})
		}
		for _, a := range []any{model.Sym("x"), model.List{}, model.List{"x"}, model.List{model.Sym("nope")}, model.Sym("nil")} {
			exprs = append(exprs, model.List{model.Sym(n), a}, model.List{model.Sym(n), "a", a}, model.List{model.Sym(n), 1.0, a}, model.List{model.Sym(n), "a", "b", a})
		}
	}
	type st struct {
		text        string
		point, mark int
		search      bool
	}
	states := []st{{"", 1, 1, false}, {"ab a\nb", 1, 1, false}, {"ab a\nb", 3, 6, false}, {"ab a\nb", 7, 2, false}, {"\n", 2, 1, false}, {"xab ab", 1, 3, true}, {"a\n", 3, 3, false}}
	reals := make([]edlisp.Value, len(exprs))
	for i, e := range exprs {
		reals[i] = drive.ToReal(e)
	}
	c.Bound("calls", len(exprs))
	c.Bound("argument count", "0..4 of every type combination; of one type every count up to 600 (1100) and around powers of two up to 131074")
	c.Family("every call in every state", int64(len(exprs)*len(states)))
	find := drive.ToReal(model.List{model.Sym("search-forward"), "ab"})
	c.Parallel(len(exprs), func(w, i int) {
		e := exprs[i]
		for _, x := range states {
			r := drive.At(g.envs[w], x.text, x.point, x.mark)
			s := model.State{Text: x.text, Point: x.point, Mark: x.mark}
			ops := []op{}
			if x.search {
				r.Exec(find)
				_, s, _ = model.Eval(s, model.List{model.Sym("search-forward"), "ab"})
				ops = append(ops, call("search-forward", "ab"))
			}
			c.Begin(w, func() string { return model.Show(e) })
			out := r.Exec(reals[i])
			c.End(w)
			_, s2, merr := model.Eval(s, e)
			rejected := rejectedCall(s, e)
			ops = append(ops, op{name: "call", e: e})
			k := "accepted"
			switch {
			case out.Panic != nil:
				g.fail(x.text, x.point, x.mark, ops, "panic", "an error", fmt.Sprint(out.Panic), "")
			case rejected:
				k = "rejected"
				if what, exp, act := r.Diff(out, nil, model.AnyErr, s2, true); what != "" {
					g.fail(x.text, x.point, x.mark, ops, "ill-formed call: "+what, exp, act, "")
				}
			case merr == model.OK && out.Err != nil:
				g.fail(x.text, x.point, x.mark, ops, "well-formed call is refused", "accepted", out.Err.Error(), "")
			}
			if h, ok := e[0].(model.Sym); ok {
				g.outs[w][string(h)+" "+k]++
			}
			c.Transitions.Add(1)
			c.Validated.Add(1)
			c.States.Add(1)
		}
	})
	// many arguments: every count to some bound, then around round ones
	var ks []int
	for k := 41; k <= c.Pick(600, 1100); k++ {
		ks = append(ks, k)
	}
	for _, m := range []int{768, 1000, 1024, 2048, 4096, 10000, 32768, 65536} {
		for d := -1; d <= 4; d++ {
			ks = append(ks, m+d)
		}
	}
	ks = append(ks, dict.Around(600, 1<<17)...)
	ks = append(ks, 131073, 131074)
	c.Family("calls with many arguments", int64(2*len(ks)*len(fns)))
	c.Parallel(len(ks)*len(fns), func(w, i int) {
		n, k := fns[i%len(fns)], ks[i/len(fns)]
		for _, a := range []any{"a", 1.0} {
			e := manyArgs(n, a, k)
			x := states[1+k%5]
			s := model.State{Text: x.text, Point: x.point, Mark: x.mark}
			r := drive.At(g.envs[w], x.text, x.point, x.mark)
			real := drive.ToReal(e)
			c.Begin(w, func() string { return fmt.Sprintf("%s with %d arguments %#v", n, k, a) })
			out := r.Exec(real)
			c.End(w)
			rejected := rejectedCall(s, e)
			_, _, merr := model.Eval(s, e)
			bad := func(what, exp, act string) {
				c.Fail(&rep.Violation{What: "P11: " + what, Repro: map[string]any{"function": n, "arguments": k, "each": fmt.Sprintf("%#v", a), "text": x.text, "point": x.point, "mark": x.mark}, Expected: exp, Actual: act})
			}
			switch {
			case out.Panic != nil:
				bad("panic", "an error", fmt.Sprint(out.Panic))
			case rejected:
				if what, exp, act := r.Diff(out, nil, model.AnyErr, s, true); what != "" {
					bad("ill-formed call: "+what, exp, act)
				}
			case merr == model.OK && out.Err != nil:
				bad("well-formed call is refused", "accepted", out.Err.Error())
			}
			c.Transitions.Add(1)
			c.Validated.Add(1)
		}
		c.States.Add(1)
	})
	// argument values that only other programs of the library can pass
	vals := []edlisp.Value{edlisp.NewString("a"), edlisp.NewNumber(1), edlisp.NewSymbol("a"), edlisp.NewList(), edlisp.NewList(edlisp.NewString("a")), edlisp.NewSymbol("nil")}
	kinds := "snyllY"
	env := edlisp.NewDefaultEnvironment()
	for _, n := range fns {
		sig := model.Commands[n]
		var rec func(args []edlisp.Value, k []any, depth int)
		rec = func(args []edlisp.Value, k []any, depth int) {
			if !sig.Accepts(k) {
				b := edlisp.NewBuffer("ab a\nb")
				edlisp.Eval([]edlisp.Value{find}, env, b)
				b.SetMark(5)
				b.SetPoint(2)
				v, err, p := func() (v edlisp.Value, err error, p any) {
					defer func() { p = recover() }()
					v, err = env.Functions[n](args, b)
					return
				}()
				if p != nil || err == nil || b.String() != "ab a\nb" || b.Point() != 2 || b.Mark() != 5 {
					c.Fail(&rep.Violation{What: "P11: direct call of " + n + " with wrong arguments", Repro: fmt.Sprint(args), Expected: "error, state unchanged", Actual: fmt.Sprint(v, err, p, b.String(), b.Point(), b.Mark())})
				}
				c.Transitions.Add(1)
			}
			if depth == 0 {
				return
			}
			for i, v := range vals {
				var mk any = nil
				switch kinds[i] {
				case 's':
					mk = "a"
				case 'n':
					mk = 1.0
				}
				rec(append(append([]edlisp.Value{}, args...), v), append(append([]any{}, k...), mk), depth-1)
			}
		}
		rec(nil, nil, 4)
	}
	c.Sample(model.Show(exprs[3]))
	c.Sample(model.Show(exprs[len(exprs)-7]))
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// rejectedCall: the call itself (or one inside its arguments) is ill-formed.
func rejectedCall(s model.State, e any) bool {
	l, ok := e.(model.List)
	if !ok {
		_, isSym := e.(model.Sym)
		return isSym
	}
	if len(l) == 0 {
		return true
	}
	n, ok := l[0].(model.Sym)
	if !ok {
		return true
	}
	sig, ok := model.Commands[string(n)]
	if !ok {
		return true
	}
	args := make([]any, 0, len(l))
	for _, a := range l[1:] {
		if rejectedCall(s, a) {
			return true
		}
		v, s2, err := model.Eval(s, a)
		if err != model.OK {
			return false // fails for another reason
		}
		s = s2
		args = append(args, v)
	}
	return !sig.Accepts(args)
}

// ---- P27: equality ----

func runP27(c *rep.Check) {
	atoms := []any{"", "a", "b", "ab", "1", "nil", "t", "A", "é", "e\u0301", "a\x00", "\xff", "()", 0.0, 1.0, 2.0, -1.0, 0.1, 0.1 + 1e-17, 0.30000000000000004, 0.3, 1e21, 1 + 1e-9, math.Nextafter(1, 2), math.Inf(1), math.Inf(-1), 1.5, 9007199254740992.0, 9007199254740994.0, math.MaxFloat64, 5e-324, model.Sym("a"), model.Sym(""), model.Sym("nil"), model.Sym("1"), model.Sym("A"), model.Sym("ab")}
	// spellings of the same words
	for _, s := range []string{"a\nb", "Straße x", "ﬁ é", "tab\there", "1.50"} {
		for _, f := range []func(string) string{func(s string) string { return s }, strings.ToUpper, strings.ToLower, strings.Title,
			func(s string) string { return strings.ReplaceAll(s, "\n", "\r\n") }, func(s string) string { return strings.ReplaceAll(s, "\n", "\r") }, func(s string) string { return s + "\n" }, func(s string) string { return s + "\r\n" },
			func(s string) string { return " " + s }, func(s string) string { return s + " " }, func(s string) string { return s + "\x00" }, func(s string) string { return "\ufeff" + s }, func(s string) string { return strings.ReplaceAll(s, "\t", "    ") },
			func(s string) string { return strings.ReplaceAll(s, " ", "\u00a0") }, func(s string) string { return strings.ReplaceAll(s, " ", "  ") }, func(s string) string { return strings.ReplaceAll(s, "é", "e\u0301") }, func(s string) string { return strings.ReplaceAll(s, "ﬁ", "fi") }, func(s string) string { return strings.ReplaceAll(s, "ß", "ss") },
			func(s string) string { return strings.ReplaceAll(s, "0", "") }, func(s string) string { return strings.ReplaceAll(s, "a", "а") }, strconv.Quote, func(s string) string { return s + "\xff" }, func(s string) string { return s + "\xfe" }, func(s string) string { return s + "\ufffd" }, func(s string) string { return s + s }, func(s string) string { return s[1:] }, func(s string) string { return s[:len(s)-1] }} {
			atoms = append(atoms, f(s))
			if t := f(s); len(t) == len(s) || strings.TrimSpace(t) == strings.TrimSpace(s) {
				atoms = append(atoms, model.Sym(t))
			}
		}
	}
	for _, x := range dict.Texts() {
		atoms = append(atoms, x, model.Sym(x))
		if len(x) < 8 {
			atoms = append(atoms, strings.ToUpper(x), x+" ")
		}
	}
	for _, n := range dict.Around(3, 1<<30) {
		atoms = append(atoms, float64(n), float64(-n), float64(n)+0.5, fmt.Sprint(n))
	}
	small := []any{"a", "", 1.0, 2.0, model.Sym("a"), model.List{}}
	var l1 []any
	l1 = append(l1, model.List{})
	for _, a := range append(small, atoms...) {
		l1 = append(l1, model.List{a})
	}
	for _, a := range small {
		for _, b := range small {
			l1 = append(l1, model.List{a, b})
			for _, d := range small[:4] {
				l1 = append(l1, model.List{a, b, d})
			}
		}
	}
	vals := append(append([]any{}, atoms...), l1...)
	for _, a := range thinAny(l1, 40) {
		vals = append(vals, model.List{a}, model.List{a, "a"}, model.List{"a", a}, model.List{model.List{a}, a})
	}
	if c.Thorough() {
		for _, a := range l1 {
			for _, b := range thinAny(l1, 12) {
				vals = append(vals, model.List{a, b})
			}
		}
	}
	// lists of several elements, most of them alike
	var grow func(l model.List, of []any, n int)
	grow = func(l model.List, of []any, n int) {
		if len(l) > 1 {
			vals = append(vals, append(model.List{}, l...))
		}
		if len(l) < n {
			for _, x := range of {
				grow(append(append(model.List{}, l...), x), of, n)
			}
		}
	}
	grow(nil, []any{model.List{}, 1.0}, 5)
	grow(nil, []any{model.List{}, "", model.Sym("nil"), 0.0}, c.Pick(3, 4))
	grow(nil, []any{model.List{}, model.List{model.List{}}, "a"}, c.Pick(3, 4))
	// long lists and strings differing in one place
	for k := 1; k <= 12; k++ {
		for d := -1; d <= 1; d++ {
			n := 1<<k + d
			for _, diff := range []int{-1, 0, n / 2, n - 1} {
				l := make(model.List, n)
				b := []byte(strings.Repeat("x", n))
				for i := range l {
					l[i] = "x"
				}
				if diff >= 0 && n > 0 {
					l[diff] = "y"
					b[diff] = 'y'
				}
				if k <= 7 || d == 0 {
					vals = append(vals, l)
				}
				vals = append(vals, string(b))
			}
		}
	}
	for _, n := range dict.Around(3, 5000) {
		for _, diff := range []int{-1, n - 1} {
			l := make(model.List, n)
			for i := range l {
				l[i] = "x"
			}
			if diff >= 0 {
				l[diff] = "y"
			}
			vals = append(vals, l)
		}
	}
	for _, d := range append(dict.Around(3, 3000), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 34, 50, 60, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 4096) {
		var v, w any = "x", "y"
		for i := 0; i < d; i++ {
			v, w = model.List{v}, model.List{w}
		}
		vals = append(vals, v, w)
	}
	c.Bound("values", len(vals))
	a := make([]edlisp.Value, len(vals))
	b := make([]edlisp.Value, len(vals))
	for i, v := range vals {
		a[i], b[i] = drive.ToReal(v), drive.ToReal(v)
	}
	c.Family("ordered pairs, each of two separately built copies", int64(len(vals)*len(vals)))
	var outs [64]map[string]int64
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	c.Parallel(len(vals), func(w, i int) {
		for j := range vals {
			want := drive.Same(vals[i], vals[j])
			c.Begin(w, func() string { return "Equal " + model.Show(vals[i]) + " " + model.Show(vals[j]) })
			got, p := equal(a[i], b[j])
			same, p2 := equal(a[i], a[j])
			c.End(w)
			c.Transitions.Add(2)
			c.Validated.Add(1)
			outs[w][fmt.Sprintf("%s/%s %v", kind(vals[i]), kind(vals[j]), want)]++
			if got != want || same != want || p != nil || p2 != nil {
				c.Fail(&rep.Violation{What: "P27: equality is not structural", Repro: []string{model.Show(vals[i]), model.Show(vals[j])}, Expected: fmt.Sprint(want), Actual: fmt.Sprint(got, same, p, p2)})
			}
		}
		c.States.Add(1)
	})
	for _, m := range outs {
		c.AddOutcomes(m)
	}
	// lists that share storage, and lists built by the list operations
	base := edlisp.NewList(edlisp.NewString("a"), edlisp.NewNumber(1), edlisp.NewSymbol("s"))
	x, y := base.Append(edlisp.NewString("x")), base.Append(edlisp.NewString("y"))
	for _, q := range []struct {
		a, b edlisp.Value
		want bool
	}{{x, y, false}, {x.Rest(), edlisp.NewList(edlisp.NewNumber(1), edlisp.NewSymbol("s"), edlisp.NewString("x")), true}, {edlisp.NewEmptyList(), edlisp.NewList(), true},
		{base.Rest(), base, false}, {base, x, false}, {x.Rest().Rest(), y.Rest().Rest(), false}, {edlisp.NewNumber(0), edlisp.NewNumber(math.Copysign(0, -1)), true}} {
		if got, p := equal(q.a, q.b); got != q.want || p != nil {
			c.Fail(&rep.Violation{What: "P27: equality of derived lists", Repro: fmt.Sprint(q.a, q.b), Expected: fmt.Sprint(q.want), Actual: fmt.Sprint(got, p)})
		}
		if got, p := equal(q.b, q.a); got != q.want || p != nil {
			c.Fail(&rep.Violation{What: "P27: equality of derived lists is not symmetric", Repro: fmt.Sprint(q.a, q.b), Expected: fmt.Sprint(q.want), Actual: fmt.Sprint(got, p)})
		}
	}
	// very long and very deep values that differ at one place
	for _, n := range append(dict.Around(5000, 1<<21), 8192, 10000, 10001, 65536, 65537, 100001, 1<<20) {
		for _, at := range []int{-1, 0, n / 2, n - 1} {
			mk := func(x int) (*edlisp.List, string, edlisp.Value) {
				l := make([]edlisp.Value, n)
				b := []byte(strings.Repeat("x", n))
				for i := range l {
					l[i] = edlisp.NewNumber(float64(i))
				}
				var deep edlisp.Value = edlisp.NewString("e")
				if x >= 0 {
					l[x] = edlisp.NewNumber(-1)
					b[x] = 'y'
				}
				for i := 0; i < n && n <= 100001; i++ {
					if i == x {
						deep = edlisp.NewList(deep, deep)
					} else {
						deep = edlisp.NewList(deep)
					}
					if i == x && x > 10 { // the doubled part stays small
						deep = edlisp.NewList(edlisp.NewString("d"))
					}
				}
				return edlisp.NewList(l...), string(b), deep
			}
			l1, s1, d1 := mk(-1)
			l2, s2, d2 := mk(at)
			for _, p := range [][2]edlisp.Value{{l1, l2}, {l2, l1}, {edlisp.NewString(s1), edlisp.NewString(s2)}, {edlisp.NewSymbol(s1), edlisp.NewSymbol(s2)}, {d1, d2}, {d2, d1}} {
				want := at < 0
				if p[0] == d1 && p[1] == d2 && n > 100001 {
					want = true
				} else if p[0] == d2 && p[1] == d1 && n > 100001 {
					want = true
				}
				if got, pan := equal(p[0], p[1]); got != want || pan != nil {
					c.Fail(&rep.Violation{What: "P27: equality of large values", Repro: fmt.Sprint("size ", n, ", differing at ", at, ", ", p[0].Kind().KindName()), Expected: fmt.Sprint(want), Actual: fmt.Sprint(got, pan)})
				}
				c.Transitions.Add(1)
			}
		}
	}
	c.Sample([]string{model.Show(vals[40]), model.Show(vals[len(vals)/2])})
	c.Assume("NaN is outside the property", "transitivity and symmetry follow because every pair agrees with structural equality of the model values")
}

func thinAny(l []any, n int) []any {
	if len(l) <= n {
		return l
	}
	var r []any
	for i := 0; i < n; i++ {
		r = append(r, l[i*len(l)/n])
	}
	return r
}

func kind(v any) string {
	switch v.(type) {
	case string:
		return "string"
	case float64:
		return "number"
	case model.Sym:
		return "symbol"
	}
	return "list"
}

func equal(a, b edlisp.Value) (r bool, p any) {
	defer func() { p = recover() }()
	return edlisp.Equal(a, b), nil
}

var _ = reflect.ValueOf
var _ = texted.IsValidFormat
var _ = parser.ParseString

// manyArgs is a call with the same argument k times.
func manyArgs(fn string, a any, k int) model.List {
	l := make(model.List, 0, k+1)
	l = append(l, model.Sym(fn))
	for i := 0; i < k; i++ {
		l = append(l, a)
	}
	return l
}
