package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"
	"verifmc/dict"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/rep"
)

// P28: expressions. The oracle evaluates the same expressions on one buffer per
// input and reads the printed values back.

type expr struct{ sexp, json string }

var p28exprs = []expr{
	{`(point)`, `["point"]`},
	{`(insert "a b")`, `[["insert","a b"]]`},
	{`(goto-char 2)`, `["goto-char",2]`},
	{`(buffer-substring 1 -1)`, `["buffer-substring",1,-1]`},
	{`delete-char`, `[["delete-char"]]`},
	{`(search-forward "b")`, `["search-forward","b"]`},
	{`upcase "é,\"x\\y\n"`, `["upcase","é,\"x\\y\n"]`},
	{`(looking-at "b")`, `["looking-at","b"]`},
	{`end-of-buffer; point; mark`, `[["end-of-buffer"],["point"],["mark"]]`},
	{`(replace-match "Z")`, `["replace-match","Z"]`},
	{`(nope)`, `["nope"]`},
	{`(insert "x`, `["insert","x"`},
	{``, `[]`},
	{`insert "X"; nope; insert "Y"`, `["insert","X"]["nope"]["insert","Y"]`},
	{`concat "[1]" "(a) ; b"`, `["concat","[1]","(a) ; b"]`},
	{`(set-mark)`, `["set-mark"]`},
	{`string-match "x" "y"`, `["string-match","x","y"]`},
}

type p28input struct {
	name  string
	files []string
	stdin string
	world world // in place of the usual one
}

// evalAll is what the expressions give on one input: the values, and whether
// one of them fails.
func evalAll(content string, exprs []string, format string) (vals []edlisp.Value, failed bool) {
	b := edlisp.NewBuffer(content)
	for _, e := range exprs {
		prog, err := parse(e, format)
		if err != nil {
			return vals, true
		}
		v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b)
		if err != nil {
			return vals, true
		}
		vals = append(vals, v)
	}
	return vals, false
}

// printed tells whether one line of output is the value in the format.
func printed(line string, v edlisp.Value, format string) bool {
	if format == "json" {
		var x any
		if json.Unmarshal([]byte(line), &x) != nil {
			return false
		}
		switch v := v.(type) {
		case *edlisp.String:
			return x == any(v.Value)
		case *edlisp.Symbol:
			return x == any(v.Name)
		case *edlisp.Number:
			return x == any(v.Value)
		}
		return false
	}
	switch v := v.(type) {
	case *edlisp.String:
		s, err := strconv.Unquote(line)
		return err == nil && strings.HasPrefix(line, `"`) && s == v.Value
	case *edlisp.Symbol:
		return line == v.Name
	case *edlisp.Number:
		f, err := strconv.ParseFloat(line, 64)
		return err == nil && f == v.Value
	}
	return false
}

func runP28(c *rep.Check) {
	s := newScratch()
	defer s.done()
	base := world{"one": {Data: "abc\nb", Mode: 0o644}, "two": {Data: "", Mode: 0o600}, "d/three": {Data: "xb", Mode: 0o444}, "d": {Dir: true}}
	inputs := []p28input{
		{"stdin", nil, "a b", nil},
		{"empty stdin", nil, "", nil},
		{"a file", []string{"one"}, "ignored b", nil},
		{"two files", []string{"one", "d/three"}, "ignored b", nil},
		{"the same file twice", []string{"one", "one"}, "", nil},
		{"three files", []string{"d/three", "two", "one"}, "", nil},
		{"a missing file", []string{"missing"}, "", nil},
		{"a missing file between", []string{"d/three", "missing", "one"}, "", nil},
		{"a directory", []string{"d", "one"}, "", nil},
	}
	type job struct {
		in     int
		ex     []int
		format string // script format
		out    string
		extra  []string
	}
	n := len(p28exprs)
	var lists [][]int
	for a := 0; a < n; a++ {
		if p28exprs[a].sexp != "" { // a single empty expression may be refused
			lists = append(lists, []int{a})
		}
		for b := 0; b < n; b++ {
			lists = append(lists, []int{a, b})
		}
	}
	var triples [][]int
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for d := 0; d < n; d++ {
				triples = append(triples, []int{a, b, d})
			}
		}
	}
	var jobs []job
	formats := []string{"shell", "json"}
	if c.Thorough() {
		formats = []string{"shell", "sexp", "json"}
	}
	extras := [][]string{nil, {"-q"}, {"-v"}, {"-i"}, {"-n"}, {"-o", "out"}, {"-i", "--backup", ".bak"}}
	for _, l := range lists {
		for i := range inputs {
			for fi, f := range formats {
				for oi, o := range []string{"", "shell", "sexp", "json"} {
					for xi, x := range extras {
						if c.Thorough() && len(l) < 2 || xi == 0 && (oi != 1) && (fi == 0 || oi == 0) || len(l) == 1 && fi == 0 && oi == 0 || c.Thorough() && (xi < 3 || oi == 0) {
							jobs = append(jobs, job{i, l, f, o, x})
						}
					}
				}
			}
		}
	}
	// every option, and every two of them, with every list of two
	pairs := [][]string{{"-q", "-v"}, {"-q", "-i"}, {"-q", "-n"}, {"-q", "-o", "out"}, {"-v", "-n"}, {"-n", "-i"}, {"-v", "-i", "--backup", ".bak"}}
	for k, l := range lists {
		for xi, x := range append(extras[1:len(extras):len(extras)], pairs...) {
			for i := range inputs {
				if len(l) == 2 && (c.Thorough() || (k+xi+i)%3 == 0 || i == 3 && x[0] == "-q" && len(x) == 1) {
					f, o := formats[(k+i)%len(formats)], []string{"sexp", "json", "shell"}[(k+xi)%3]
					jobs = append(jobs, job{i, l, f, o, x})
				}
			}
		}
	}
	for _, l := range triples {
		jobs = append(jobs, job{3, l, "shell", "sexp", nil})
		if c.Thorough() {
			jobs = append(jobs, job{0, l, "json", "json", nil}, job{5, l, "shell", "shell", []string{"-v"}}, job{2, l, "sexp", "json", []string{"-q"}})
		}
	}
	// long inputs and values
	small := len(inputs)
	nums := []expr{{`buffer-size`, `["buffer-size"]`}, {`(point-max)`, `["point-max"]`}, {`end-of-buffer; point`, `[["end-of-buffer"],["point"]]`}, {`buffer-substring 1 -1`, `["buffer-substring",1,-1]`}, {`(search-backward "b")`, `["search-backward","b"]`}, {`(line-number-at-pos)`, `["line-number-at-pos"]`}, {`(goto-char 3)`, `["goto-char",3]`}}
	first := len(p28exprs)
	all := append(append([]expr{}, p28exprs...), nums...)
	sizes := []int{4095, 4096, 4097, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1048577, 1234567}
	for k := 5; k < 12; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	sizes = append(sizes, dict.Around(5, 1<<21)...)
	if c.Thorough() {
		sizes = append(sizes, 1<<24+1, 10000001, 16777215)
	}
	for _, n := range sizes {
		for _, unit := range []string{"x", "ab ", "é\n\"", "\n"} {
			if n > 100000 && unit != "ab " && !c.Thorough() {
				continue
			}
			t := (strings.Repeat(unit, n/len(unit)) + strings.Repeat("z", len(unit)))[:n]
			if !utf8.ValidString(t) {
				t = "y" + t[:n-1]
			}
			if !utf8.ValidString(t) {
				t = strings.Repeat("z", n)
			}
			inputs = append(inputs, p28input{fmt.Sprint(n, " bytes"), nil, t, nil}, p28input{fmt.Sprint("files of ", n, " bytes"), []string{"one", "big"}, "", world{"one": {Data: "b", Mode: 0o644}, "big": {Data: t, Mode: 0o644}}})
			for _, f := range []string{"shell", "json"} {
				for k, o := range []string{"shell", "sexp", "json"} {
					for in := len(inputs) - 2; in < len(inputs); in++ {
						if n < 5000 || k == n%3 || c.Thorough() {
							jobs = append(jobs, job{in, []int{first, first + 2, first + 1}, f, o, nil}, job{in, []int{first + 6, first + 3, first + 4, first + 5}, f, o, nil})
						}
					}
				}
			}
		}
	}
	// odd names
	for i, n := range oddNames {
		if strings.HasPrefix(n, "-") {
			n = "./" + n
		}
		clean := strings.TrimPrefix(n, "./")
		w := world{clean: {Data: "xb", Mode: 0o644}, "one": {Data: "b", Mode: 0o644}}
		inputs = append(inputs, p28input{n, []string{n}, "", w}, p28input{n + " and one", []string{n, "one"}, "", w}, p28input{"one and missing " + n, []string{"one", n}, "", world{"one": {Data: "b", Mode: 0o644}}})
		for k := 1; k <= 3; k++ {
			for x, o := range []string{"shell", "sexp", "json"} {
				jobs = append(jobs, job{len(inputs) - k, []int{first, first + 3}, "shell", o, nil})
				if (i+k+x)%4 == 0 || c.Thorough() {
					jobs = append(jobs, job{len(inputs) - k, []int{first, first + 3}, "json", o, []string{"-v"}}, job{len(inputs) - k, []int{first + 6, first + 3}, "shell", o, []string{"-i"}})
				}
			}
		}
	}
	// many expressions: every length, a few patterns, values that tell them apart
	move := len(all)
	all = append(all, expr{`(forward-char)`, `["forward-char"]`}, expr{`(insert "x")`, `["insert","x"]`}, expr{`(search-forward "a")`, `["search-forward","a"]`}, expr{`replace-match "b"`, `["replace-match","b"]`}, expr{`set-mark; forward-char 2`, `[["set-mark"],["forward-char",2]]`}, expr{`(mark)`, `["mark"]`})
	many := len(inputs)
	inputs = append(inputs, p28input{"a long line", nil, strings.Repeat("a", 200), nil}, p28input{"two long lines", []string{"p", "q"}, "", world{"p": {Data: strings.Repeat("a", 150), Mode: 0o644}, "q": {Data: strings.Repeat("ab", 150), Mode: 0o644}}})
	lengths := append([]int{64, 65, 100, 127, 128, 129}, dict.Around(41, 1300)...)
	for k := 4; k <= c.Pick(40, 200); k++ {
		lengths = append(lengths, k)
	}
	if c.Thorough() {
		lengths = append(lengths, 255, 256, 257, 500, 1000)
	}
	for _, k := range lengths {
		for x, pat := range [][]int{{0, move}, {move, 0}, {move + 1, 0, 3}, {move + 2, move + 3, 0}, {move + 4, 0, move + 5}, {0}, {move, 10, 0}} {
			var l []int
			for len(l) < k {
				if x == 6 && len(l) < k-2 { // the error comes last but one
					l = append(l, []int{move, 0}[len(l)%2])
				} else if x == 6 {
					l = append(l, pat[len(l)-k+3])
				} else {
					l = append(l, pat[len(l)%len(pat)])
				}
			}
			for in := many; in < many+2; in++ {
				f, o := []string{"shell", "json"}[(k+x)%2], []string{"sexp", "json", "shell"}[(k+x+in)%3]
				jobs = append(jobs, job{in, l, f, o, nil})
			}
		}
	}
	c.Bound("longest list of expressions", slices.Max(lengths))
	// the same question before and after a change
	ask, change := len(all), 0
	for _, q := range []string{"point", "point-min", "point-max", "buffer-size", "line-number-at-pos", "current-column", "mark", "region-beginning", "region-end", "buffer-substring 1 -1", "buffer-substring 1 3", "looking-at \"a\"", "looking-at \"b\"", "looking-back \"a\"", "search-forward \"b\"", "search-backward \"a\"", "re-search-forward \"b+\"", "re-search-backward \"a\"", "concat \"a\" \"b\"", "length \"ab\"", "forward-word", "replace-match \"a\"", "string-match \"x\" \"y\"", "concat (buffer-substring 1 3) \"x\"", "length (buffer-substring 1 -1)", "point; buffer-size"} {
		all = append(all, expr{sexp: q})
		if strings.Contains(q, "(") {
			all[len(all)-1].sexp = "(" + q + ")"
		}
	}
	change = len(all)
	for _, q := range []string{"insert \"b\"", "delete-char", "goto-char 2", "end-of-buffer", "set-mark", "mark-whole-buffer", "replace-region \"ab\"", "delete-region", "kill-line", "search-forward \"a\"", "replace-match \"\"", "insert \"a\\n\"", "exchange-point-and-mark"} {
		all = append(all, expr{sexp: q})
	}
	asked := len(inputs)
	inputs = append(inputs, p28input{"repeated questions", nil, "aab\nb a", nil}, p28input{"repeated questions of two files", []string{"p", "q"}, "", world{"p": {Data: "ab b", Mode: 0o644}, "q": {Data: "b ab", Mode: 0o644}}})
	for q := ask; q < change; q++ {
		for e := change; e < len(all); e++ {
			o := []string{"shell", "sexp", "json"}[(q+e)%3]
			jobs = append(jobs, job{asked, []int{q, e, q}, "shell", o, nil}, job{asked + 1, []int{q, q, e, q}, "shell", o, nil})
			if e+1 < len(all) {
				jobs = append(jobs, job{asked, []int{q, e, e + 1, q, e, q}, "shell", o, nil}, job{asked + 1, []int{e, q, e + 1, q}, "shell", o, nil})
			}
		}
	}
	// text that means something to what prints it
	put := len(all)
	all = append(all, expr{"end-of-buffer", `["end-of-buffer"]`}, expr{"(buffer-substring 1 -1)", `["buffer-substring",1,-1]`}, expr{"(concat \"\" (buffer-substring 1 -1) \"!\")", `["concat",["buffer-substring",1,-1],"!"]`}, expr{"point; insert \"%d{{.}}\\\\n$HOME\"", `["insert","%d{{.}}\\n$HOME"]`})
	special := append([]string{"%", "%d", "100%", "%s %d", "%%", "%!d(MISSING)", "%v%v%v", "%[1]d", "%*d", "{{.}}", "{{x}}", "${x}", "$HOME", "\\n", "\\", "\"", "\"\"", "'", "<a&b>", "&amp;", "\u2028", "\u2029", "\u0085", "\u00a0", "\u200b", "\ufeff", "\ufffd", "\x00", "\x01", "\x07\b", "\x1b[31m", "\x7f", "\t", "\r", "\r\n", "\v\f", "é", "e\u0301", "日本", "😀", "=== one ===", "Error: x", "nil", "true", "null", "[]", "{}", "()", "0", "-1", "1e3", "a;b", "# a", "---", " ", "  a  ", "\n", "\n\n", "a\n", "\na"}, dict.Texts()...)
	for i, x := range special {
		if !utf8.ValidString(x) {
			continue
		}
		inputs = append(inputs, p28input{"special text", nil, x, nil}, p28input{"special text in files", []string{"p", "q"}, "", world{"p": {Data: x, Mode: 0o644}, "q": {Data: "a " + x + "b\n" + x, Mode: 0o644}}})
		for in := len(inputs) - 2; in < len(inputs); in++ {
			for k, o := range []string{"", "shell", "sexp", "json"} {
				for e := put; e < len(all); e++ {
					if (i+k+e+in)%3 == 0 || i < 12 || c.Thorough() {
						jobs = append(jobs, job{in, []int{e, e}, "shell", o, extras[(i+k+e)%2*((i+e)%len(extras))]})
						if o != "" && (i+k+e)%2 == 0 {
							jobs = append(jobs, job{in, []int{e}, "json", o, nil})
						}
					}
				}
			}
		}
	}
	c.Family("special texts", int64(len(special)))
	p28exprs := all
	// unknown output formats
	for i := range inputs[:small] {
		jobs = append(jobs, job{i, []int{0, 1}, "shell", "xml", nil})
	}
	c.Bound("expressions", n)
	c.Bound("expression lists", "up to 3")
	c.Bound("runs", len(jobs))
	c.Assume("Evaluating an expression directly gives its value (decided by P01-P15). JSON output is compared as JSON text, so blank lines between values are left open.",
		"What is printed about an error, and --verbose reports, are left open apart from their place.")
	c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		in := inputs[j.in]
		base := base
		if in.world != nil {
			base = in.world
		}
		dir := s.fresh(w, base)
		args := []string{"edit"}
		var exprs []string
		for k, e := range j.ex {
			t := p28exprs[e].sexp
			f := j.format
			if f == "json" {
				t = p28exprs[e].json
			}
			exprs = append(exprs, t)
			if k%2 == 0 {
				args = append(args, "-e", t)
			} else {
				args = append(args, "--expression="+t)
			}
		}
		if j.format != "shell" {
			args = append(args, "--"+j.format)
		}
		outFormat := "shell"
		if j.out != "" {
			args = append(args, "--output-format", j.out)
			outFormat = j.out
		}
		args = append(args, j.extra...)
		args = append(args, in.files...)
		r := run(dir, in.stdin, args...)
		c.States.Add(1)
		c.Transitions.Add(int64(len(j.ex)))
		act := fmt.Sprintf("exit %d stdout %s stderr %s", r.Exit, shortTail(r.Out), shortTail(r.Err))
		fail := func(what, exp string) {
			c.Fail(&rep.Violation{What: what, Repro: map[string]any{"args": args, "stdin": shortTail(in.stdin), "files": shortTail(base.String())}, Expected: exp, Actual: act})
		}
		if r.crashed() {
			fail("expressions crash", "a result or an error")
			return
		}
		if d := base.diff(r.After); d != "" {
			fail("evaluating expressions changes files: "+d, shortTail(base.String())+" but "+shortTail(r.After.String()))
		}
		has := func(o string) bool {
			for _, x := range j.extra {
				if x == o {
					return true
				}
			}
			return false
		}
		refused := has("-o") && len(in.files) > 1
		if refused {
			if r.Exit == 0 {
				fail("a refused combination succeeds", "nonzero exit status")
			}
			return
		}
		// the expected values, with a header before each of several inputs
		type item struct {
			head string
			val  edlisp.Value
		}
		var want []item
		failed := false
		contents := []string{in.stdin}
		var names []string
		if in.files != nil {
			contents, names = nil, in.files
			for _, f := range in.files {
				x, ok := base[strings.TrimPrefix(f, "./")]
				if !ok || x.Dir {
					contents = append(contents, "\x00missing")
				} else {
					contents = append(contents, x.Data)
				}
			}
		}
		for k, t := range contents {
			if t == "\x00missing" {
				failed = true
				break
			}
			if len(names) > 1 {
				want = append(want, item{head: "=== " + names[k] + " ==="})
			}
			vals, bad := evalAll(t, exprs, map[string]string{"json": "json"}[j.format])
			for _, v := range vals {
				want = append(want, item{val: v})
			}
			if bad {
				failed = true
				break
			}
		}
		if outFormat == "xml" {
			if len(want) > 0 && r.Exit == 0 {
				fail("an unknown output format is accepted", "nonzero exit status")
			}
			return
		}
		if failed != (r.Exit != 0) {
			fail("the exit status does not say whether an expression failed", fmt.Sprint("failed=", failed))
		}
		if failed && strings.TrimSpace(r.Err) == "" {
			fail("a failure is not reported", "a message on standard error")
		}
		if has("-q") {
			if r.Out != "" {
				fail("something is printed although quiet was requested", "nothing")
			}
			return
		}
		text := r.Out
		if has("-v") {
			for k, e := range exprs {
				for _, src := range append([]string{"stdin"}, names...) {
					text = strings.ReplaceAll(text, fmt.Sprintf("Evaluating expression %d on %s: %s\n", k+1, src, e), "")
				}
			}
		}
		ls := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		if text == "" {
			ls = nil
		}
		k := 0
		for _, it := range want {
			for k < len(ls) && ls[k] == "" && outFormat == "json" {
				k++
			}
			ok := k < len(ls)
			if ok && it.head != "" {
				ok = ls[k] == it.head
			} else if ok {
				ok = printed(ls[k], it.val, outFormat)
			}
			if !ok {
				w := it.head
				if w == "" {
					w = it.val.(fmt.Stringer).String()
				}
				fail("the values are not printed each once, in order, in the chosen format", fmt.Sprintf("line %d: %s", k+1, w))
				return
			}
			k++
		}
		rest := strings.TrimSpace(strings.Join(ls[k:], "\n"))
		if !failed && rest != "" {
			fail("more is printed than the values", "nothing after them")
		}
		if failed {
			// only a message about the error may follow
			for _, l := range strings.Split(rest, "\n") {
				if strings.HasPrefix(l, "===") {
					fail("evaluation goes on after an error", "nothing after the first error")
				}
			}
			if rest != "" && !strings.HasPrefix(rest, "Error") {
				fail("something other than the error is printed after it", "an error message")
			}
		}
		c.Validated.Add(1)
		if i%997 == 0 {
			c.Outcome(fmt.Sprintf("%d values, failed=%v, %s, %s", len(want), failed, outFormat, in.name))
			c.Sample(map[string]any{"args": args, "stdout": r.Out})
		}
	})
}
