package main

import (
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	et "github.com/dhamidi/texted/edlisp/testing"
	"verifmc/dict"
	"verifmc/rep"
)

// P26: script tests. The oracle runs the test's script directly and compares
// every stated expectation by itself.

type expectation struct {
	text string
	ok   bool // holds
	open bool // whether it holds is not stated anywhere
}

// outcomeOf is what running a test's script on its buffer gives.
type outcomeOf struct {
	parsed bool
	out    string
	val    edlisp.Value
	err    error
	steps  []string
}

func outcome(buffer, script, format string) outcomeOf {
	var o outcomeOf
	prog, err := parse(script, format)
	if strings.TrimSpace(script) == "" {
		prog, err = nil, nil
	}
	if err != nil {
		return o
	}
	o.parsed = true
	b := edlisp.NewBuffer(buffer)
	o.val, o.err = edlisp.EvalWithTrace(prog, edlisp.NewDefaultEnvironment(), b, func(t *edlisp.TraceContext) {
		o.steps = append(o.steps, fmt.Sprintf("%v %q %d %d", t.Instruction, t.Buffer.String(), t.Buffer.Point(), t.Buffer.Mark()))
	})
	o.out = b.String()
	return o
}

// same is structural equality, written independently of edlisp.Equal.
func same(a, b edlisp.Value) bool {
	switch x := a.(type) {
	case *edlisp.String:
		y, ok := b.(*edlisp.String)
		return ok && x.Value == y.Value
	case *edlisp.Number:
		y, ok := b.(*edlisp.Number)
		return ok && x.Value == y.Value
	case *edlisp.Symbol:
		y, ok := b.(*edlisp.Symbol)
		return ok && x.Name == y.Name
	case *edlisp.List:
		y, ok := b.(*edlisp.List)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for i := range x.Elements {
			if !same(x.Elements[i], y.Elements[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// candidates are expected results: the text, and the value it states; nil for
// text that states no value.
var candidates = []struct {
	text string
	val  edlisp.Value
}{
	{"1", edlisp.NewNumber(1)}, {"2", edlisp.NewNumber(2)}, {"12", edlisp.NewNumber(12)}, {"3", edlisp.NewNumber(3)},
	{"0", edlisp.NewNumber(0)}, {"\n 1\t", edlisp.NewNumber(1)}, {"2.5", edlisp.NewNumber(2.5)}, {"-1", edlisp.NewNumber(-1)},
	{`"a"`, edlisp.NewString("a")}, {`"A"`, edlisp.NewString("A")}, {`""`, edlisp.NewString("")}, {`"1"`, edlisp.NewString("1")},
	{`"t"`, edlisp.NewString("t")}, {`"a b"`, edlisp.NewString("a b")}, {`"ab"`, edlisp.NewString("ab")}, {`"a "`, edlisp.NewString("a ")},
	{"t", edlisp.NewSymbol("t")}, {"nil", edlisp.NewSymbol("nil")}, {"a", edlisp.NewSymbol("a")},
	{"(a 1)", edlisp.NewList(edlisp.NewSymbol("a"), edlisp.NewNumber(1))}, {"()", edlisp.NewList()}, {"(1)", edlisp.NewList(edlisp.NewNumber(1))},
	{`"a`, nil}, {"(", nil}, {"(a) (b)", nil}, {"1)", nil}, {"(a", nil},
}

var p26scripts = []struct{ shell, json string }{
	{"", ""},
	{`insert "x"`, `[["insert","x"]]`},
	{`insert "x"; point`, `[["insert","x"],["point"]]`},
	{`upcase "a"`, `[["upcase","a"]]`},
	{`concat "a" " b"`, `["concat","a"," b"]`},
	{`looking-at "a"`, `[["looking-at","a"]]`},
	{`looking-at "zz"`, `[["looking-at","zz"]]`},
	{`buffer-size`, `[["buffer-size"]]`},
	{`end-of-buffer; point; mark`, `[["end-of-buffer"],["point"],["mark"]]`},
	{`search-forward "a"`, `["search-forward","a"]`},
	{`search-forward "zz"`, `["search-forward","zz"]`},
	{`insert "x"; search-forward "zz"; insert "y"`, `[["insert","x"],["search-forward","zz"],["insert","y"]]`},
	{`insert "x"; point; no-such-function; insert "y"`, `["insert","x"]["point"]["no-such-function"]["insert","y"]`},
	{`delete-char 2; buffer-substring 1 -1`, `[["delete-char",2],["buffer-substring",1,-1]]`},
	{`goto-char "a"`, `[["goto-char","a"]]`},
	{`insert "a`, `[["insert","a"]`},
	{`(insert`, `{"insert":1}`},
	{`mark-whole-buffer; delete-region`, `[["mark-whole-buffer"],["delete-region"]]`},
	{"\n\n  insert \"x\"\n   insert \"y\"\n", "\n [[\"insert\",\"x\"],\n [\"insert\",\"y\"]]\n"},
}

func outputs(o outcomeOf) []expectation {
	r := []expectation{{"", true, false}}
	seen := map[string]bool{"": true}
	for _, s := range []string{o.out, o.out + "x", " " + o.out, o.out + "\n", strings.ToUpper(o.out), strings.TrimSpace(o.out), "zz", "\n"} {
		if !seen[s] {
			seen[s] = true
			r = append(r, expectation{s, s == o.out, false})
		}
	}
	if len(o.out) > 1 {
		for _, s := range []string{o.out[:len(o.out)-1], o.out[1:]} {
			if !seen[s] {
				seen[s] = true
				r = append(r, expectation{s, false, false})
			}
		}
	}
	return r
}

func results(o outcomeOf, lang string, all bool) []expectation {
	r := []expectation{{"", true, false}}
	for i, x := range candidates {
		e := expectation{x.text, x.val != nil && o.val != nil && same(x.val, o.val), false}
		// in the other syntaxes a bare value is not a program
		e.open = lang != "" && lang != "sexp" && e.ok
		if e.ok || all || i%3 == 0 {
			r = append(r, e)
		}
	}
	return append(r, expectation{" \n", true, false})
}

func errorsFor(o outcomeOf) []expectation {
	r := []expectation{{"", true, false}, {"  \n", true, false}}
	msg := "search failed"
	if o.err != nil {
		msg = o.err.Error()
	}
	add := func(s string) {
		e := expectation{text: s}
		e.ok = o.err != nil && strings.Contains(o.err.Error(), s)
		r = append(r, e)
	}
	add(msg)
	add(msg[:len(msg)/2])
	add(msg + " more")
	add("no such message")
	add(strings.ToUpper(msg))
	if o.err != nil {
		r = append(r, expectation{"\n  " + msg + "\n", true, false}, expectation{"(" + msg[:len(msg)/2] + ")", true, false})
	} else {
		r = append(r, expectation{"(x)", false, false})
	}
	return r
}

// verdict says whether the test must pass; open if nothing says.
func verdict(o outcomeOf, out, res, er expectation) (pass, open bool) {
	stated := func(s string) bool { return strings.TrimSpace(s) != "" }
	if !o.parsed {
		return false, false
	}
	if stated(er.text) {
		if o.err == nil || !er.ok {
			return false, false
		}
		return out.ok, false
	}
	if o.err != nil {
		return false, false
	}
	if out.text == "" && !stated(res.text) {
		return false, false
	}
	if !out.ok || !res.ok {
		return false, false
	}
	return true, res.open
}

// verdictUnder is the verdict with every expectation judged against o, and
// with the stated output ignored next to an expected error if noOutput: what
// the findings expected-error-ignores-output and json-input-parsed-as-shell
// make of a test.
func verdictUnder(o outcomeOf, out, res, er expectation, noOutput bool) bool {
	out.ok = out.text == "" || out.text == o.out
	er.ok = o.err != nil && strings.Contains(o.err.Error(), strings.Trim(strings.TrimSpace(er.text), "()"))
	if noOutput && strings.TrimSpace(er.text) != "" {
		out.ok = true
	}
	if strings.TrimSpace(res.text) != "" {
		res.ok = false
		for _, x := range candidates {
			if x.text == res.text {
				res.ok = x.val != nil && o.val != nil && same(x.val, o.val)
			}
		}
	}
	pass, _ := verdict(o, out, res, er)
	return pass
}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// render writes a test case as XML in one of several styles.
func renderTest(buffer, script, slang, out, res, rlang, er string, style int, perm []int) string {
	e := esc
	switch style {
	case 1: // CDATA
		e = func(s string) string {
			if strings.Contains(s, "]]>") || strings.Contains(s, "\r") {
				return esc(s)
			}
			return "<![CDATA[" + s + "]]>"
		}
	case 2: // raw where XML allows
		e = func(s string) string {
			return strings.NewReplacer("&", "&amp;", "<", "&lt;", "\r", "&#13;").Replace(s)
		}
	}
	attr := func(l string) string {
		if l == "" {
			return ""
		}
		return ` lang="` + l + `"`
	}
	parts := []string{"<buffer>" + e(buffer) + "</buffer>", "<input" + attr(slang) + ">" + e(script) + "</input>", "", "", ""}
	if out != "" {
		parts[2] = "<output>" + e(out) + "</output>"
	}
	if res != "" {
		parts[3] = "<result" + attr(rlang) + ">" + e(res) + "</result>"
	}
	if er != "" {
		parts[4] = "<error>" + e(er) + "</error>"
	}
	var b strings.Builder
	for _, i := range perm {
		if parts[i] != "" {
			b.WriteString(parts[i])
			b.WriteString([]string{"\n", "", "\n<!-- c -->\n"}[style])
		}
	}
	return b.String()
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var r [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			r = append(r, append(q, p[i:]...))
		}
	}
	return r
}

func runP26(c *rep.Check) {
	buffers := []string{"", "a", "a b", "a\nb\n", "é<&>\"'x", " a "}
	if c.Thorough() {
		buffers = append(buffers, "ab", "A", "\n", "\ta", "zz", "a b a b")
	}
	c.Bound("buffers", len(buffers))
	c.Bound("scripts", len(p26scripts))
	c.Bound("expected results", len(candidates))
	c.Assume("Running the script directly gives the actual outcome (decided by P01-P15).",
		"Left open: a bare value as the expected result in shell or JSON syntax; a stated result next to an expected error (pinned by tests/search-forward-past-end.xml as ignored); an empty <output> states nothing.")
	failKey := func(key, what string, repro any, exp, act string) {
		c.Fail(&rep.Violation{What: what, Repro: repro, Expected: exp, Actual: act, Key: key})
	}
	fail := func(what string, repro any, exp, act string) { failKey("", what, repro, exp, act) }
	type job struct {
		buffer       string
		script, lang string
	}
	var jobs []job
	for _, b := range buffers {
		for _, s := range p26scripts {
			for _, l := range []string{"", "shell", "sexp"} {
				jobs = append(jobs, job{b, s.shell, l})
			}
			jobs = append(jobs, job{b, s.json, "json"})
		}
	}
	all := perms(5)
	s := newScratch()
	defer s.done()
	c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		format := "shell"
		if j.lang == "json" {
			format = "json"
		}
		o := outcome(j.buffer, strings.TrimSpace(j.script), format)
		d := o // what a tree with the finding jsonInput does
		if j.lang == "json" {
			d = outcome(j.buffer, strings.TrimSpace(j.script), "shell")
		}
		dir := s.fresh(w, world{})
		n := 0
		for _, out := range outputs(o) {
			for _, rl := range []string{"", "sexp", "json", "shell"} {
				for _, res := range results(o, rl, rl == "" || c.Thorough()) {
					if res.text == "" && rl != "" {
						continue
					}
					for _, er := range errorsFor(o) {
						if c.Stop() {
							return
						}
						n++
						pass, open := verdict(o, out, res, er)
						tc := &et.TestCase{Buffer: j.buffer, Input: et.Input{Lang: j.lang, Text: j.script}, Output: out.text,
							Result: et.Result{Lang: rl, Text: res.text}, Error: et.Error{Text: er.text}}
						repro := map[string]string{"buffer": j.buffer, "script": j.script, "script lang": j.lang, "output": out.text, "result": res.text, "result lang": rl, "error": er.text}
						env := edlisp.NewDefaultEnvironment()
						var r, rt *et.TestResult
						var steps []string
						if p := guard(func() {
							r = et.RunTest(tc, env)
							rt = et.RunTestWithTrace(tc, env, func(t *edlisp.TraceContext) {
								steps = append(steps, fmt.Sprintf("%v %q %d %d", t.Instruction, t.Buffer.String(), t.Buffer.Point(), t.Buffer.Mark()))
							})
						}); p != nil {
							fail("running a script test panics", repro, "a result", fmt.Sprint(p))
							continue
						}
						c.Transitions.Add(2)
						judge := func(how string, r *et.TestResult) {
							if !open && r.Passed != pass {
								what := "a script test fails although everything it states holds"
								if r.Passed {
									what = "a script test passes although it must not"
								}
								key := ""
								if r.Passed == verdictUnder(o, out, res, er, true) {
									key = "expected-error-ignores-output"
								} else if j.lang == "json" && r.Passed == verdictUnder(d, out, res, er, true) {
									key = "json-input-parsed-as-shell"
								}
								failKey(key, what, map[string]any{"how": how, "test": repro}, fmt.Sprint("passed=", pass), fmt.Sprintf("passed=%v error=%v", r.Passed, r.Error))
							}
							if r.Passed != (r.Error == nil) {
								fail("a test result is passed with an error or failed without one", map[string]any{"how": how, "test": repro}, "", fmt.Sprintf("passed=%v error=%v", r.Passed, r.Error))
							}
						}
						judge("RunTest", r)
						judge("RunTestWithTrace", rt)
						if o.parsed && strings.Join(steps, "\n") != strings.Join(o.steps, "\n") {
							key := ""
							if j.lang == "json" && strings.Join(steps, "\n") == strings.Join(d.steps, "\n") {
								key = "json-input-parsed-as-shell"
							}
							failKey(key, "the trace of a test is not its executed instructions", repro, fmt.Sprint(o.steps), fmt.Sprint(steps))
						}
						// the same test from a file
						if n%c.Pick(11, 3) == 0 || n < 40 {
							text := renderTest(j.buffer, j.script, j.lang, out.text, res.text, rl, er.text, n%3, all[n%len(all)])
							p := filepath.Join(dir, "some-test.xml")
							must(os.WriteFile(p, []byte(text), 0o644))
							r := et.RunTestFile(p, env)
							judge("RunTestFile "+text, r)
							if r.Name != "some-test.xml" {
								fail("a test result names another test", text, "some-test.xml", r.Name)
							}
							c.Transitions.Add(1)
						}
						c.States.Add(1)
						c.Validated.Add(1)
					}
				}
			}
		}
		c.Outcome(fmt.Sprintf("parsed=%v err=%v steps=%d", o.parsed, o.err != nil, len(o.steps)))
	})
	c.Lap("library")
	p26cli(c, s, fail)
	c.Lap("command line")
	c.Sample(map[string]any{"test": renderTest("a b", `upcase "a"`, "shell", "a b", `"A"`, "sexp", "", 0, []int{0, 1, 2, 3, 4}), "passes": true})
}

var reStatus = regexp.MustCompile(`(?m)^\[(PASS|FAIL)\] (.*)$`)
var reSummary = regexp.MustCompile(`(?m)^Tests: (\d+) passed, (\d+) failed, (\d+) total$`)

// p26cli runs the test command on lists of tests.
func p26cli(c *rep.Check, s *scratch, fail func(what string, repro any, exp, act string)) {
	id := []int{0, 1, 2, 3, 4}
	type tf struct {
		name string
		text string // "" for a file that does not exist
		pass bool
		out  outcomeOf
		dir  string
	}
	mk := func(name, buf, scr, out, res, er string, pass bool) tf {
		return tf{name, renderTest(buf, scr, "shell", out, res, "sexp", er, 0, id), pass, outcome(buf, scr, "shell"), "tests"}
	}
	other := func(t tf) tf {
		t.dir = "other/tests"
		return t
	}
	tests := []tf{
		mk("pass-output.xml", "a", `insert "x"; insert "y"`, "xya", "", "", true),
		mk("pass-result.xml", "a", `point`, "", "1", "", true),
		mk("pass-error.xml", "a", `insert "x"; search-forward "zz"`, "xa", "", "search failed", true),
		mk("fail-output.xml", "a", `insert "x"`, "ax", "", "", false),
		mk("fail-result.xml", "a", `insert "x"; point`, "xa", "1", "", false),
		mk("fail-error.xml", "a", `insert "x"; search-forward "zz"`, "xa", "", "", false),
		mk("fail-none.xml", "a", `insert "x"`, "", "", "", false),
		mk("fail-parse.xml", "a", `insert "x`, "a", "", "", false),
		{name: "garbage.xml", text: "<buffer>a</input>", dir: "tests"},
		{name: "missing.xml", dir: "tests"},
		// the same names in another directory
		other(mk("pass-output.xml", "a", `insert "z"; point`, "a", "", "", false)),
		other(mk("fail-output.xml", "a", `end-of-buffer; insert "z"`, "az", "", "", true)),
		other(mk("missing.xml", "", `insert "z"`, "z", "", "", true)),
	}
	base := world{"tests": {Dir: true}, "other": {Dir: true}, "other/tests": {Dir: true}}
	for _, t := range tests {
		if t.text != "" {
			base[t.dir+"/"+t.name] = file{Data: t.text, Mode: 0o644}
		}
	}
	flags := [][]string{nil, {"-q"}, {"--quiet"}, {"-v"}, {"--fail-only"}, {"--trace"}, {"-q", "--trace"}, {"-v", "--fail-only"}, {"--fail-only", "--trace"}, {"-q", "--fail-only"}, {"--quiet=false", "--trace=false", "--fail-only=false", "--verbose=false"}, {"--quiet=false", "--trace"}}
	includes := [][]string{nil, {"-i", "pass"}, {"-i", "^fail-(o|e)"}, {"-i", "pass-o", "-i", "garbage"}, {"-i", "s{2}-r"}, {"-i", "s{1,2}-r"},
		{"--include=xml$"}, {"-i", "nothing"}, {"-i", ""}, {"-i", "PASS"}, {"-i", "tests/"}, {"-i", "(?i)PASS", "-i", "pass"}, {"-i", "["}, {"-i", "fail", "-i", "["}}
	var lists [][]int
	lists = append(lists, nil)
	for a := range tests {
		lists = append(lists, []int{a})
		for b := range tests {
			lists = append(lists, []int{a, b})
			if c.Thorough() || (a < 5 && b < 5) {
				for d := range tests {
					lists = append(lists, []int{a, b, d})
				}
			}
		}
	}
	type job struct {
		list  []int
		fl    []string
		inc   []string
		tests []tf // in place of the usual ones
	}
	var jobs []job
	for _, l := range lists {
		for fi, f := range flags {
			for ii, inc := range includes {
				if len(l) <= 1 || c.Thorough() && len(l) == 2 || ii == 0 && (len(l) == 2 || fi < 6) || fi == 0 && len(l) == 2 {
					jobs = append(jobs, job{list: l, fl: f, inc: inc})
				}
			}
		}
	}
	// odd names, one among others and all together, named and found
	pass, bad := mk("", "a", `insert "x"; insert "y"`, "xya", "", "", true), mk("", "a", `insert "x"`, "ax", "", "", false)
	named := func(t tf, dir, name string) tf {
		t.dir, t.name = dir, name
		return t
	}
	var every, found []tf
	for i, n := range moreNames() {
		if n == "tests" || n == "other" {
			continue // the directories of these tests
		}
		t, u := pass, bad
		if i%2 == 1 {
			t, u = bad, pass
		}
		every = append(every, named(t, "tests", n))
		if len(n) < 250 && n != "con" {
			found = append(found, named(t, "tests", n+".xml"), named(u, "tests", n+".txt"))
		}
		for _, fl := range [][]string{nil, {"-q"}, {"--trace"}, {"-v"}} {
			own := []tf{named(t, "tests", n), named(u, "other/tests", n), named(pass, "tests", "last"), named(t, ".", n)}
			if fl == nil {
				jobs = append(jobs, job{[]int{0}, fl, nil, own}, job{[]int{1}, fl, nil, own}, job{[]int{3}, fl, nil, own}, job{[]int{0, 1, 2}, fl, []string{"-i", "^" + regexp.QuoteMeta(n) + "$"}, own})
			}
			jobs = append(jobs, job{[]int{0, 2, 1}, fl, nil, own})
		}
	}
	for k, n := range []string{"a.XML", "a.xml.bak", "a.txt", "a", "a.xsl", "a.html", ".xml", "xml", "a.test", "a.xml~", "a.json", "a.Xml"} {
		if slices.ContainsFunc(every, func(t tf) bool { return t.name == n }) {
			n += ".x" // a name the code mentions
		}
		every = append(every, named([]tf{pass, bad}[k%2], "tests", n))
		jobs = append(jobs, job{[]int{0, 1}, nil, nil, []tf{named(pass, "tests", n), named(bad, "tests", "x"+n)}}, job{[]int{1, 0}, nil, nil, []tf{named(pass, "tests", n), named(bad, "tests", "x"+n)}})
	}
	var one []int
	for k := range every {
		one = append(one, k)
	}
	jobs = append(jobs, job{one, nil, nil, every}, job{one, []string{"--fail-only"}, nil, every}, job{nil, nil, nil, found}, job{nil, []string{"--trace"}, []string{"-i", "[a-z]"}, found})
	// many tests, of which some fail
	for _, n := range append([]int{4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000}, dict.Around(6, 2100)...) {
		var l, m, o []int
		for k := 0; k < n; k++ {
			l, m, o = append(l, k%3), append(m, 3+k%2), append(o, k%len(tests))
		}
		jobs = append(jobs, job{list: l}, job{list: m}, job{list: append(l[:n-1:n-1], 3)}, job{list: append([]int{4}, l[1:]...)}, job{list: o, fl: []string{"-q"}}, job{list: o, fl: []string{"--fail-only"}, inc: []string{"-i", "pass"}})
	}
	c.Bound("longest list of tests", 1000)
	c.Bound("command line runs", len(jobs))
	if c.Thorough() {
		c.Bound("test lists", "up to 3 files")
	}
	c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		base, tests := base, tests
		if j.tests != nil {
			tests = j.tests
			base = world{"tests": {Dir: true}, "other": {Dir: true}, "other/tests": {Dir: true}}
			for _, t := range tests {
				base[filepath.Join(t.dir, t.name)] = file{Data: t.text, Mode: 0o644}
			}
		}
		dir := s.fresh(w, base)
		args := []string{"test"}
		if i%4 != 3 {
			args = append(append(args, j.fl...), j.inc...)
		}
		var sel []tf
		if j.list == nil {
			var present []tf
			for _, t := range tests {
				if t.text != "" && t.dir == "tests" && strings.HasSuffix(t.name, ".xml") {
					present = append(present, t)
				}
			}
			sort.Slice(present, func(a, b int) bool { return present[a].name < present[b].name })
			sel = present
		}
		for _, k := range j.list {
			n := filepath.Join(tests[k].dir, tests[k].name)
			if strings.HasPrefix(n, "-") { // a name is no option
				n = "./" + n
			}
			args = append(args, n)
			sel = append(sel, tests[k])
		}
		if i%4 == 3 {
			args = append(append(args, j.inc...), j.fl...)
		}
		bad := false
		var pats []*regexp.Regexp
		for k := 0; k < len(j.inc); k++ {
			p := strings.TrimPrefix(j.inc[k], "--include=")
			if p == "-i" {
				k++
				p = j.inc[k]
			}
			re, err := regexp.Compile(p)
			if err != nil {
				re = nil
			}
			pats = append(pats, re)
		}
		if pats != nil {
			var kept []tf
			for _, t := range sel {
				for _, re := range pats {
					if re == nil {
						bad = true
						break
					}
					if re.MatchString(t.name) {
						kept = append(kept, t)
						break
					}
				}
			}
			sel = kept
		}
		r := run(dir, "", args...)
		c.States.Add(1)
		c.Transitions.Add(1)
		repro := map[string]any{"args": args}
		act := fmt.Sprintf("exit %d %s%s", r.Exit, r.Out, r.Err)
		if r.crashed() {
			fail("the test command crashes", repro, "a report", act)
			return
		}
		if d := r.After.diff(look(dir)); d != "" || len(r.After) != len(base) {
			fail("the test command changes files", repro, base.String(), r.After.String())
		}
		if bad {
			if r.Exit != 1 {
				fail("an invalid pattern is not refused", repro, "exit 1", act)
			}
			return
		}
		np := 0
		var want, steps []string
		has := func(f ...string) bool {
			for _, x := range j.fl {
				for _, y := range f {
					if x == y {
						return true
					}
				}
			}
			return false
		}
		for _, t := range sel {
			st := "FAIL"
			if t.pass {
				np++
				st = "PASS"
			}
			if !(t.pass && has("--fail-only")) {
				want = append(want, st+" "+t.name)
			}
			if has("--trace") {
				for _, x := range t.out.steps {
					steps = append(steps, x)
				}
			}
		}
		if has("-q", "--quiet") {
			want = nil
		}
		var got []string
		for _, m := range reStatus.FindAllStringSubmatch(r.Out, -1) {
			got = append(got, m[1]+" "+m[2])
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail("the tests are not reported each once, in order, with their status", repro, fmt.Sprint(want), act)
		}
		wantExit := 0
		if np < len(sel) {
			wantExit = 1
		}
		if r.Exit != wantExit {
			fail("the exit status does not say whether a test failed", repro, fmt.Sprint("exit ", wantExit), act)
		}
		m := reSummary.FindAllStringSubmatch(r.Out, -1)
		if len(sel) > 0 {
			w := fmt.Sprintf("Tests: %d passed, %d failed, %d total", np, len(sel)-np, len(sel))
			if len(m) != 1 || m[0][0] != w {
				fail("the tests are not counted correctly", repro, w, act)
			}
		} else if len(m) > 0 && m[0][0] != "Tests: 0 passed, 0 failed, 0 total" {
			fail("tests are counted that were not selected", repro, "none", act)
		}
		tr := regexp.MustCompile(`(?m)^TRACE: Executed instruction: (.*)\n  Buffer content: (.*)\n  Point: (\d+), Mark: (\d+)$`).FindAllStringSubmatch(r.Out, -1)
		var gotSteps []string
		for _, x := range tr {
			gotSteps = append(gotSteps, fmt.Sprintf("%s %s %s %s", x[1], x[2], x[3], x[4]))
		}
		if fmt.Sprint(gotSteps) != fmt.Sprint(steps) {
			fail("the trace is not the executed instructions with the state after each", repro, fmt.Sprint(steps), act)
		}
		c.Outcome(fmt.Sprint("cli ", np, " of ", len(sel)))
		c.Validated.Add(1)
	})
}
