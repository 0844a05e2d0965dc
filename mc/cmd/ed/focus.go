package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"verifmc/dict"
	"verifmc/model"

	"verifmc/rep"
)

// Argument alphabets. Counts stay below 2^53, where a number names an integer.
var (
	counts   = []any{-2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 7.0, 1.9, 0.5, -0.5}
	someText = []any{"", "a", "\n", "é", "xyz", "$1", "\\", "a\nb", "\x00", "\xff", "b "}
	literals = []any{"a", "b", "ab", "aa", "aab", "\n", "", " ", "é", "\xa9", "b\n", "abab", "zz", "A", "a ", "\na", "."}
	regexps  = []any{"a", "a+", "a*", "^", "$", "^a", "a$", "(?m)^", "(?m)$", "(?m)^b", "\\b", "[", "(a)(b)?", ".", "(?s).", "(?s).+", "\\n", "b|ab", "a|ab", "\\Aa", "[^a]", "(?i)A", "é", "\\S+", "(", "a{2}", "ab?", "\\z", "\\Qab", "", "(?s)a.*b", "(?U)a+"}
)

// setup holds operations that bring the editor into states of every kind; they
// are not what a property with other focus operations is about.
func setup() []op {
	return flat(
		each("insert", "x", "a\n", "ab"), each("goto-char", 1.0, 3.0, 99.0), calls("set-mark", nil),
		calls("exchange-point-and-mark", nil), calls("mark-whole-buffer", nil),
		each("search-forward", "a", "ab"), each("re-search-forward", "b+"), each("search-backward", "a"),
		each("replace-match", "b", "QRS"), each("delete-char", 1.0), each("delete-backward-char", 2.0),
		calls("delete-region", nil), each("replace-region", "a"), calls("kill-line", nil), calls("delete-line", nil),
		calls("kill-word", nil), each("forward-char", 2.0), calls("backward-word", nil), calls("mark-word", nil),
		calls("backward-kill-word", nil), calls("end-of-line", nil),
	)
}

func few(ops []op, names ...string) []op {
	var r []op
	for _, o := range ops {
		for _, n := range names {
			if o.name == n {
				r = append(r, o)
			}
		}
	}
	return r
}

// spec says what one property is about.
type spec struct {
	id      string
	focus   []op // exhaustive argument alphabet
	core    []op // smaller alphabet for long sequences
	pre     []op // operations before the focus operation in sequences
	counted []op // templates that take a count, for the count sweeps
	mark    bool // looks at the mark
	texts   []string
	nq, nt  int // length bound of exhaustive texts
	seqText []string
}

func names(ops []op) []string {
	seen := map[string]bool{}
	var r []string
	for _, o := range ops {
		if !seen[o.name] {
			seen[o.name] = true
			r = append(r, o.name)
		}
	}
	return r
}

var seqTexts = []string{"", "ab a\nb", "aab\n\nab ", "a", "\n", "a\nb\nab", "éa é\n"}

func counted(ns ...string) []op {
	var r []op
	for _, n := range ns {
		r = append(r, call(n))
	}
	return r
}

func specs() map[string]spec {
	m := map[string]spec{}
	add := func(s spec) { m[s.id] = s }

	edits := []string{"delete-char", "delete-backward-char", "delete-line", "kill-line", "kill-word", "backward-kill-word"}
	var ef, ec []op
	for _, n := range edits {
		ef = append(ef, call(n))
		ef = append(ef, each(n, counts...)...)
		ec = append(ec, call(n), call(n, 2.0))
	}
	ef = append(ef, flat(each("insert", someText...), each("replace-region", someText...), calls("delete-region", nil))...)
	ec = append(ec, flat(each("insert", "x\n", "é"), each("replace-region", "", "a\n"), calls("delete-region", nil))...)
	add(spec{id: "P03", focus: ef, core: ec, pre: setup(), counted: counted(edits...), mark: true,
		texts: []string{"a", " ", "\n", "é", "1"}, nq: 4, nt: 5, seqText: seqTexts})

	moves := []string{"forward-char", "backward-char", "forward-word", "backward-word"}
	var mf, mc []op
	for _, n := range moves {
		mf = append(mf, call(n))
		mf = append(mf, each(n, counts...)...)
		mc = append(mc, call(n), call(n, 2.0), call(n, -1.0))
	}
	mf = append(mf, flat(each("goto-char", counts...), each("goto-line", counts...), counted("beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer"))...)
	mc = append(mc, flat(each("goto-char", 0.0, 4.0), each("goto-line", 2.0, 9.0), counted("beginning-of-line", "end-of-line", "beginning-of-buffer", "end-of-buffer"))...)
	add(spec{id: "P04", focus: mf, core: mc, pre: setup(), counted: append(counted(moves...), call("goto-char"), call("goto-line")),
		texts: []string{"a", " ", "\n", "é", "Z", "-"}, nq: 4, nt: 5, seqText: seqTexts})

	markOps := counted("set-mark", "exchange-point-and-mark", "mark-whole-buffer", "mark-word", "mark-line", "set-mark-command")
	kf := flat(markOps, each("mark-line", counts...), each("set-mark-command", counts...))
	kc := flat(markOps, each("mark-line", 2.0, 0.0), each("set-mark-command", 3.0, 99.0), counted("region-beginning", "region-end", "mark"))
	add(spec{id: "P05", focus: kf, core: kc, pre: setup(), counted: counted("mark-line", "set-mark-command"), mark: true,
		texts: []string{"a", " ", "\n", "é", "0"}, nq: 4, nt: 5, seqText: seqTexts})

	sf := flat(each("search-forward", literals...), each("search-backward", literals...), each("re-search-forward", regexps...), each("re-search-backward", regexps...))
	sc := flat(each("search-forward", "ab", "a", "zz", "", "\n"), each("search-backward", "ab", "a", "b"), each("re-search-forward", "a+", "^b?", "[", "$"), each("re-search-backward", "a+", "b?", "\\n"))
	add(spec{id: "P06", focus: sf, core: sc, pre: setup(), texts: []string{"a", "b", "\n", "é"}, nq: 4, nt: 6, seqText: append([]string{"aabaab aab", "abab\nab"}, seqTexts...)})

	rf := each("replace-match", someText...)
	rc := flat(each("replace-match", "", "b", "a", "longer", "$1\\1", "ab", "\n"))
	sr := flat(each("search-forward", "a", "ab", "b", "\n"), each("search-backward", "a", "ab"), each("re-search-forward", "a+b", "b?", "zz"), each("re-search-backward", "[ab]+", "a"))
	add(spec{id: "P07", focus: rf, core: append(rc, sr...), pre: append(flat(sr, each("replace-match", "b", "", "aa"), each("insert", "a", "b", "ab")), few(setup(), "goto-char", "delete-char", "delete-backward-char", "mark-whole-buffer", "replace-region", "delete-region", "kill-line", "kill-word")...), texts: []string{"a", "b"}, nq: 3, nt: 4,
		seqText: []string{"ab a\nb", "aab aab", "aaaa", "abab", "b\na", ""}})

	qs := counted("point", "point-min", "point-max", "buffer-size", "line-number-at-pos", "current-column", "region-beginning", "region-end", "mark")
	var bs []op
	for _, a := range []any{-1.0, 0.0, 1.0, 2.0, 3.0, 5.0, 50.0, 1.5} {
		for _, b := range []any{-2.0, -1.0, 0.0, 1.0, 2.0, 3.0, 5.0, 50.0, 2.5} {
			bs = append(bs, call("buffer-substring", a, b))
		}
	}
	look := flat(each("looking-at", append(append([]any{}, regexps...), "a(", "\n")...), each("looking-back", append(append([]any{}, regexps...), "a(", "\n")...))
	add(spec{id: "P08", focus: flat(qs, bs, look), core: flat(qs, []op{call("buffer-substring", 1.0, -1.0), call("buffer-substring", 2.0, 4.0)}, each("looking-at", "a+", "\\n", "b"), each("looking-back", "a+", "\\n", "b")),
		pre: setup(), mark: true, texts: []string{"a", "b", "\n", "é"}, nq: 4, nt: 5, seqText: seqTexts})
	return m
}

func runFocus(c *rep.Check, s spec) {
	g := newEngine(c, names(append(append([]op{}, s.focus...), s.core...))...)
	defer g.done()
	c.Bound("operations", names(s.focus))
	c.Bound("instruction alphabet", len(s.focus))

	// 1. every small text, position and mark
	n := c.Pick(s.nq, s.nt)
	marks := fewMarks
	if s.mark {
		marks = everyMark
	}
	texts := alpha(s.texts, n)
	c.Bound("exhaustive texts", map[string]any{"symbols": s.texts, "max length": n, "texts": len(texts)})
	g.allStates("every small text x point x mark x instruction", texts, s.focus, marks)

	// 2. operation sequences on one buffer
	d := c.Pick(3, 4)
	c.Bound("sequence depth", d)
	last := append(append([]op{}, s.core...), few(s.focus, "insert")...)
	pre := append(append([]op{}, s.pre...), s.core...)
	g.sequences("all sequences of length 2", s.seqText, 2, pre, append(s.core, s.focus...))
	g.sequences("all sequences of length 3", s.seqText, 3, pre, last)
	small := s.seqText
	if len(small) > 3 {
		small = small[:3]
	}
	if c.Thorough() {
		g.sequences("all sequences of length 4", small, 4, pre, s.core)
	} else {
		g.sequences("sequences of length 4 over state-changing operations", small[:2], 4, thin(pre, 20), s.core)
	}

	if s.id == "P06" {
		g.words()
	}
	if s.id == "P06" || s.id == "P07" || s.id == "P08" {
		g.needles(s)
		g.glued(s)
	}
	g.mentioned(s)
	g.lived(s)
	if s.id == "P07" {
		g.caseWords()
		// from every position of every small text: search, change, replace
		sr := append(append([]op{}, s.pre...), each("goto-char", 2.0, 3.0, 4.0)...)
		g.sequences("search, then replace, on every small text", alpha([]string{"a", "b", "\n"}, c.Pick(4, 5)), 3, sr, thin(few(s.core, "replace-match"), 4))
		g.matches(s)
	}
	cyc := thin(append(append([]op{}, s.core...), thin(s.pre, 14)...), c.Pick(34, 60))
	g.cycles([]string{"ab a\nb", "aab aab\n\nb"}, cyc, c.Pick(24, 64))

	g.deep(s)

	g.marathons([]string{"ab a\nb"}, thin(append(append([]op{}, s.focus...), s.core...), c.Pick(40, 120)), []op{call("insert", "ab"), call("insert", "b\n"), call("delete-char"), call("goto-char", 2.0), call("end-of-buffer"), call("search-backward", "a")}, c.Pick(1100, 10100))

	// the same operation in two states of one buffer
	g.history(s)

	// 3. every byte value around point
	g.bytes(s)

	// 4. sizes
	g.scale(s)

	g.padded(s)

	// 5. counts
	g.sweep(s)

	// 6. numbers beyond the integers
	g.huge(s)
	c.Sample(scriptOf(texts[len(texts)/2], 1, 1, s.focus[:1]))
	c.Sample(scriptOf(s.seqText[0], 1, 1, []op{pre[0], pre[len(pre)-1], s.core[0]}))
	c.Assume("arguments are below 2^53 in magnitude, except the probes of family 'numbers beyond the integers'",
		"text outside the alphabets behaves like text of the same classes inside them (every byte value is covered once)")
}

// deep runs all sequences of a few operations, deeper than the whole alphabet
// allows. Every insertion inserts something else, so that nothing that ends up
// in the wrong place looks right. The buffer is looked at only at the end.
func (g *engine) deep(s spec) {
	var own []op
	switch s.id {
	case "P03":
		own = []op{call("insert", "k\n"), call("delete-region"), call("kill-line"), call("backward-kill-word"), call("set-mark")}
	case "P04":
		own = []op{call("goto-line", 2.0), call("end-of-line"), call("forward-word"), call("backward-char"), call("backward-word")}
	case "P05":
		own = []op{call("mark-word"), call("exchange-point-and-mark"), call("mark-line"), call("mark-whole-buffer"), call("region-end")}
	case "P06":
		own = []op{call("search-forward", "a"), call("re-search-backward", "a|\n"), call("search-backward", "ab"), call("re-search-forward", "[ab]+"), call("replace-match", "ab")}
	case "P07":
		own = []op{call("search-forward", "a"), call("replace-match", "ba"), call("search-backward", "b"), call("re-search-forward", "b?"), call("replace-match", "")}
	case "P08":
		own = []op{call("looking-at", "a"), call("line-number-at-pos"), call("looking-back", "b"), call("current-column"), call("buffer-substring", 2.0, -1.0)}
	}
	depth := g.c.Pick(7, 9)
	pre := [][]op{{}, {call("delete-char")}, {call("delete-backward-char")}, {call("goto-char", 2.0)}, {call("end-of-buffer")}}
	if s.id == "P05" {
		pre[2] = []op{call("set-mark")}
	}
	for i := 0; i < depth; i++ {
		pre[0] = append(pre[0], call("insert", string(rune('P'+i))))
	}
	for _, o := range own {
		pre = append(pre, []op{o})
	}
	g.dive("deep sequences over a small alphabet", "ab\na", pre, append(own, pre[0][depth-1], pre[2][0]), depth)

	// not as deep, over most of the commands
	var wide [][]op
	for _, o := range thin(append(append([]op{}, s.core...), s.pre...), 34) {
		wide = append(wide, []op{o})
	}
	g.dive("deep sequences over a larger alphabet", "aab\nab b", wide, thin(s.core, 10), g.c.Pick(5, 6))
}

// dive runs all sequences of the given depth; an element of the alphabet may
// stand for another operation at every depth.
func (g *engine) dive(family, text string, pre [][]op, last []op, depth int) {
	at := func(i, d int) op { return pre[i][d%len(pre[i])] }
	k := len(pre)
	total := 1
	for d := 1; d < depth; d++ {
		total *= k
	}
	g.c.Bound("depth of "+family, depth)
	g.c.Family(family, int64(total*len(last)))
	g.c.Parallel(k*k, func(w, i int) {
		seq := make([]op, depth)
		for n := 0; n < total/k/k; n++ {
			if n&1023 == 0 && g.c.Stop() {
				return
			}
			seq[0], seq[1] = at(i/k, 0), at(i%k, 1)
			rest := n
			for d := 2; d < depth-1; d++ {
				seq[d] = at(rest%k, d)
				rest /= k
			}
			g.c.Begin(w, func() string { return fmt.Sprint(scriptOf(text, 1, 1, seq[:depth-1]).Script) })
			for _, o := range last {
				if !g.focus[o.name] {
					continue
				}
				seq[depth-1] = o
				g.blind(w, text, seq)
				g.c.Validated.Add(1)
				g.c.Transitions.Add(int64(depth))
			}
			g.c.End(w)
			g.c.States.Add(1)
		}
	})
}

// thin keeps about n elements spread over the list.
func thin(ops []op, n int) []op {
	if len(ops) <= n {
		return ops
	}
	var r []op
	for i := 0; i < n; i++ {
		r = append(r, ops[i*len(ops)/n])
	}
	return r
}

// history runs the same operation in two states of one buffer: whatever the
// first state left behind must not answer for the second. The states are all
// pairs of small texts (and pairs of long texts of one size), with the same
// point, so that a remembered answer looks valid.
func (g *engine) history(s spec) {
	sym := []string{"a", "\n"}
	switch s.id {
	case "P04", "P05":
		sym = []string{"a", " "}
	case "P06", "P07":
		sym = []string{"a", "b"}
	}
	texts := alpha(sym, c4(s, g.c.Pick(3, 4)))
	ops := append(append([]op{}, s.core...), thin(s.focus, g.c.Pick(60, 160))...)
	goTo := func(p int) op { return call("goto-char", float64(p)) }
	swap := func(t2 string, p int, o op) [][]op {
		edit := []op{call("mark-whole-buffer"), call("delete-region"), call("insert", t2), goTo(p)}
		whole := []op{call("mark-whole-buffer"), call("replace-region", t2), goTo(p)}
		return [][]op{append(append([]op{goTo(p), o}, edit...), o), append(append([]op{goTo(p), o}, whole...), o)}
	}
	k := len(texts)
	g.c.Parallel(k*k, func(w, i int) {
		t1, t2 := texts[i/k], texts[i%k]
		n := len(t1)
		if len(t2) < n {
			n = len(t2)
		}
		for p := 1; p <= n+1; p++ {
			for _, o := range ops {
				for _, q := range swap(t2, p, o) {
					g.seq(w, t1, q)
				}
			}
			g.c.States.Add(1)
		}
	})
	g.c.Family("the same operation in two states of one buffer", int64(k*k*len(ops)))
	g.c.Bound("pairs of texts on one buffer", k*k)
	var big [][]string
	for _, n := range []int{64, 255, 256, 1000, 4096, 5000, 65536} {
		big = append(big, long(n))
	}
	use := thin(s.core, 12)
	g.c.Parallel(len(big)*len(big[0])*len(big[0]), func(w, i int) {
		l := big[i%len(big)]
		i /= len(big)
		t1, t2 := l[i%len(l)], l[i/len(l)]
		for _, p := range []int{len(t1) / 2, len(t1) + 1} {
			for _, o := range use {
				for _, q := range swap(t2, p, o) {
					g.seq(w, t1, q)
				}
			}
		}
	})
}

func c4(s spec, n int) int {
	if s.id == "P08" {
		return n + 1
	}
	return n
}

func (g *engine) bytes(s spec) {
	var texts []string
	for b := 0; b < 256; b++ {
		c := string([]byte{byte(b)})
		texts = append(texts, c, "a"+c+"b", "a "+c+c+"\n"+c, c+"ab"+c+"\nb"+c)
	}
	for _, r := range []string{"\r\n", "\u2028", "\u00a0", "\u200b", "\ufeff", "ﬁ", "ß", "İ", "日本", "😀", "e\u0301", "\ufffd", "\xe2\x82", "\t\t", "\v\f", "a\x00b", "..", "a_b", "a-b", "don't", "Ab1", "//", "\\n", "\"q\""} {
		texts = append(texts, r, "a"+r+"b\n"+r, r+r+" a"+r)
	}
	ops := append([]op{}, s.core...)
	ops = append(ops, thin(s.focus, 40)...)
	if s.id == "P06" {
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			ops = append(ops, call("search-forward", c), call("search-backward", c))
		}
	}
	if s.id == "P03" || s.id == "P07" {
		for b := 0; b < 256; b++ {
			ops = append(ops, call("insert", "a"+string([]byte{byte(b)})))
		}
		g.templates(s)
	}
	g.allStates("every byte value around point", texts, ops, func(t string, p int) []int {
		if s.mark {
			return []int{1, len(t) + 1}
		}
		return []int{1}
	})
	g.c.Bound("byte values", 256)
}

// templates inserts texts that could be mistaken for something with a meaning
// of its own in a replacement: every pair of an introducing character and another.
func (g *engine) templates(s spec) {
	n := 0
	for _, in := range []string{"\\", "$", "%", "&", "{", "\\\\", "$$", "${", "<", "#", "^", "~", "@", ""} {
		for b := 0; b < 128; b++ {
			for _, end := range []string{"", "}", "x"} {
				x := in + string([]byte{byte(b)}) + end
				for _, f := range []op{call("search-forward", "a"), call("re-search-forward", "(a)(b)?"), call("search-backward", "ab"), call("re-search-forward", "[ab]+"), call("replace-match", "ab")} {
					if s.id == "P07" {
						g.seq(0, "xab ab", []op{call("goto-char", 4.0), f, call("replace-match", x)})
						for _, away := range []op{call("goto-char", 1.0), call("end-of-buffer"), call("backward-char")} {
							g.seq(0, "xab ab", []op{call("goto-char", 4.0), f, away, call("replace-match", x)})
						}
					}
				}
				if s.id == "P03" {
					g.one(0, "xab ab", 3, 5, call("insert", x), "")
					g.one(0, "xab ab", 3, 5, call("replace-region", x), "")
					g.seq(0, "xab ab", []op{call("search-forward", "ab"), call("set-mark"), call("search-forward", "ab"), call("replace-region", x)})
				}
				n++
			}
		}
	}
	g.c.Family("texts that look like templates", int64(n))
}

// scale runs the core operations at boundary positions of texts around every
// power of two.
func (g *engine) scale(s spec) {
	top := g.c.Pick(16, 20)
	var sizes []int
	for k := 3; k <= top; k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, n := range []int{99, 100, 101, 500, 999, 1000, 1001} {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, dict.Around(9, 1<<top)...)
	for _, n := range []int{100000, 1000000} {
		if n < 1<<top {
			sizes = append(sizes, n)
		}
	}
	type job struct {
		text string
		n    int
	}
	var jobs []job
	for i := len(sizes) - 1; i >= 0; i-- {
		for _, t := range long(sizes[i]) {
			jobs = append(jobs, job{t, sizes[i]})
		}
	}
	ops := append([]op{}, s.core...)
	if s.id == "P06" || s.id == "P08" {
		ops = thin(ops, 16)
	}
	big := flat(s.sized())
	g.c.Bound("largest text", 1<<top+1)
	g.c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		ps := around(j.n, 1, j.n/2, j.n, 4096, 65536)
		if j.n > 70000 {
			ps = []int{1, j.n / 2, j.n, j.n + 1}
		}
		for k, p := range ps {
			g.c.States.Add(1)
			use := ops
			if k%3 == 1 || j.n <= 4097 {
				use = append(append([]op{}, ops...), big...)
			}
			for _, o := range use {
				g.one(w, j.text, p, 1, o, "")
				if s.mark && k%3 == 0 {
					g.one(w, j.text, p, j.n+1, o, "")
					g.one(w, j.text, p, j.n/2, o, "")
				}
			}
		}
	})
	g.c.Family("texts around powers of two x boundary positions", int64(len(jobs)))

	// a few texts of several megabytes
	var huge []string
	for _, n := range []int{1<<20 + 3, 5 << 20} {
		fill := strings.Repeat("x", n)
		huge = append(huge, "ab"+fill[2:], fill[2:]+"ab", strings.Repeat("ab c\n", n/5), strings.Repeat("é ", n/3))
	}
	g.c.Bound("longest texts", 5<<20)
	switch s.id {
	case "P04":
		ops = append(ops, each("goto-line", 1.0, 3.0, 4.0)...)
	case "P05":
		ops = append(ops, call("mark-line", 3.0))
	}
	// one long line among short ones
	for _, n := range []int{4096, 65535, 65536, 70000, 1<<20 + 1} {
		huge = append(huge, "a b\n"+strings.Repeat("x", n)+"\nab\nb a", strings.Repeat("y ", n/2)+"\nab\n\nb")
	}
	g.c.Parallel(len(huge)*len(ops), func(w, i int) {
		t := huge[i%len(huge)]
		for _, p := range []int{1, len(t) / 2, len(t) - 3, len(t) + 1} {
			if s.mark {
				g.one(w, t, p, len(t)/3, ops[i/len(huge)], "")
			} else {
				g.one(w, t, p, 1, ops[i/len(huge)], "")
			}
		}
	})
}

// words searches for words written in other letter case, with other marks, or
// only in part: a search finds exactly what it is given.
// spellings are words that differ in little.
var spellings = []string{"a", "ab", "abc", "hello", "Hello", "HELLO", "hellO", "helloworld", "hello-world", "hello_world", "helloWorld", "hello world", "hello  world", "hello\nworld", "hello\tworld", "hello\r\nworld", "hello\u00a0world", "héllo", "hÉllo", "he\u0301llo", "hello.", "hell", "ello", "straße", "STRASSE", "strasse", "ı", "İ", "i", "I", "K", "k", "\u212a", "ﬁ", "fi", "“a”", "\"a\"", "'a'", "’a’", "‐", "-", "–", "…", "...", "a.c", "a*", "a+b", "(a)", "[a]", "^a", "a$", "a\\b", "\\", "\\n", "\\(", "$1", "0", "00", "1", "01",
	"hello ", " hello", " hello ", "hello\n", "\thello", "\"hello\"", "hello\x00", "\ufeffhello", "hello\u00a0", "(?i)hello", "hello$", "^hello", "hel.o", "hello?"}

// caseWords finds each word and puts another one in its place.
func (g *engine) caseWords() {
	ws := spellings
	n := len(ws)
	g.c.Parallel(n*n, func(w, i int) {
		pat, rep := ws[i/n], ws[i%n]
		re := regexp.QuoteMeta(pat)
		for _, t := range []string{pat, "x " + pat + " y", pat + "\n" + rep + pat} {
			for _, o := range []op{call("search-forward", pat), call("re-search-forward", re), call("re-search-forward", "(?i)"+re)} {
				g.seq(w, t, []op{o, call("replace-match", rep)})
			}
			for _, o := range []op{call("search-backward", pat), call("re-search-backward", re)} {
				g.seq(w, t, []op{call("end-of-buffer"), o, call("replace-match", rep)})
			}
		}
		g.c.States.Add(1)
	})
	g.c.Family("words put in the place of words", int64(n*n*15))
}

func (g *engine) words() {
	ws := spellings
	n := len(ws)
	g.c.Parallel(n*n, func(w, i int) {
		pat, in := ws[i/n], ws[i%n]
		for _, t := range []string{in, "x " + in + " y", in + "\n" + pat, pat + " " + in + " " + pat} {
			for _, name := range []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward"} {
				for _, p := range []int{1, 2, 3, len(pat) + 1, len(t), len(t) + 1} {
					if p <= len(t)+1 {
						g.one(w, t, p, 1, call(name, pat), "")
					}
				}
			}
		}
		g.c.States.Add(1)
	})
	g.c.Family("words of similar spelling", int64(n*n*16))
}

// needles look for long strings in texts that hold copies of them with one
// byte changed, cut short or lengthened, with and without a true copy.
func (g *engine) needles(s spec) {
	type job struct{ needle, near, text string }
	var jobs []job
	var sizes []int
	for k := 2; k <= g.c.Pick(13, 17); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k, 1<<k+1)
	}
	for _, n := range append(append(sizes, 10, 20, 24, 30, 40, 48, 50, 60, 80, 96, 100, 200, 1000, 5000), dict.Around(9, 8000)...) {
		for _, unit := range []string{"abcdefghij0123456789", "a", "ab ", "x\n", "é."} {
			needle := strings.Repeat(unit, n/len(unit)+1)[:n]
			seen := map[string]bool{needle: true}
			nears := []string{needle[1:], needle[:n-1]}
			for _, at := range []int{0, 1, n / 4, n / 2, n - n/4 - 1, n - 2, n - 1} {
				b := []byte(needle)
				b[at] ^= 1
				nears = append(nears, string(b), needle[:at]+needle[at+1:], needle[:at]+"q"+needle[at:])
			}
			for _, x := range nears {
				if seen[x] {
					continue
				}
				seen[x] = true
				jobs = append(jobs, job{needle, x, "<" + x + ">"}, job{needle, x, "<" + x + ">" + needle + x}, job{needle, x, x + "\n" + x + needle + "-"})
			}
		}
	}
	g.c.Bound("longest search string among near copies", sizes[len(sizes)-1])
	g.c.Family("long search strings among near copies", int64(len(jobs)))
	g.c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		n := len(j.text)
		at := strings.Index(j.text, j.needle)
		if at < 0 {
			at = n
		}
		var ops []op
		re := regexp.QuoteMeta(j.needle)
		switch s.id {
		case "P06":
			ops = []op{call("search-forward", j.needle), call("search-backward", j.needle)}
			if len(re) < g.c.Pick(130, 900) {
				ops = append(ops, call("re-search-forward", re), call("re-search-backward", re))
			}
		case "P08":
			if len(j.needle) > 260 && !g.c.Thorough() || len(re) > 900 {
				return
			}
			ops = []op{call("looking-at", re), call("looking-back", re), call("looking-at", re+"[^x]")}
			if len(re) < 90 {
				ops = append(ops, call("looking-at", "(?s).*"+re))
			}
		case "P07":
			for _, o := range []op{call("search-forward", j.needle), call("search-backward", j.needle)} {
				g.seq(w, j.text, []op{o, call("replace-match", "R")})
				g.seq(w, j.text, []op{call("end-of-buffer"), o, call("replace-match", "R")})
				g.seq(w, j.text, []op{o, call("replace-match", j.near), o, call("replace-match", "R")})
			}
		}
		for k, p := range []int{1, 2, at + 1, at + 2, at + len(j.needle) + 1, len(j.near) + 1, n, n + 1} {
			if p <= n+1 && (k < 3 || len(j.needle) < 3000) {
				for _, o := range ops {
					g.one(w, j.text, p, 1, o, "")
				}
			}
		}
		g.c.States.Add(1)
	})
}

// padded puts small texts into long ones: nothing that lies far away may matter
// unless an operation looks that far.
func (g *engine) padded(s spec) {
	type job struct{ l, t, r string }
	var jobs []job
	for _, n := range append([]int{31, 70, 300, 1100, 5000, 70000}, few3(dict.Around(100, 1<<19))...) {
		if n > 10000 && !g.c.Thorough() && s.id != "P08" {
			continue
		}
		for _, unit := range []string{"x", "ab ", "\n", "x y\n", ". "} {
			pad := strings.Repeat(unit, n/len(unit)+1)
			for i, t := range []string{"", "ab a\nb", "aab\n\nab ", "éa é\n", "  b\n a"} {
				if n > 2000 && i%2 == 0 && !g.c.Thorough() {
					continue
				}
				jobs = append(jobs, job{pad, t, ""}, job{"", t, pad}, job{pad, t, pad})
			}
		}
	}
	ops := append(append([]op{}, s.core...), thin(s.focus, g.c.Pick(50, 200))...)
	g.c.Parallel(len(jobs), func(w, i int) {
		j := jobs[i]
		text := j.l + j.t + j.r
		use := ops
		if len(text) > 4000 && !g.c.Thorough() {
			use = thin(ops, 24)
		}
		for p := len(j.l) + 1; p <= len(j.l)+len(j.t)+1; p++ {
			for _, o := range use {
				g.one(w, text, p, 1, o, "")
				if s.mark {
					g.one(w, text, p, len(text)+1, o, "")
					g.one(w, text, p, len(j.l)+len(j.t)/2+1, o, "")
				}
			}
			g.c.States.Add(1)
		}
	})
	g.c.Family("small texts inside long ones", int64(len(jobs)*len(ops)))
}

// matches searches and replaces at boundary positions of large texts.
func (g *engine) matches(s spec) {
	var texts []string
	for k := 4; k <= 16; k++ {
		for d := -1; d <= 1; d++ {
			texts = append(texts, long(1<<k+d)...)
		}
	}
	for _, n := range few3(dict.Around(100, 1<<20)) {
		texts = append(texts, long(n)...)
	}
	search := few(s.core, "search-forward", "search-backward", "re-search-forward", "re-search-backward")
	reps := flat(each("replace-match", "", "b", "longer text", strings.Repeat("z", 5000)))
	g.c.Parallel(len(texts), func(w, i int) {
		t := texts[i]
		for _, p := range []int{1, len(t) / 2, len(t), len(t) + 1} {
			for _, o := range search {
				for _, r := range reps {
					ops := []op{call("goto-char", float64(p)), o, r}
					if g.seq(w, t, ops) {
						g.seq(w, t, append(ops, r))
					}
				}
			}
		}
	})
}

// sized are operations with large arguments.
func (s spec) sized() []op {
	var r []op
	// patterns that match stretches of any length
	for _, x := range []string{"a[^b]*b", "(?s)\\Aa.*b", "(?s)a.*b\\z", "x+", "bx*", "(?s)b.*", "\\na+c?"} {
		switch s.id {
		case "P06":
			r = append(r, call("re-search-forward", x), call("re-search-backward", x))
		case "P08":
			r = append(r, call("looking-at", x), call("looking-back", x))
		}
	}
	for _, n := range []int{255, 4096, 65536} {
		str := strings.Repeat("ab\n", n/3+1)[:n]
		switch s.id {
		case "P03":
			r = append(r, call("insert", str), call("replace-region", str))
		case "P06":
			r = append(r, call("search-forward", str), call("search-backward", str), call("re-search-forward", "a{"+"20}"))
		}
		for _, t := range s.counted {
			r = append(r, call(t.name, float64(n)), call(t.name, float64(n-1)))
		}
	}
	return r
}

// sweep runs every count in a dense range and around every power of two.
func (g *engine) sweep(s spec) {
	if len(s.counted) == 0 {
		return
	}
	var vals []float64
	for i := -5; i <= g.c.Pick(140, 300); i++ {
		vals = append(vals, float64(i))
	}
	for k := 7; k <= 52; k++ {
		for d := -1.0; d <= 1; d++ {
			vals = append(vals, math.Pow(2, float64(k))+d, -math.Pow(2, float64(k))+d)
		}
	}
	for k := 2; k <= 15; k++ {
		vals = append(vals, math.Pow(10, float64(k)), math.Pow(10, float64(k))+0.5)
	}
	texts := []string{strings.Repeat("ab c\n", 60), strings.Repeat("w ", 150), strings.Repeat("\n", 140), strings.Repeat("x", 200), "a b\nc d", strings.Repeat("é-\n", 70)}
	var ops []op
	for _, v := range vals {
		for _, t := range s.counted {
			ops = append(ops, call(t.name, v))
		}
	}
	g.c.Bound("counts", []float64{-math.Pow(2, 52), math.Pow(2, 52)})
	g.c.Family("count sweep", int64(len(ops)*len(texts)*9))
	g.c.Parallel(len(ops), func(w, i int) {
		for _, t := range texts {
			for _, p := range around(len(t), 2, len(t)/2, len(t)) {
				g.one(w, t, p, len(t)/3+1, ops[i], "")
			}
		}
	})
}

// huge probes numbers around and beyond the range of machine integers in every
// numeric argument, from every position of a small text.
func (g *engine) huge(s spec) {
	nums := []float64{1 << 53, 1 << 62, 9.2e18, 1 << 63, 1e19, 1 << 64, 1e300, math.Inf(1)}
	seen := map[string]bool{}
	var ops []op
	for _, o := range append(append([]op{}, s.focus...), s.core...) {
		l := o.e
		for i := 1; i < len(l); i++ {
			if _, ok := l[i].(float64); !ok {
				continue
			}
			k := fmt.Sprint(o.name, i)
			if seen[k] {
				continue
			}
			seen[k] = true
			for _, x := range nums {
				for _, y := range []float64{x, -x} {
					m := append(model.List{}, l...)
					m[i] = y
					ops = append(ops, call(o.name, m[1:]...))
				}
			}
		}
	}
	g.c.Family("numbers beyond the integers", int64(len(ops)))
	for _, o := range ops {
		for p := 1; p <= 6; p++ {
			g.one(0, "a b\nc", p, 2, o, key(o.e))
		}
	}
}

// key names a call with a number outside the machine integers, "" for others.
func key(e model.List) string {
	for _, x := range e[1:] {
		if f, ok := x.(float64); ok && f >= 1<<63 {
			return fmt.Sprintf("%v with a number >= 2^63", e[0])
		} else if ok && f <= -1<<63 {
			return fmt.Sprintf("%v with a number <= -2^63", e[0])
		}
	}
	return ""
}

// few3 keeps every third number: one of each group of neighbours.
func few3(ns []int) []int {
	var r []int
	for i := 2; i < len(ns); i += 3 {
		r = append(r, ns[i])
	}
	return r
}
