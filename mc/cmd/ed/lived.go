package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"verifmc/dict"
	"verifmc/drive"
	"verifmc/model"
)

// sinks are texts that have many traits at once: whatever one trait does to an
// operation, it does in all states of them. They differ in how they begin and
// end, and in what they lack.
func sinks() []string {
	word := strings.Repeat("Abcdefgh", 4)
	line := strings.Repeat("long line, ", 9)
	body := "Ab_c 12\tab \"q\" 'r' \\n $1\r\n" +
		"\n\n\n" + "ab          cd\n" + word + " " + word + "_" + word + "\n" + line + "\n" +
		"é日本 \x00\xff\x7f e\u0301 ab\r\n\tab\n" + strings.Repeat("l\n", 14) + "(a[b]{c}) ab. ab, ab; ab\n"
	few := "ab 12 Ab\n\n\n\nab\tab\n" + strings.Repeat("ab\n", 12) + "ab          \"ab\" \\ é _\r\n"
	pad := func(t string, n int) string { return t + strings.Repeat("z", n-len(t)) }
	r := []string{
		"\ufeff" + body + "ab", // no newline at the end
		"\n\n" + body + "\n\n", // begins and ends with blank lines
		pad(few, 256),          // a power of two
		pad(few, 255),
		"\t" + few + strings.Repeat(few, 3) + strings.Repeat("\n", 60) + "ab",
		"ab\n" + strings.Repeat("x_1-", 40) + "\r\n\r\nB \"c\" \\\\ é",
		"ab\tcd\nEF 12",
		"A\r\nb_\"\\\n\n",
	}
	// every beginning with every end
	for _, b := range []string{"\ufeff", "\n\n", "\t", "AB1", "\"", "\r\n"} {
		for _, e := range []string{"ab", "\n\n", "\r\n", " ", "_1", "\\", "\x00", "é"} {
			r = append(r, b+"Ab_1\t\"\\é\xff\r\nab\n\n\nab 2"+e)
		}
	}
	return r
}

// lived is a match found before, and a mark.
type lived struct {
	find op
	mark int
}

// lived runs operations in states where everything is set: a text of many
// traits, a mark somewhere, and a match found somewhere else before.
func (g *engine) lived(s spec) {
	texts := sinks()
	small := len(texts)
	base := texts[1]
	for _, n := range []int{1500, 6000, 71000} {
		texts = append(texts, strings.Repeat(base, n/len(base)+1))
	}
	for _, n := range few3(dict.Around(100, 80000)) {
		texts = append(texts, strings.Repeat(base, n/len(base)+1))
	}
	ops := append(append([]op{}, s.core...), thin(s.focus, g.c.Pick(24, 90))...)
	for _, t := range s.counted {
		ops = append(ops, each(t.name, 7.0, 10.0, 25.0, 200.0, -11.0, 2.5, 1e10, -1e10)...)
	}
	ops = unique(ops)
	// long lines, many lines, and the traits before, between and after them
	many, wide := strings.Repeat("x 1\n", 300), strings.Repeat("Ab_1-é ", 170)
	texts = append(texts, texts[3]+many+wide+"\n"+texts[2], "\ufeff"+many+texts[3]+wide, wide+"\r\n"+texts[3]+many)
	type job struct {
		t  int
		ps []int
	}
	var jobs []job
	for i, t := range texts {
		ps := boundaries(t, g.c.Pick(40, 300))
		for len(ps) > 0 {
			k := min(len(ps), 30)
			jobs = append(jobs, job{i, ps[:k]})
			ps = ps[k:]
		}
	}
	g.c.Bound("longest text with every trait", len(texts[small+2]))
	g.c.Family("texts of many traits x points x marks x matches found before", int64(len(jobs)*30*len(ops)))
	g.c.Parallel(len(jobs), func(w, i int) {
		j := jobs[len(jobs)-1-i]
		t := texts[j.t]
		states := func(p int) []lived {
			at := func(k int) string { // a piece of the text
				a := min(max(0, k), len(t))
				return t[a:min(a+12, len(t))]
			}
			return []lived{
				{call("search-forward", at(p-1)), len(t) + 1},
				{call("search-forward", at(p/2)), max(1, p-30)},
				{call("re-search-forward", "(?s)\\A.{1,300}"), p},
				{call("re-search-backward", "(?s)\\n.?"), min(p+5, len(t)+1)},
				{call("search-forward", "no such text"), len(t)/2 + 1},
				{call("search-forward", t[:min(9, len(t))]), 1},
			}
		}
		for _, p := range j.ps {
			for k, st := range states(p) {
				edge := p == 1 && k == 0 || p == len(t)+1 && k == 5 // all of the text between point and mark
				if edge {
				} else if k > 0 && !s.mark && (p+k)%3 != 0 && s.id != "P07" || len(t) > 1000 && k > 0 && (p+k)%4 != 0 {
					continue
				}
				g.c.States.Add(1)
				for n, o := range ops {
					if (n+k+p)%g.c.Pick(3, 1) == 0 || len(t) < 60 || edge {
						g.from(w, t, st, p, o)
					}
				}
				if (p+k)%3 == 0 || len(t) < 60 {
					for _, o := range s.here(t, p, k) {
						g.from(w, t, st, p, o)
					}
				}
			}
			if s.id == "P07" {
				g.replaced(w, t, p)
			}
		}
	})
}

// boundaries gives all points of a short text; of a long one those at and
// after the first and the last occurrence of every byte, and some between.
func boundaries(t string, n int) []int {
	var ps []int
	if len(t) <= 700 {
		for p := 1; p <= len(t)+1; p++ {
			ps = append(ps, p)
		}
		return ps
	}
	in := map[int]bool{1: true, 2: true, len(t): true, len(t) + 1: true}
	for b := 0; b < 256; b++ {
		if i := strings.IndexByte(t, byte(b)); i >= 0 {
			in[i+1], in[i+2] = true, true
			i = strings.LastIndexByte(t, byte(b))
			in[i+1], in[i+2] = true, true
		}
	}
	for p := 1; p <= len(t); p += max(1, len(t)/n) {
		in[p] = true
	}
	for p := range in {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	return ps
}

func unique(ops []op) []op {
	seen := map[string]bool{}
	var r []op
	for _, o := range ops {
		if k := model.Show(o.e); !seen[k] {
			seen[k] = true
			r = append(r, o)
		}
	}
	return r
}

// literal is a pattern for a text, whatever its bytes.
func literal(x string) string {
	return "(?s)" + strings.ToValidUTF8(regexp.QuoteMeta(x), ".")
}

// here gives operations whose arguments have to do with the text and point.
func (s spec) here(t string, p, k int) []op {
	var r []op
	n := len(t)
	cut := func(a, b int) string { a = min(max(0, a), n); return t[a:max(a, min(max(b, 0), n))] }
	switch s.id {
	case "P03":
		r = each("insert", cut(p-1, p+2), cut(p-13, p+7), "Ab \"q\"\t\\ é\r\n$1 "+cut(0, 120), cut(0, n/2))
		r = append(r, each("replace-region", cut(p-1, p+2), cut(p-13, p+7), "", "Ab \"q\"\t\\ é\r\n$1 "+cut(0, 120))...)
	case "P06":
		for _, x := range []string{cut(p-1, p), cut(p-1, p+2), cut(p-4, p-1), cut(p-13, p-1), cut(p-1, p+14), cut(p-2, p+2), cut(p+20, p+24), cut(p-31, p-20), cut(p-1, p+120), cut(p-130, p-1), t, cut(p-1, n), cut(0, p-1), cut(n-5, n), cut(0, 5), cut(n/2, n/2+1) + "#"} {
			r = append(r, call("search-forward", x), call("search-backward", x))
			if q := regexp.QuoteMeta(x); len(x) < 140 && utf8.ValidString(x) {
				r = append(r, call("re-search-forward", q), call("re-search-backward", q))
				if len(x) > 1 {
					r = append(r, call("re-search-forward", q[:len(q)-len(regexp.QuoteMeta(x[len(x)-1:]))]+"\\S"), call("re-search-backward", "(?m)^.*"+q))
				}
			}
		}
		if p%90 == 1 && n < 20000 { // a long pattern
			if q := literal(cut(p-1, p+1100)); len(q) > 0 {
				r = append(r, call("re-search-forward", q), call("re-search-backward", q), call("re-search-forward", q[:len(q)/2]+"#?"))
			}
		}
	case "P08":
		if p%90 == 1 && n < 20000 {
			q, b := literal(cut(p-1, p+1100)), literal(cut(p-1100, p-1))
			r = append(r, call("looking-at", q), call("looking-back", b))
		}
		for _, x := range []string{cut(p-1, p), cut(p-1, p+2), cut(p-3, p-1), cut(p-13, p-1), cut(p-1, p+14), cut(p-1, n), cut(0, p-1), cut(p+3, p+6)} {
			if q := regexp.QuoteMeta(x); len(x) < 140 && utf8.ValidString(x) {
				r = append(r, call("looking-at", q), call("looking-back", q))
			}
		}
		for _, x := range [][2]int{{p, p + 1}, {p, n}, {p, n + 1}, {1, p}, {p - 1, p + 20}, {p / 2, p}, {1, n + 1}, {1, n}, {p, -1}, {n, n + 1}, {p, p}} {
			r = append(r, call("buffer-substring", float64(x[0]), float64(x[1])))
		}
	}
	for _, c := range s.counted {
		switch k % 3 {
		case 0:
			r = append(r, each(c.name, float64(p), float64(n), float64(-p))...)
		case 1:
			r = append(r, each(c.name, float64(p-1), float64(n-p+1), float64(n+1))...)
		case 2:
			r = append(r, each(c.name, float64(n-p), float64(n-p+2), float64(p)+0.5)...)
		}
	}
	return r
}

// from runs one operation on a text with a match found before, a mark and point.
func (g *engine) from(w int, t string, st lived, p int, o op) {
	r := drive.At(g.envs[w], t, 1, 1)
	s := model.New(t)
	if st.find.name == "re-search-backward" {
		r.Buf.SetPoint(len(t) + 1)
		s.Point = len(t) + 1
	}
	r.Exec(st.find.real)
	_, s, _ = model.Eval(s, st.find.e)
	r.Buf.SetMark(st.mark)
	r.Buf.SetPoint(p)
	s.Mark, s.Point = st.mark, p
	if m, a, b := r.MatchInfo(); m != s.Match || a != s.MS || b != s.ME {
		return // not about this operation
	}
	g.c.Begin(w, func() string {
		return model.Show(o.e) + fmt.Sprintf(" on %d bytes, point %d, mark %d, after %s", len(t), p, st.mark, show(model.Show(st.find.e)))
	})
	out := r.Exec(o.real)
	g.c.End(w)
	val, s2, err := model.Eval(s, o.e)
	if what, exp, act := r.Diff(out, val, err, s2, true); what != "" && g.focus[o.name] {
		first := call("goto-char", 1.0)
		if st.find.name == "re-search-backward" {
			first = call("end-of-buffer")
		}
		g.fail(t, 1, 1, []op{first, st.find, call("goto-char", float64(st.mark)), call("set-mark"), call("goto-char", float64(p)), o}, what, exp, act, "")
	}
	g.outs[w][classify(o, s, s2, err)]++
	g.c.Transitions.Add(2)
	g.c.Validated.Add(1)
}

// replaced finds the text around a position and replaces it, with point there,
// elsewhere, and with an edit in between.
func (g *engine) replaced(w int, t string, p int) {
	at := func(a, b int) string { a = min(max(0, a), len(t)); return t[a:max(a, min(b, len(t)))] }
	for k, x := range []string{at(p-1, p), at(p-1, p+2), at(p-1, p+11), at(p-1, len(t))} {
		if x == "" || len(t) > 5000 && k%2 == 0 {
			continue
		}
		to := call("goto-char", float64(p))
		find := call("search-forward", x)
		if k == 1 && utf8.ValidString(x) {
			find = call("re-search-forward", regexp.QuoteMeta(x))
		}
		if k == 2 {
			to, find = call("goto-char", float64(p+len(x))), call("search-backward", x)
		}
		rep := call("replace-match", []string{"", "R", "Ab \"q\"\t\\ é\r\n$1 ", x + x, strings.Repeat("long ", 30)}[(p+k)%5])
		g.runSeq(w, t, []op{to, find, rep})
		switch (p + k) % 4 {
		case 0:
			g.runSeq(w, t, []op{to, find, call("goto-char", float64(p/2+1)), call("set-mark"), rep, rep})
		case 1:
			g.runSeq(w, t, []op{to, find, call("insert", x), rep})
		case 2:
			g.runSeq(w, t, []op{to, find, call("goto-char", 1.0), call("insert", "#"), rep})
		case 3:
			g.runSeq(w, t, []op{to, find, call("end-of-buffer"), call("insert", x), rep, call("search-backward", x), rep})
		}
	}
}

// runSeq is seq for sequences of which no shorter one is run.
func (g *engine) runSeq(w int, t string, ops []op) {
	for k := range ops {
		if g.focus[ops[k].name] && k == len(ops)-1 {
			g.seq(w, t, ops)
		}
	}
}
