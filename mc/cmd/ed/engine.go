package main

import (
	"fmt"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/drive"
	"verifmc/model"
	"verifmc/rep"
)

// op is one instruction of an alphabet, in model and implementation form.
type op struct {
	name string
	e    model.List
	real edlisp.Value
	args []any
}

func call(name string, args ...any) op {
	l := model.List{model.Sym(name)}
	l = append(l, args...)
	return op{name: name, e: l, real: drive.ToReal(l), args: args}
}

func calls(name string, lists ...[]any) []op {
	var r []op
	for _, a := range lists {
		r = append(r, call(name, a...))
	}
	return r
}

func each(name string, vals ...any) []op {
	var r []op
	for _, v := range vals {
		r = append(r, call(name, v))
	}
	return r
}

func flat(groups ...[]op) []op {
	var r []op
	for _, g := range groups {
		r = append(r, g...)
	}
	return r
}

// engine checks the operations of one property against the reference model.
type engine struct {
	c     *rep.Check
	focus map[string]bool // operations this property is about
	envs  []*edlisp.Environment
	outs  []map[string]int64
}

func newEngine(c *rep.Check, focus ...string) *engine {
	g := &engine{c: c, focus: map[string]bool{}}
	for _, f := range focus {
		g.focus[f] = true
	}
	for i := 0; i < 64; i++ {
		g.envs = append(g.envs, edlisp.NewDefaultEnvironment())
		g.outs = append(g.outs, map[string]int64{})
	}
	return g
}

func (g *engine) done() {
	for _, m := range g.outs {
		g.c.AddOutcomes(m)
	}
}

// repro is a self-contained script: a text and the instructions to run on it.
type repro struct {
	Text   string   `json:"text"`
	Script []string `json:"script"`
}

func show(s string) string {
	if len(s) > 4096 {
		return s[:4096]
	}
	return s
}

func scriptOf(text string, point, mark int, ops []op) repro {
	r := repro{Text: text}
	if len(text) > 8192 {
		r.Text = fmt.Sprintf("<%d bytes> %q...", len(text), text[:200])
	}
	if mark != 1 || point != 1 {
		r.Script = append(r.Script, fmt.Sprintf("(goto-char %d)", mark), "(set-mark)", fmt.Sprintf("(goto-char %d)", point))
	}
	for _, o := range ops {
		r.Script = append(r.Script, show(model.Show(o.e)))
	}
	return r
}

var howTo = []string{"texted edit --sexp -s '<script lines>' < text ; values: one -e per instruction"}

func (g *engine) fail(text string, point, mark int, ops []op, what, exp, act, key string) {
	g.c.Fail(&rep.Violation{
		What: fmt.Sprintf("%s: %s after %s", g.c.ID, what, show(model.Show(ops[len(ops)-1].e))),
		Key:  key, Repro: scriptOf(text, point, mark, ops), Expected: exp, Actual: act, HowTo: howTo,
	})
}

func classify(o op, before, after model.State, err model.Err) string {
	k := o.name
	if err != model.OK {
		return k + " error"
	}
	if after.Text != before.Text {
		if len(after.Text) < len(before.Text) {
			k += " shrink"
		} else if len(after.Text) > len(before.Text) {
			k += " grow"
		} else {
			k += " rewrite"
		}
	}
	if after.Point != before.Point {
		k += " move"
	}
	if after.Mark != before.Mark {
		k += " mark"
	}
	if after.MS != before.MS || after.ME != before.ME {
		k += " match"
	}
	return k
}

// one checks one operation from one constructed state.
func (g *engine) one(w int, text string, point, mark int, o op, key string) {
	r := drive.At(g.envs[w], text, point, mark)
	s := model.State{Text: text, Point: point, Mark: mark}
	g.c.Begin(w, func() string {
		return model.Show(o.e) + fmt.Sprintf(" on %d bytes, point %d, mark %d", len(text), point, mark)
	})
	out := r.Exec(o.real)
	g.c.End(w)
	val, s2, err := model.Eval(s, o.e)
	if what, exp, act := r.Diff(out, val, err, s2, true); what != "" {
		g.fail(text, point, mark, []op{o}, what, exp, act, key)
	}
	g.outs[w][classify(o, s, s2, err)]++
	g.c.Transitions.Add(1)
	g.c.Validated.Add(1)
}

// seq runs a whole sequence on one buffer, comparing after every instruction;
// the last one is the one this sequence is about. Deviations at an earlier
// instruction end the sequence: they are reported by the shorter sequence that
// ends there, if the property is about that instruction at all.
func (g *engine) seq(w int, text string, ops []op) bool {
	r := drive.At(g.envs[w], text, 1, 1)
	s := model.New(text)
	for i, o := range ops {
		last := i == len(ops)-1
		out := r.Exec(o.real)
		val, s2, err := model.Eval(s, o.e)
		what, exp, act := r.Diff(out, val, err, s2, last)
		if what != "" {
			if last && g.focus[o.name] {
				g.fail(text, 1, 1, ops, what, exp, act, "")
			}
			return false
		}
		if last {
			g.outs[w][classify(o, s, s2, err)]++
			g.c.Transitions.Add(int64(len(ops)))
			g.c.Validated.Add(1)
		}
		s = s2
	}
	return g.blind(w, text, ops)
}

// blind runs the same sequence on another buffer without looking at it before
// the end, as looking may repair or spoil what the implementation keeps.
// Stretches without errors run as one program.
func (g *engine) blind(w int, text string, ops []op) bool {
	b := edlisp.NewBuffer(text)
	r := &drive.Real{Buf: b, Env: g.envs[w]}
	s := model.New(text)
	var prog []edlisp.Value
	last := ops[len(ops)-1]
	var out drive.Outcome
	var val any
	var err model.Err
	for i, o := range ops {
		prog = append(prog, o.real)
		val, s, err = model.Eval(s, o.e)
		if err != model.OK || i == len(ops)-1 {
			out = r.Run(prog)
			prog = prog[:0]
			if out.Panic != nil || (out.Err != nil) != (err != model.OK) {
				break
			}
		}
	}
	p, m := 0, 0
	func() {
		defer func() {
			if x := recover(); x != nil {
				out.Panic = x
			}
		}()
		p, m = b.Point(), b.Mark()
	}()
	what, exp, act := r.Diff(out, val, err, s, true)
	if what == "" && (p != s.Point || m != s.M()) {
		what, exp, act = "wrong position before the text is looked at", fmt.Sprint(s.Point, s.M()), fmt.Sprint(p, m)
	}
	if what != "" {
		if g.focus[last.name] {
			g.fail(text, 1, 1, ops, what+" (run at once)", exp, act, "")
		}
		return false
	}
	return true
}

// alpha enumerates all strings over the symbols with at most n of them.
func alpha(symbols []string, n int) []string {
	r := []string{""}
	level := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, s := range symbols {
				next = append(next, p+s)
			}
		}
		r = append(r, next...)
		level = next
	}
	return r
}

// allStates: every text, every point, every mark, every operation.
func (g *engine) allStates(family string, texts []string, ops []op, marks func(text string, point int) []int) {
	var n int64
	g.c.Parallel(len(texts), func(w, i int) {
		t := texts[i]
		for p := 1; p <= len(t)+1; p++ {
			for _, m := range marks(t, p) {
				g.c.States.Add(1)
				for _, o := range ops {
					g.one(w, t, p, m, o, "")
				}
			}
		}
	})
	for _, t := range texts {
		for p := 1; p <= len(t)+1; p++ {
			n += int64(len(marks(t, p)) * len(ops))
		}
	}
	g.c.Family(family, n)
}

func everyMark(t string, p int) []int {
	r := make([]int, len(t)+1)
	for i := range r {
		r[i] = i + 1
	}
	return r
}

// fewMarks is for operations that do not look at the mark.
func fewMarks(t string, p int) []int {
	if len(t) == 0 {
		return []int{1}
	}
	return []int{1, len(t) + 1}
}

// sequences: every sequence of exactly depth operations from pre, with a focus
// operation of the alphabet last, on every text.
func (g *engine) sequences(family string, texts []string, depth int, pre, last []op) {
	total := 1
	for i := 0; i < depth-1; i++ {
		total *= len(pre)
	}
	var count int64
	for range texts {
		count += int64(total * len(last))
	}
	g.c.Family(family, count)
	g.c.Parallel(len(texts)*len(pre), func(w, i int) {
		t := texts[i/len(pre)]
		first := pre[i%len(pre)]
		sub := total / len(pre)
		if depth == 1 {
			sub = 1
		}
		ops := make([]op, depth)
		idx := make([]int, depth)
		for k := 0; k < sub; k++ {
			if k&1023 == 0 && g.c.Stop() {
				return
			}
			ops[0] = first
			rest := k
			for d := 1; d < depth-1; d++ {
				ops[d] = pre[rest%len(pre)]
				idx[d] = rest % len(pre)
				rest /= len(pre)
			}
			g.c.Begin(w, func() string {
				return fmt.Sprint("sequence on ", fmt.Sprintf("%q", t), " ", scriptOf("", 1, 1, ops[:depth-1]).Script)
			})
			for _, f := range last {
				ops[depth-1] = f
				g.seq(w, t, ops)
			}
			g.c.End(w)
			g.c.States.Add(1)
		}
	})
}

// cycles repeats every cycle of at most three operations many times on one buffer.
func (g *engine) cycles(texts []string, ops []op, rounds int) {
	k := len(ops)
	g.c.Family("cycles of three operations repeated", int64(k*k*k*len(texts)))
	g.c.Bound("cycle repetitions", rounds)
	g.c.Parallel(k*k, func(w, i int) {
		for l := 0; l < k; l++ {
			cyc := []op{ops[i/k], ops[i%k], ops[l]}
			for _, t := range texts {
				r := drive.At(g.envs[w], t, 1, 1)
				s := model.New(t)
				g.c.Begin(w, func() string { return fmt.Sprint("cycle ", scriptOf(t, 1, 1, cyc).Script) })
			cycle:
				for n := 0; n < rounds && len(s.Text) < 1<<16; n++ {
					for j, o := range cyc {
						out := r.Exec(o.real)
						val, s2, err := model.Eval(s, o.e)
						if what, exp, act := r.Diff(out, val, err, s2, g.focus[o.name] && n%8 == 7); what != "" {
							if g.focus[o.name] {
								var run []op
								for m := 0; m < n; m++ {
									run = append(run, cyc...)
								}
								g.fail(t, 1, 1, append(run, cyc[:j+1]...), what, exp, act, "")
							}
							break cycle
						}
						s = s2
					}
					g.c.Transitions.Add(3)
				}
				g.c.End(w)
				g.c.Validated.Add(1)
			}
		}
	})
}

// marathons repeats single operations and pairs very often on one buffer.
func (g *engine) marathons(texts []string, ops, others []op, rounds int) {
	var cyc [][]op
	for _, o := range append(append([]op{}, ops...), others...) {
		cyc = append(cyc, []op{o})
		for _, p := range others {
			cyc = append(cyc, []op{p, o})
		}
	}
	g.c.Family("operations and pairs repeated very often", int64(len(cyc)*len(texts)))
	g.c.Bound("most repetitions", rounds)
	g.c.Parallel(len(cyc), func(w, i int) {
		for _, t := range texts {
			r := drive.At(g.envs[w], t, 1, 1)
			s := model.New(t)
			g.c.Begin(w, func() string { return fmt.Sprint("marathon ", scriptOf(t, 1, 1, cyc[i]).Script) })
		run:
			for n := 0; n < rounds && len(s.Text) < 1<<13 && !g.c.Stop(); n++ {
				for j, o := range cyc[i] {
					out := r.Exec(o.real)
					val, s2, err := model.Eval(s, o.e)
					if what, exp, act := r.Diff(out, val, err, s2, g.focus[o.name] && n%512 == 511); what != "" {
						if g.focus[o.name] {
							var run []op
							for m := 0; m < n; m++ {
								run = append(run, cyc[i]...)
							}
							g.fail(t, 1, 1, append(run, cyc[i][:j+1]...), what, exp, act, "")
						}
						break run
					}
					s = s2
				}
				g.c.Transitions.Add(int64(len(cyc[i])))
			}
			g.c.End(w)
			g.c.Validated.Add(1)
		}
	})
}

// long builds texts of given sizes of several shapes.
func long(n int) []string {
	cut := func(unit string) string { return strings.Repeat(unit, n/len(unit)+1)[:n] }
	// needle texts: the searched thing only at the end, in the middle
	fill := strings.Repeat("x", n)
	r := []string{cut("a"), cut("ab "), cut("ab cd\n"), cut("\n"),
		cut(strings.Repeat("w ", 50) + "\n"), cut(".,; -"), cut("a b\r\n"), cut("é x\n")}
	if n > 4 {
		r = append(r, fill[:n-2]+"ab", fill[:n/2]+"ab"+fill[:n-n/2-2], "ab"+fill[:n-2])
		// things that span everything
		r = append(r, "a"+fill[:n-2]+"b", "b\n"+strings.Repeat("a", n-3)+"c")
	}
	return r
}

func around(n int, ks ...int) []int {
	seen := map[int]bool{}
	var r []int
	add := func(p int) {
		if p >= 1 && p <= n+1 && !seen[p] {
			seen[p] = true
			r = append(r, p)
		}
	}
	for _, k := range ks {
		for d := -1; d <= 1; d++ {
			add(k + d)
		}
	}
	return r
}
