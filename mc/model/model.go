// Package model is the reference model of the texted editor: a state and, for
// every command, its effect written down from the documentation as positions
// and set-builder style searches over the text, not as the editing loops of the
// implementation. Positions inside the model are 0-based offsets; the values
// commands take and return are 1-based.
package model

import (
	"math"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
)

// State is one editor state. Mark is the position the mark was last set to; the
// mark that commands see is that position limited to the buffer.
type State struct {
	Text  string
	Point int // 1-based
	Mark  int // 1-based, as set
	Match string
	MS    int // 1-based start of the last match, 0 if none
	ME    int
}

// New is the initial state on a text.
func New(text string) State { return State{Text: text, Point: 1, Mark: 1} }

// M is the mark as observable.
func (s State) M() int { return clamp(s.Mark, 1, len(s.Text)+1) }

// Key identifies a state.
func (s State) Key() string {
	return s.Text + "\x00" + strconv.Itoa(s.Point) + "," + strconv.Itoa(s.Mark) + "," + strconv.Itoa(s.MS) + "," + strconv.Itoa(s.ME) + "," + s.Match
}

// Values are string, float64, Sym or List.
type (
	Sym  string
	List []any
)

// Err classifies a failure.
type Err string

const (
	OK        Err = ""
	SearchErr Err = "search failed"
	AnyErr    Err = "error"
)

func clamp(x, lo, hi int) int {
	if x < lo {
		return lo
	}
	if x > hi {
		return hi
	}
	return x
}

var reCache sync.Map

// Regexp compiles with memory; nil when the pattern is invalid.
func Regexp(p string) *regexp.Regexp {
	if v, ok := reCache.Load(p); ok {
		return v.(*regexp.Regexp)
	}
	re, err := regexp.Compile(p)
	if err != nil {
		re = nil
	}
	reCache.Store(p, re)
	return re
}

func wordByte(b byte) bool {
	return '0' <= b && b <= '9' || 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z'
}

// at reports whether there is a word character at offset i of t.
func at(t string, i int) bool { return i >= 0 && i < len(t) && wordByte(t[i]) }

func wordEnd(t string, q int) bool   { return at(t, q-1) && !at(t, q) }
func wordStart(t string, q int) bool { return at(t, q) && !at(t, q-1) }

func nextWordEnd(t string, p int) int {
	for q := p + 1; q <= len(t); q++ {
		if wordEnd(t, q) {
			return q
		}
	}
	return len(t)
}

func prevWordStart(t string, p int) int {
	for q := p - 1; q >= 0; q-- {
		if wordStart(t, q) {
			return q
		}
	}
	return 0
}

func lineStart(t string, p int) int { return strings.LastIndexByte(t[:p], '\n') + 1 }

func lineEnd(t string, p int) int {
	if i := strings.IndexByte(t[p:], '\n'); i >= 0 {
		return p + i
	}
	return len(t)
}

func times(n, p int, limit int, f func(int) int) int {
	for i := 0; i < n && p != limit; i++ {
		p = f(p)
	}
	return p
}

func afterLines(t string, p, n int) int {
	return times(n, p, len(t), func(q int) int { return min(lineEnd(t, q)+1, len(t)) })
}

func forwardWords(t string, p, n int) int {
	return times(n, p, len(t), func(q int) int { return nextWordEnd(t, q) })
}

func backwardWords(t string, p, n int) int {
	return times(n, p, 0, func(q int) int { return prevWordStart(t, q) })
}

// num is the whole part of a number; beyond 2^53 all numbers are equally far
// outside any text.
func num(v any) int {
	const far = 1 << 53
	return int(math.Trunc(max(-far, min(far, v.(float64)))))
}

// cut removes [a,b) from the text.
func (s *State) cut(a, b int) { s.Text = s.Text[:a] + s.Text[b:] }

func (s *State) setPoint(off int) { s.Point = off + 1 }
func (s *State) setMark(off int)  { s.Mark = off + 1 }

func boolSym(b bool) any {
	if b {
		return Sym("t")
	}
	return Sym("nil")
}

// Signature of a command: n required and o optional parameters; each letter is
// s (string) or n (number); rest '*' repeats the last letter any number of times.
type Signature struct {
	Params string
	Opt    int
	Rest   bool
}

// Commands is the documented command set.
var Commands = map[string]Signature{
	"insert": {"s", 0, false}, "goto-char": {"n", 0, false}, "goto-line": {"n", 0, false},
	"search-forward": {"s", 0, false}, "search-backward": {"s", 0, false},
	"re-search-forward": {"s", 0, false}, "re-search-backward": {"s", 0, false},
	"beginning-of-line": {}, "end-of-line": {}, "beginning-of-buffer": {}, "end-of-buffer": {},
	"forward-char": {"n", 1, false}, "backward-char": {"n", 1, false},
	"forward-word": {"n", 1, false}, "backward-word": {"n", 1, false},
	"set-mark": {}, "set-mark-command": {"n", 1, false}, "exchange-point-and-mark": {},
	"mark-whole-buffer": {}, "mark-word": {}, "mark-line": {"n", 1, false},
	"replace-region": {"s", 0, false}, "replace-match": {"s", 0, false},
	"delete-char": {"n", 1, false}, "delete-backward-char": {"n", 1, false}, "delete-region": {},
	"delete-line": {"n", 1, false}, "kill-line": {"n", 1, false}, "kill-word": {"n", 1, false},
	"backward-kill-word": {"n", 1, false},
	"point":              {}, "mark": {}, "point-min": {}, "point-max": {}, "buffer-size": {},
	"line-number-at-pos": {}, "current-column": {}, "region-beginning": {}, "region-end": {},
	"buffer-substring": {"nn", 0, false}, "looking-at": {"s", 0, false}, "looking-back": {"s", 0, false},
	"length": {"s", 0, false}, "substring": {"snn", 1, false}, "concat": {"s", 1, true},
	"upcase": {"s", 0, false}, "downcase": {"s", 0, false}, "capitalize": {"s", 0, false},
	"string-match": {"ss", 0, false}, "replace-regexp-in-string": {"sss", 0, false},
}

// Accepts reports whether the argument values fit the signature.
func (g Signature) Accepts(args []any) bool {
	if len(args) < len(g.Params)-g.Opt {
		return false
	}
	if !g.Rest && len(args) > len(g.Params) {
		return false
	}
	for i, a := range args {
		k := g.Params[min(i, len(g.Params)-1)]
		switch a.(type) {
		case string:
			if k != 's' {
				return false
			}
		case float64:
			if k != 'n' {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// Eval evaluates one expression: value, resulting state, error class. A failing
// expression may have had effects through arguments evaluated before.
func Eval(s State, e any) (any, State, Err) {
	switch v := e.(type) {
	case string, float64:
		return v, s, OK
	case List:
		if len(v) == 0 {
			return nil, s, AnyErr
		}
		name, ok := v[0].(Sym)
		if !ok {
			return nil, s, AnyErr
		}
		if _, ok := Commands[string(name)]; !ok {
			return nil, s, AnyErr
		}
		args := make([]any, 0, len(v)-1)
		for _, a := range v[1:] {
			val, s2, err := Eval(s, a)
			s = s2
			if err != OK {
				return nil, s, err
			}
			args = append(args, val)
		}
		return Call(s, string(name), args)
	}
	return nil, s, AnyErr
}

// Call applies a command to argument values.
func Call(s State, name string, args []any) (any, State, Err) {
	if !Commands[name].Accepts(args) {
		return nil, s, AnyErr
	}
	t, p := s.Text, s.Point-1
	count := 1
	str := ""
	if len(args) > 0 {
		switch v := args[0].(type) {
		case float64:
			count = num(v)
		case string:
			str = v
		}
	}
	lo, hi := min(s.Point, s.M())-1, max(s.Point, s.M())-1
	var val any = ""
	before := s
	fail := func(e Err) (any, State, Err) { return nil, before, e }

	switch name {
	// movement
	case "goto-char":
		s.setPoint(clamp(count-1, 0, len(t)))
	case "forward-char":
		s.setPoint(clamp(p+count, 0, len(t)))
	case "backward-char":
		s.setPoint(clamp(p-count, 0, len(t)))
	case "beginning-of-buffer":
		s.setPoint(0)
	case "end-of-buffer":
		s.setPoint(len(t))
	case "beginning-of-line":
		s.setPoint(lineStart(t, p))
	case "end-of-line":
		s.setPoint(lineEnd(t, p))
	case "goto-line":
		starts := []int{0}
		for i := range []byte(t) {
			if t[i] == '\n' {
				starts = append(starts, i+1)
			}
		}
		s.setPoint(starts[clamp(count, 1, len(starts))-1])
	case "forward-word":
		s.setPoint(forwardWords(t, p, count))
	case "backward-word":
		s.setPoint(backwardWords(t, p, count))

	// mark and region
	case "set-mark":
		s.Mark = s.Point
	case "set-mark-command":
		s.Mark = s.Point
		if len(args) == 1 {
			s.Mark = clamp(count, 1, len(t)+1)
		}
	case "exchange-point-and-mark":
		s.Point, s.Mark = s.M(), s.Point
	case "mark-whole-buffer":
		s.setMark(0)
		s.setPoint(len(t))
	case "mark-word":
		if at(t, p) || at(t, p-1) { // the word point is in or touches
			a, b := p, p
			for !wordStart(t, a) {
				a--
			}
			for at(t, b) {
				b++
			}
			s.setMark(a)
			s.setPoint(b)
		} else if e := nextWordEnd(t, p); wordEnd(t, e) { // the next word
			s.setMark(prevWordStart(t, e))
			s.setPoint(e)
		} else { // no word: empty region
			s.setMark(p)
		}
	case "mark-line":
		s.setMark(lineStart(t, p))
		s.setPoint(afterLines(t, p, count))

	// editing
	case "insert":
		s.Text = t[:p] + str + t[p:]
		s.setPoint(p + len(str))
	case "delete-char":
		if count >= 1 {
			s.cut(p, min(p+count, len(t)))
		}
	case "delete-backward-char":
		if count >= 1 {
			a := max(p-count, 0)
			s.cut(a, p)
			s.setPoint(a)
		}
	case "delete-region":
		if lo < hi {
			s.cut(lo, hi)
			s.setPoint(lo)
		}
	case "replace-region":
		if lo < hi {
			s.Text = t[:lo] + str + t[hi:]
			s.setPoint(lo + len(str))
		}
	case "delete-line":
		if count >= 1 {
			a := lineStart(t, p)
			s.cut(a, afterLines(t, p, count))
			s.setPoint(a)
		}
	case "kill-line":
		if count == 1 {
			if e := lineEnd(t, p); e > p+1 {
				s.cut(p+1, e)
			}
		} else {
			s.cut(p, afterLines(t, p, count))
		}
	case "kill-word":
		s.cut(p, forwardWords(t, p, count))
	case "backward-kill-word":
		if count >= 1 {
			a := backwardWords(t, p, count)
			s.cut(a, min(p+1, len(t)))
			s.setPoint(a)
		}
	case "replace-match":
		if s.Match == "" || s.ME-1 > len(t) || t[s.MS-1:s.ME-1] != s.Match {
			return fail(AnyErr)
		}
		s.Text = t[:s.MS-1] + str + t[s.ME-1:]
		s.setPoint(s.MS - 1 + len(str))

	// search
	case "search-forward":
		found := -1
		for q := p; p < len(t) && q+len(str) <= len(t); q++ {
			if t[q:q+len(str)] == str {
				found = q
				break
			}
		}
		if found < 0 {
			return fail(SearchErr)
		}
		s.matched(found, found+len(str))
	case "search-backward":
		found := -1
		for q := p - len(str); q >= 0; q-- {
			if t[q:q+len(str)] == str {
				found = q
				break
			}
		}
		if found < 0 {
			return fail(SearchErr)
		}
		s.matched(found, found+len(str))
	case "re-search-forward":
		re := Regexp(str)
		if re == nil {
			return fail(AnyErr)
		}
		if p >= len(t) {
			return fail(SearchErr)
		}
		m := re.FindStringIndex(t[p:])
		if m == nil {
			return fail(SearchErr)
		}
		s.matched(p+m[0], p+m[1])
	case "re-search-backward":
		re := Regexp(str)
		if re == nil {
			return fail(AnyErr)
		}
		ms := re.FindAllStringIndex(t[:p], -1)
		if len(ms) == 0 {
			return fail(SearchErr)
		}
		m := ms[len(ms)-1]
		s.matched(m[0], m[1])

	// queries
	case "point":
		val = float64(s.Point)
	case "mark":
		val = float64(s.M())
	case "point-min":
		val = 1.0
	case "point-max":
		val = float64(len(t) + 1)
	case "buffer-size":
		val = float64(len(t))
	case "line-number-at-pos":
		val = float64(1 + strings.Count(t[:p], "\n"))
	case "current-column":
		val = float64(p - lineStart(t, p) + 1)
	case "region-beginning":
		val = float64(lo + 1)
	case "region-end":
		val = float64(hi + 1)
	case "buffer-substring":
		a, b := num(args[0]), num(args[1])
		if b == -1 {
			b = len(t) + 1
		}
		val = slice(t, a, b)
	case "looking-at":
		if p >= len(t) {
			val = Sym("nil")
		} else if re := Regexp(str); re == nil {
			val = boolSym(strings.HasPrefix(t[p:], str))
		} else {
			m := re.FindStringIndex(t[p:])
			val = boolSym(m != nil && m[0] == 0)
		}
	case "looking-back":
		if p == 0 {
			val = Sym("nil")
		} else if re := Regexp(str); re == nil {
			val = boolSym(strings.HasSuffix(t[:p], str))
		} else if anchored := Regexp("(?:" + str + ")\\z"); anchored != nil {
			val = boolSym(anchored.MatchString(t[:p]))
		} else {
			m := re.FindStringIndex(t[:p])
			val = boolSym(m != nil && m[1] == p)
		}

	// strings
	case "length":
		val = float64(len(str))
	case "substring":
		a, b := num(args[1]), len(str)+1
		if len(args) == 3 {
			b = num(args[2])
		}
		val = slice(str, a, b)
	case "concat":
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = a.(string)
		}
		val = strings.Join(parts, "")
	case "upcase":
		val = mapRunes(str, unicode.ToUpper)
	case "downcase":
		val = mapRunes(str, unicode.ToLower)
	case "capitalize":
		_, n := utf8.DecodeRuneInString(str)
		val = mapRunes(str[:n], unicode.ToUpper) + mapRunes(str[n:], unicode.ToLower)
	case "string-match":
		pat, subj := str, args[1].(string)
		i := -1
		if re := Regexp(pat); re == nil {
			i = strings.Index(subj, pat)
		} else if m := re.FindStringIndex(subj); m != nil {
			i = m[0]
		}
		val = Sym("nil")
		if i >= 0 {
			val = float64(i)
		}
	case "replace-regexp-in-string":
		re := Regexp(str)
		if re == nil {
			return fail(AnyErr)
		}
		val = re.ReplaceAllString(args[2].(string), args[1].(string))
	default:
		panic("harness: no model for " + name)
	}
	return val, s, OK
}

func (s *State) matched(a, b int) {
	s.Match, s.MS, s.ME = s.Text[a:b], a+1, b+1
	s.setPoint(b)
}

// slice is text between 1-based positions a and b, both limited to the text.
func slice(t string, a, b int) string {
	a, b = clamp(a, 1, len(t)+1), clamp(b, 1, len(t)+1)
	if a >= b {
		return ""
	}
	return t[a-1 : b-1]
}

// mapRunes maps character by character; valid UTF-8 assumed.
func mapRunes(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(f(r))
	}
	return b.String()
}

// Show renders an expression in S-expression syntax.
func Show(e any) string {
	switch v := e.(type) {
	case string:
		return strconv.Quote(v)
	case float64:
		return strconv.FormatFloat(v, 'g', -1, 64)
	case Sym:
		return string(v)
	case List:
		parts := make([]string, len(v))
		for i, x := range v {
			parts[i] = Show(x)
		}
		return "(" + strings.Join(parts, " ") + ")"
	case nil:
		return "<none>"
	}
	return "?"
}

// ShowProgram renders a program one instruction per line.
func ShowProgram(p []any) string {
	parts := make([]string, len(p))
	for i, x := range p {
		parts[i] = Show(x)
	}
	return strings.Join(parts, "\n")
}
