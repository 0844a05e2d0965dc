package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"verifmc/model"
)

// ways of writing one string literal
func quotings(s string) []string {
	plain := strconv.Quote(s)
	raw := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\r", `\r`).Replace(s) + `"`
	var esc strings.Builder
	esc.WriteByte('"')
	for _, r := range s {
		if r > 0xffff {
			fmt.Fprintf(&esc, `\U%08x`, r)
		} else {
			fmt.Fprintf(&esc, `\u%04x`, r)
		}
	}
	esc.WriteByte('"')
	var hex strings.Builder
	hex.WriteByte('"')
	for i := 0; i < len(s); i++ {
		if i%2 == 0 {
			fmt.Fprintf(&hex, `\x%02x`, s[i])
		} else {
			fmt.Fprintf(&hex, `\%03o`, s[i])
		}
	}
	hex.WriteByte('"')
	var oct strings.Builder
	oct.WriteByte('"')
	for i := 0; i < len(s); i++ {
		fmt.Fprintf(&oct, `\%03o`, s[i])
	}
	oct.WriteByte('"')
	return []string{plain, raw, esc.String(), hex.String(), oct.String()}
}

func numerals(f float64) []string {
	r := []string{strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'f', -1, 64), strconv.FormatFloat(f, 'e', -1, 64), strconv.FormatFloat(f, 'E', 17, 64)}
	if f == math.Trunc(f) && math.Abs(f) < 1e15 {
		r = append(r, strconv.Itoa(int(f)), fmt.Sprintf("%.1f", f))
		if f >= 0 {
			r = append(r, "+"+strconv.Itoa(int(f)), "0"+strconv.Itoa(int(f)))
		}
	}
	return r
}

// trees is every call with at most two arguments, nested up to three deep.
func trees(names ...string) (r []any) {
	leaves := []any{"a;(", 1.0}
	var grow func(depth int) []any
	grow = func(depth int) []any {
		args := append([]any{}, leaves...)
		if depth+1 < len(names) {
			args = append(args, grow(depth+1)...)
		}
		out := []any{c(names[depth])}
		for _, a := range args {
			out = append(out, c(names[depth], a))
			for _, b := range args {
				out = append(out, c(names[depth], a, b))
			}
		}
		return out
	}
	return grow(0)
}

// style of writing: which quoting, numeral and spacing.
type style struct{ quote, num, space int }

var spaces = []string{" ", "  ", "\t", " \t "}

func (st style) atom(e any) string {
	switch v := e.(type) {
	case string:
		q := quotings(v)
		return q[st.quote%len(q)]
	case float64:
		n := numerals(v)
		return n[st.num%len(n)]
	case model.Sym:
		return string(v)
	}
	return st.sexp(e)
}

func (st style) sexp(e any) string {
	l, ok := e.(model.List)
	if !ok {
		return st.atom(e)
	}
	sp := spaces[st.space%len(spaces)]
	var parts []string
	for _, x := range l {
		parts = append(parts, st.sexp(x))
	}
	if st.space >= len(spaces) {
		return "( " + strings.Join(parts, sp) + " )"
	}
	return "(" + strings.Join(parts, sp) + ")"
}

func (st style) line(e any) string {
	var parts []string
	for _, x := range e.(model.List) {
		parts = append(parts, st.atom(x))
	}
	return strings.Join(parts, spaces[st.space%len(spaces)])
}

func jsonOf(e any) any {
	switch v := e.(type) {
	case model.List:
		r := make([]any, len(v))
		for i, x := range v {
			r[i] = jsonOf(x)
		}
		return r
	case model.Sym:
		return string(v)
	}
	return e
}

func jsonText(e any) string {
	b, err := json.Marshal(jsonOf(e))
	if err != nil {
		panic("harness: " + err.Error())
	}
	return string(b)
}

// program texts: name of the syntax, format name, text
type text struct{ name, format, script string }

func joinAll(p []any, f func(any) string, sep string) string {
	parts := make([]string, len(p))
	for i, e := range p {
		parts[i] = f(e)
	}
	return strings.Join(parts, sep)
}

func renderings(p []any, st style) []text {
	jarr := "[" + joinAll(p, jsonText, ",") + "]"
	r := []text{
		{"lines", "shell", joinAll(p, st.line, "\n")},
		{"lines ending in CRLF", "shell", joinAll(p, st.line, "\r\n") + "\r\n"},
		{"lines with semicolons", "shell", joinAll(p, st.line, ";")},
		{"indented lines with blank lines", "shell", "\n  " + joinAll(p, st.line, " ; \n\n\t") + "\n ;\n"},
		{"S-expressions on lines", "sexp", joinAll(p, st.sexp, "\n")},
		{"S-expressions on one line", "sexp", joinAll(p, st.sexp, " ")},
		{"S-expressions without blanks", "sexp", joinAll(p, st.sexp, "")},
		{"S-expressions with semicolons", "sexp", joinAll(p, st.sexp, ";") + ";"},
		{"JSON array of commands", "json", jarr},
		{"JSON array of commands, spread out", "json", "\n[\n " + joinAll(p, jsonText, " ,\n ") + "\n]\n"},
	}
	if len(p) > 0 {
		r = append(r, text{"JSON commands on lines", "json", joinAll(p, jsonText, "\n") + "\n"}, text{"JSON commands on one line", "json", joinAll(p, jsonText, "")})
	}
	if len(p) > 1 {
		h := len(p) / 2
		r = append(r, text{"mixed lines and S-expressions", "shell", joinAll(p[:h], st.line, "\n") + "\n" + joinAll(p[h:], st.sexp, " ")})
	}
	return r
}

func c(name string, args ...any) model.List {
	return append(model.List{model.Sym(name)}, args...)
}

// strings that stress quoting and splitting
var literals = []string{"", "a", "hello world", "a;b", ";", "(", ")", "()", "a(b)c", `"`, `\`, `\"`, `a"b`, `\\`, "\n", "a\nb", "\r\n", "\t", " ", "  lead", "trail  ", "é", "日本語", "😀", "\u2028", "\u00a0", "\ufeff", "\x00", "\x7f", "\x1b[0m", "1", "-1", "nil", "[", "]", "[]", "{}", ",", "'", "`", "#", "# no comment", "; no comment", "$1", "%s %d %v", "%", "&<>", "\\n", "\\x41", "/path/to", "ß", "\ufffd", "e\u0301", "null", "true", "*", "a=b", "\"quoted\"", "tab\there", "ends with \\", "ends with \"", "\\;\"(", "a\\\";b"}

var numbers = []float64{0, 1, -1, 2, 10, 42, 0.5, -0.5, 1.5, 0.1, 3.14159, 1e3, 1e6, 123456, 1234567, 12345678, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e100, -1e21, 1e-3, 1e-5, 1e-6, 1e-7, 1.5e-10, 5e-324, math.MaxFloat64, 9007199254740991, 9007199254740993, 2147483647, 2147483648, 4294967296, 9223372036854775807, -9223372036854775808, 9.3e18, 0.30000000000000004, 1.0000000000000002, 100000000, 1048576, 1.7976931348623157e308, 123.456, 99999.5}
