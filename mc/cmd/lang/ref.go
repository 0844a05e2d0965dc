package main

import (
	"encoding/json"
	"io"
	"strconv"
	"strings"
	"unicode"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/drive"
	"verifmc/model"
)

// refParse is the reference reader of line and S-expression scripts: one pass
// over the bytes of each line, all structure being ASCII. ok is false for text
// that is not a script.
func refParse(s string) (prog []any, ok bool) {
	for _, line := range strings.Split(s, "\n") {
		line = strings.TrimSuffix(line, "\r")
		start, quoted := 0, false
		for i := 0; i <= len(line); i++ {
			if i == len(line) || line[i] == ';' && !quoted {
				cmds, ok := refCommand(strings.TrimFunc(line[start:i], unicode.IsSpace))
				if !ok {
					return nil, false
				}
				prog = append(prog, cmds...)
				start = i + 1
				continue
			}
			switch line[i] {
			case '"':
				quoted = !quoted
			case '\\':
				if quoted {
					i++
					if i == len(line) {
						return nil, false // the string literal does not end
					}
				}
			}
		}
	}
	return prog, true
}

type reader struct {
	s     string
	i     int
	depth int
	bad   bool
}

func refCommand(s string) ([]any, bool) {
	r := &reader{s: s}
	var out []any
	if strings.HasPrefix(s, "(") {
		for r.skip(); r.i < len(s); r.skip() {
			if s[r.i] != '(' {
				return nil, false
			}
			out = append(out, r.expr())
			if r.bad {
				return nil, false
			}
		}
		return out, true
	}
	line := model.List{}
	for r.skip(); r.i < len(s); r.skip() {
		line = append(line, r.expr())
		if r.bad {
			return nil, false
		}
	}
	if len(line) == 0 {
		return nil, true
	}
	return []any{line}, true
}

func (r *reader) skip() {
	for r.i < len(r.s) && strings.IndexByte(" \t\n\r", r.s[r.i]) >= 0 {
		r.i++
	}
}

func (r *reader) expr() any {
	switch {
	case r.i >= len(r.s) || r.s[r.i] == ')':
		r.bad = true
		return nil
	case r.s[r.i] == '(':
		if r.depth++; r.depth > 10000 {
			r.bad = true
			return nil
		}
		r.i++
		l := model.List{}
		for r.skip(); r.i < len(r.s) && r.s[r.i] != ')'; r.skip() {
			l = append(l, r.expr())
			if r.bad {
				return nil
			}
		}
		if r.i >= len(r.s) {
			r.bad = true
			return nil
		}
		r.i++
		r.depth--
		return l
	}
	// a word: up to a blank or parenthesis outside quotes
	start, quoted := r.i, false
	for ; r.i < len(r.s); r.i++ {
		b := r.s[r.i]
		if b == '"' {
			quoted = !quoted
		} else if quoted && b == '\\' {
			r.i++
		} else if !quoted && strings.IndexByte(" \t\n\r()", b) >= 0 {
			break
		}
	}
	if quoted || r.i > len(r.s) {
		r.bad = true
		return nil
	}
	return r.word(r.s[start:r.i])
}

func (r *reader) word(w string) any {
	if w[0] == '"' && w[len(w)-1] == '"' {
		s, err := strconv.Unquote(w)
		if err != nil {
			r.bad = true
		}
		return s
	}
	if f, err := strconv.ParseFloat(w, 64); err == nil {
		return f
	}
	return model.Sym(w)
}

// refJSON is the reference reader of JSON scripts: one array of commands or a
// sequence of commands, each an array that starts with a name.
func refJSON(s string) ([]any, bool) {
	d := json.NewDecoder(strings.NewReader(s))
	var vals []any
	for {
		var v any
		err := d.Decode(&v)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, false
		}
		vals = append(vals, v)
	}
	if len(vals) == 0 {
		return nil, false
	}
	if len(vals) == 1 {
		if l, isList := vals[0].([]any); isList {
			if p, ok := jsonCommands(l); ok {
				return p, true
			}
		}
	}
	return jsonCommands(vals)
}

func jsonCommands(l []any) ([]any, bool) {
	prog := []any{}
	for _, v := range l {
		c, isList := v.([]any)
		if !isList {
			return nil, false
		}
		e, ok := jsonCall(c)
		if !ok {
			return nil, false
		}
		prog = append(prog, e)
	}
	return prog, true
}

func jsonCall(l []any) (any, bool) {
	out := model.List{}
	for i, v := range l {
		switch x := v.(type) {
		case string:
			if i == 0 {
				out = append(out, model.Sym(x))
			} else {
				out = append(out, x)
			}
		case float64:
			if i == 0 {
				return nil, false
			}
			out = append(out, x)
		case []any:
			if i == 0 {
				return nil, false
			}
			e, ok := jsonCall(x)
			if !ok {
				return nil, false
			}
			out = append(out, e)
		default:
			return nil, false
		}
	}
	return out, true
}

// from converts a parsed program.
func from(p []edlisp.Value) []any {
	r := make([]any, len(p))
	for i, v := range p {
		r[i] = drive.FromReal(v)
	}
	return r
}

func sameProg(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !drive.Same(a[i], b[i]) {
			return false
		}
	}
	return true
}
