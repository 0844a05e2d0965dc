package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/dict"
	"verifmc/rep"
)

// P29: sessions of the tool server. Every sequence of requests is sent to the
// real server on its standard input; the reference keeps the files and predicts
// each answer.

// answer is what the reference expects of one request.
type answer struct {
	none    bool                                 // a notification: no answer
	rpcErr  bool                                 // must be a protocol error
	failure bool                                 // must be marked as an error, either way
	open    bool                                 // anything, but one answer
	check   func(text string, raw string) string // "" if right
}

type mreq struct {
	name string
	// body gives the request without its id; files are relative to dir
	method string
	params string
	raw    string // sent as it is, instead
	noID   bool
	// act applies the request to the files and predicts the answer
	act func(w world) answer
}

func jsonText(v any) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// editAnswer is the reference of edit_file.
func editAnswer(w world, script, format string, files []string, loop bool) answer {
	rounds := 0
	failed := make([]bool, len(files))
	for {
		rounds++
		bad := false
		for i, f := range files {
			x, ok := w[f]
			failed[i] = true
			if ok && !x.Dir {
				if t, err := direct(x.Data, script, format); err == nil {
					x.Data = t
					w[f] = x
					failed[i] = false
				}
			}
			bad = bad || failed[i]
		}
		if !loop || bad {
			break
		}
		if rounds > 1000 {
			panic("harness: endless loop in the alphabet")
		}
	}
	return answer{check: func(text, raw string) string {
		if m := regexp.MustCompile(`after (\d+) iteration`).FindStringSubmatch(text); m == nil || m[1] != fmt.Sprint(rounds) {
			return fmt.Sprintf("%d iterations", rounds)
		}
		okLines, badLines := lines(text, "✓ "), lines(text, "✗ ")
		oi, bi := 0, 0
		for i, f := range files {
			if failed[i] {
				if bi >= len(badLines) || !strings.Contains(badLines[bi], f) {
					return f + " reported as failed"
				}
				bi++
			} else {
				if oi >= len(okLines) || !strings.Contains(okLines[oi], f) {
					return f + " reported as edited"
				}
				oi++
			}
		}
		if oi != len(okLines) || bi != len(badLines) {
			return "each file reported once"
		}
		if strings.Contains(firstLine(text), "errors") != (bi > 0) {
			return "the summary to say whether a file failed"
		}
		return ""
	}}
}

func call(tool string, args any) (string, string) {
	return "tools/call", jsonText(map[string]any{"name": tool, "arguments": args})
}

func evalReq(name string, args map[string]any, ans func() answer) mreq {
	m, p := call("PFXtexted_eval", args)
	return mreq{name: name, method: m, params: p, act: func(world) answer { return ans() }}
}

func textIs(want string) answer {
	return answer{check: func(text, raw string) string {
		if text != want {
			return fmt.Sprintf("%q", want)
		}
		return ""
	}}
}

func valueIs(input, script, format string) answer {
	prog, err := parse(script, format)
	must(err)
	v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(input))
	if err != nil {
		return answer{failure: true}
	}
	return answer{check: func(text, raw string) string {
		if !printed(text, v, "sexp") {
			return fmt.Sprint("the value ", v)
		}
		return ""
	}}
}

func buffer(input, script, format string) answer {
	t, err := direct(input, script, format)
	if err != nil {
		return answer{failure: true}
	}
	return textIs(t)
}

func both2(script, input string) func() answer {
	return func() answer { return buffer(input, script, "shell") }
}

// either is buffer, for a script that may be no script at all.
func either(script, input string) func() answer {
	return func() answer {
		if _, err := parse(script, "shell"); err != nil {
			return answer{failure: true}
		}
		return buffer(input, script, "shell")
	}
}

func docIs(args map[string]any) answer {
	want, isErr := docTool(args)
	if isErr {
		return answer{failure: true}
	}
	return textIs(want)
}

func mcpAlphabet() []mreq {
	rej := func() answer { return answer{failure: true} }
	edit := func(name, script, format string, files []string, extra map[string]any, loop bool) mreq {
		a := map[string]any{"script": script, "files": files}
		for k, v := range extra {
			a[k] = v
		}
		m, p := call("PFXedit_file", a)
		return mreq{name: name, method: m, params: p, act: func(w world) answer { return editAnswer(w, script, format, files, loop) }}
	}
	bad := func(name, tool string, args any) mreq {
		m, p := call(tool, args)
		return mreq{name: name, method: m, params: p, act: func(world) answer { return rej() }}
	}
	doc := func(name string, args map[string]any) mreq {
		m, p := call("PFXtexted_doc", args)
		return mreq{name: name, method: m, params: p, act: func(world) answer { return docIs(args) }}
	}
	both := func(s, i, f string) func() answer { return func() answer { return buffer(i, s, f) } }
	replace := `search-forward "a"; replace-match "b"`
	r := []mreq{
		edit("edit", replace, "shell", []string{"one"}, nil, false),
		edit("edit two, one missing", replace, "shell", []string{"missing", "two", "one"}, nil, false),
		edit("edit with JSON", `[["end-of-buffer"],["insert","a\n"]]`, "json", []string{"two"}, nil, false),
		edit("edit, loop", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": true}, true),
		edit("edit, failing script", `insert "q"; nope`, "shell", []string{"one", "two"}, nil, false),
		evalReq("eval", map[string]any{"input": "xay", "script": replace}, both(replace, "xay", "shell")),
		evalReq("eval, expression", map[string]any{"input": "xay", "script": `insert "é\n"; buffer-substring 1 -1`, "output": "expression"},
			func() answer { return valueIs("xay", `insert "é\n"; buffer-substring 1 -1`, "shell") }),
		evalReq("eval, failing", map[string]any{"input": "x", "script": replace}, both(replace, "x", "shell")),
		evalReq("eval, huge count", map[string]any{"input": "xay", "script": `delete-char 1e18; goto-line -1e300; delete-line 1e18`}, both(`delete-char 1e18; goto-line -1e300; delete-line 1e18`, "xay", "shell")),
		bad("eval without input", "PFXtexted_eval", map[string]any{"script": "point"}),
		doc("doc, all", map[string]any{}),
		doc("doc, name", map[string]any{"function_name": "insert"}),
		doc("doc, unknown", map[string]any{"function_name": "nope"}),
		bad("edit without files", "PFXedit_file", map[string]any{"script": "point"}),
		{name: "list", method: "tools/list", params: `{}`, act: func(world) answer {
			return answer{check: func(text, raw string) string {
				var l struct {
					Result struct {
						Tools []struct {
							Name        string
							InputSchema struct{ Required []string }
						}
					}
				}
				must(json.Unmarshal([]byte(raw), &l))
				got := []string{}
				for _, t := range l.Result.Tools {
					sort.Strings(t.InputSchema.Required)
					got = append(got, fmt.Sprint(t.Name, t.InputSchema.Required))
				}
				sort.Strings(got)
				want := `[PFXedit_file[files script] PFXtexted_doc[] PFXtexted_eval[input script]]`
				if fmt.Sprint(got) != want {
					return want
				}
				return ""
			}}
		}},
		{name: "unknown tool", method: "tools/call", params: `{"name":"PFXnope","arguments":{}}`, act: func(world) answer { return answer{rpcErr: true} }},
		{name: "malformed", raw: `{"jsonrpc":"2.0","id":ID,"method":`, act: func(world) answer { return answer{rpcErr: true} }},
		{name: "initialize", method: "initialize", params: `{"protocolVersion":"2025-03-26","capabilities":{},"clientInfo":{"name":"t","version":"1"}}`,
			act: func(world) answer {
				return answer{check: func(text, raw string) string {
					if !strings.Contains(raw, `"tools"`) || !strings.Contains(raw, `"serverInfo"`) {
						return "server information with the tools capability"
					}
					return ""
				}}
			}},
		// the rest only in shorter sessions
		{name: "initialized", method: "notifications/initialized", params: `{}`, noID: true, act: func(world) answer { return answer{none: true} }},
		{name: "ping", method: "ping", params: `{}`, act: func(world) answer { return answer{check: func(string, string) string { return "" }} }},
		{name: "unknown method", method: "tools/nope", params: `{}`, act: func(world) answer { return answer{rpcErr: true} }},
		{name: "call without params", method: "tools/call", params: `{}`, act: func(world) answer { return answer{rpcErr: true} }},
		{name: "wrong version", raw: `{"jsonrpc":"1.0","id":ID,"method":"ping"}`, act: func(world) answer { return answer{rpcErr: true} }},
		{name: "not an object", raw: `[1,2]`, act: func(world) answer { return answer{rpcErr: true} }},
		edit("edit, loop given as text", `delete-char; search-forward "a"`, "shell", []string{"two", "one"}, map[string]any{"loopUntilError": "true"}, true),
		edit("edit, loop given as the text false", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": "false"}, false),
		edit("edit, loop given as the text 0", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": "0"}, false),
		edit("edit, loop given as the text 1", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": "1"}, true),
		edit("edit, loop given as the text F", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": "F"}, false),
		edit("edit, loop given as the number 0", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": 0}, false),
		edit("edit, loop null", replace, "shell", []string{"one"}, map[string]any{"loopUntilError": nil}, false),
		edit("edit, loop false", replace, "shell", []string{"one", "one"}, map[string]any{"loopUntilError": false}, false),
		edit("edit a directory", `insert "z"`, "shell", []string{"d", "two"}, nil, false),
		edit("edit, unparsable", `insert "z`, "shell", []string{"two"}, nil, false),
		edit("edit, additional argument", `insert "z"`, "shell", []string{"two"}, map[string]any{"backup": true, "prefix": nil}, false),
		edit("edit, empty script", "", "shell", []string{"two"}, nil, false),
		bad("edit, files not a list", "PFXedit_file", map[string]any{"script": "point", "files": "one"}),
		bad("edit, a file not a string", "PFXedit_file", map[string]any{"script": `insert "z"`, "files": []any{"one", 3}}),
		bad("edit, no files", "PFXedit_file", map[string]any{"script": `insert "z"`, "files": []any{}}),
		bad("edit, script not a string", "PFXedit_file", map[string]any{"script": []any{"point"}, "files": []any{"one"}}),
		bad("edit, null", "PFXedit_file", map[string]any{"script": nil, "files": nil}),
		bad("edit, no arguments", "PFXedit_file", nil),
		bad("edit, list of arguments", "PFXedit_file", []any{"point", "one"}),
		bad("edit, text as arguments", "PFXedit_file", "one"),
		evalReq("eval, buffer", map[string]any{"input": "xay", "script": `["end-of-buffer"]["insert","a"]`, "output": "buffer"}, both(`["end-of-buffer"]["insert","a"]`, "xay", "json")),
		evalReq("eval, expression number", map[string]any{"input": "xay", "script": `["buffer-size"]`, "output": "expression"}, func() answer { return valueIs("xay", `["buffer-size"]`, "json") }),
		evalReq("eval, expression symbol", map[string]any{"input": "xay", "script": `looking-at "q"`, "output": "expression"}, func() answer { return valueIs("xay", `looking-at "q"`, "shell") }),
		evalReq("eval, failing expression", map[string]any{"input": "x", "script": `nope`, "output": "expression"}, func() answer { return answer{failure: true} }),
		evalReq("eval, unparsable expression", map[string]any{"input": "x", "script": `insert "`, "output": "expression"}, func() answer { return answer{failure: true} }),
		evalReq("eval, unparsable", map[string]any{"input": "x", "script": `(insert "a"`}, func() answer { return answer{failure: true} }),
		evalReq("eval, empty input", map[string]any{"input": "", "script": `insert "✓\t"`}, both(`insert "✓\t"`, "", "shell")),
		evalReq("eval, empty script", map[string]any{"input": "x\r\n", "script": ""}, both("", "x\r\n", "shell")),
		evalReq("eval, output not a string", map[string]any{"input": "x", "script": "point", "output": 1}, func() answer { return answer{open: true} }),
		bad("eval, unknown output", "PFXtexted_eval", map[string]any{"input": "x", "script": "point", "output": "Expression"}),
		bad("eval, empty output", "PFXtexted_eval", map[string]any{"input": "x", "script": "point", "output": ""}),
		bad("eval without script", "PFXtexted_eval", map[string]any{"input": "x"}),
		bad("eval, input not a string", "PFXtexted_eval", map[string]any{"input": 3, "script": "point"}),
		bad("eval, script null", "PFXtexted_eval", map[string]any{"input": "x", "script": nil}),
		bad("eval, no arguments", "PFXtexted_eval", nil),
		bad("eval, a number as arguments", "PFXtexted_eval", 7),
		doc("doc, verbose", map[string]any{"verbose": true}),
		doc("doc, verbose given as the text false", map[string]any{"verbose": "false", "category": "region"}),
		doc("doc, verbose false", map[string]any{"verbose": false, "category": "region"}),
		doc("doc, category", map[string]any{"category": "search"}),
		doc("doc, category verbose", map[string]any{"category": "region", "verbose": true}),
		doc("doc, unknown category", map[string]any{"category": "nope"}),
		doc("doc, name and category", map[string]any{"function_name": "insert", "category": "editing"}),
		bad("doc, name after a blank", "PFXtexted_doc", map[string]any{"function_name": " insert"}),
		bad("doc, name before a blank", "PFXtexted_doc", map[string]any{"function_name": "insert ", "verbose": true}),
		bad("doc, name in capitals", "PFXtexted_doc", map[string]any{"function_name": "INSERT"}),
		bad("doc, name with an underscore", "PFXtexted_doc", map[string]any{"function_name": "goto_char"}),
		bad("doc, unknown name", "PFXtexted_doc", map[string]any{"function_name": "inser"}),
		bad("doc, category in capitals", "PFXtexted_doc", map[string]any{"category": "Search"}),
		bad("doc, category after a blank", "PFXtexted_doc", map[string]any{"category": " search"}),
		bad("doc, name and category alike", "PFXtexted_doc", map[string]any{"function_name": "search", "category": "search"}),
		{name: "doc, name not a string", method: "tools/call", params: `{"name":"PFXtexted_doc","arguments":{"function_name":3}}`, act: func(world) answer { return answer{open: true} }},
	}
	return r
}

func runP29(c *rep.Check) {
	s := newScratch()
	defer s.done()
	base := world{"one": {Data: "aXa\na", Mode: 0o644}, "two": {Data: "", Mode: 0o600}, "d": {Dir: true}}
	reqs := mcpAlphabet()
	long := 18 // the first ones are used in sessions of three
	var sessions [][]int
	n := len(reqs)
	for a := 0; a < n; a++ {
		sessions = append(sessions, []int{a})
		for b := 0; b < n; b++ {
			sessions = append(sessions, []int{a, b})
		}
	}
	m := long
	if c.Thorough() {
		m = n
	}
	for a := 0; a < m; a++ {
		for b := 0; b < m; b++ {
			for d := 0; d < m; d++ {
				sessions = append(sessions, []int{a, b, d})
			}
		}
	}
	if c.Thorough() {
		for a := 0; a < long; a++ {
			for b := 0; b < long; b++ {
				for d := 0; d < long; d++ {
					for e := 0; e < long; e++ {
						sessions = append(sessions, []int{a, b, d, e})
					}
				}
			}
		}
	}
	// one long session: every ordered pair of requests follows each other
	var euler []int
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			euler = append(euler, a, b)
		}
	}
	sessions = append(sessions, euler)
	prefixes := []string{"", "t_"}
	if c.Thorough() {
		prefixes = append(prefixes, "my-", "edit_file")
	}
	// prefixes of every kind, for sessions of one request
	short := []string{"texted_", "texted", "texted_eval", "texted_eval_", "edit_file", "edit_file_", "edit", "edit_", "texted_doc", "t", "e", "my-", "_", "-", "a.b/", "T_", "éà", "x y", "%s", "prefix", "tool_", strings.Repeat("p", 200), "\\", "{\"", "--prefix", "0"}
	short = append(short, reqs[0].name[:1])
	single := n
	for range short {
		for a := 0; a < n; a++ {
			sessions = append(sessions, []int{a})
		}
	}
	firstShort := len(sessions) - len(short)*single
	// large arguments, one to a session
	var sizes []int
	for k := 9; k <= c.Pick(20, 23); k++ {
		sizes = append(sizes, 1<<k-1, 1<<k+1)
	}
	sizes = append(sizes, 1000000, 3000003)
	sizes = append(sizes, dict.Around(20, c.Pick(1<<22, 1<<24))...)
	firstLarge := len(reqs)
	for k, n := range sizes {
		line := []string{"abc é\n", "x", "\n", "\"\\<&>", "\u2028日"}[k%5]
		text := strings.Repeat(line, n/len(line)+1)[:n/len(line)*len(line)]
		reqs = append(reqs,
			evalReq(fmt.Sprint("eval of ", n, " bytes"), map[string]any{"input": text, "script": "end-of-buffer; insert \"!\""}, func() answer { return textIs(text + "!") }),
			evalReq(fmt.Sprint("eval of the end of ", n, " bytes"), map[string]any{"input": text, "script": "buffer-substring 2 -1", "output": "expression"},
				func() answer { return valueIs(text, "buffer-substring 2 -1", "shell") }),
			evalReq(fmt.Sprint("a script of ", n, " bytes"), map[string]any{"input": "x", "script": jsonText([]any{"insert", text})}, func() answer { return textIs(text + "x") }),
		)
		m, p := call("PFXedit_file", map[string]any{"script": jsonText([]any{"insert", text}), "files": []string{"one"}})
		script := jsonText([]any{"insert", text})
		reqs = append(reqs, mreq{name: fmt.Sprint("edit with a script of ", n, " bytes"), method: m, params: p, act: func(w world) answer { return editAnswer(w, script, "json", []string{"one"}, false) }})
	}
	for q := firstLarge; q < len(reqs); q++ {
		sessions = append(sessions, []int{q, 5, q})
	}
	// many files in one request
	for _, n := range []int{10, 100, 1000} {
		var fs []string
		for i := 0; i < n; i++ {
			fs = append(fs, []string{"one", "two", "missing", "d"}[i*7%4])
		}
		m, p := call("PFXedit_file", map[string]any{"script": `insert "z"`, "files": fs})
		reqs = append(reqs, mreq{name: fmt.Sprint("edit of ", n, " files"), method: m, params: p, act: func(w world) answer { return editAnswer(w, `insert "z"`, "shell", fs, false) }})
		sessions = append(sessions, []int{len(reqs) - 1})
	}
	// texts with unusual beginnings and ends, in every place
	edges := []string{"\r", "\n", "\r\n", "\n\r", " ", "\t", "\v", "\f", "\x00", "\ufeff", "\u00a0", "\u2028", "\u200b", "\x1a", "\x04", "\x1b", "\x7f", "\u0085", "\"", "'", "\\", ";", "#", "[", "{", "(", "<", "&", "%", "$", "é", "e\u0301", "😀", "\ufffd", "  ", "\n\n", "\n \n", "null", "```", "---"}
	mentioned := len(edges)
	for _, x := range dict.Texts() {
		if x != "" && utf8.ValidString(x) && !slices.Contains(edges, x) {
			edges = append(edges, x)
		}
	}
	for i, e := range edges {
		for k, t := range []string{e, e + "a", "a" + e, e + "a" + e, "a" + e + "b", e + e} {
			if i >= mentioned && k > 0 && !c.Thorough() {
				break
			}
			q := strconv.Quote(t)
			ins := jsonText([]any{"insert", t})
			firstEdge := len(reqs)
			reqs = append(reqs,
				evalReq(fmt.Sprintf("eval of %q", t), map[string]any{"input": t, "script": "end-of-buffer; insert \"!\""}, func() answer { return textIs(t + "!") }),
				evalReq(fmt.Sprintf("eval of %q, nothing", t), map[string]any{"input": t, "script": "point"}, func() answer { return textIs(t) }),
				evalReq(fmt.Sprintf("value of %q", t), map[string]any{"input": t, "script": "buffer-substring 1 -1", "output": "expression"}, func() answer { return valueIs(t, "buffer-substring 1 -1", "shell") }),
				evalReq(fmt.Sprintf("eval with %s", ins), map[string]any{"input": "x", "script": ins}, func() answer { return textIs(t + "x") }),
				evalReq(fmt.Sprintf("eval with insert %q", t), map[string]any{"input": "x", "script": "insert " + q}, both2("insert "+q, "x")),
				evalReq(fmt.Sprintf("value with %s", ins), map[string]any{"input": "x", "script": jsonText([]any{"concat", t, t}), "output": "expression"}, func() answer { return valueIs("x", jsonText([]any{"concat", t, t}), "json") }),
			)
			for _, scr := range []string{t + "insert \"q\"", "insert \"q\"" + t, "insert \"q\"\n" + t + "\ninsert \"r\""} {
				if e == "[" || e == "{" || strings.HasPrefix(strings.TrimSpace(scr), "[") {
					continue // might be taken as JSON
				}
				reqs = append(reqs, evalReq(fmt.Sprintf("eval with %q", scr), map[string]any{"input": "x", "script": scr}, either(scr, "x")))
			}
			m, p := call("PFXedit_file", map[string]any{"script": ins, "files": []string{"one", "two"}})
			reqs = append(reqs, mreq{name: fmt.Sprintf("edit with %s", ins), method: m, params: p, act: func(w world) answer { return editAnswer(w, ins, "json", []string{"one", "two"}, false) }})
			var s []int
			for q := firstEdge; q < len(reqs); q++ {
				s = append(s, q)
			}
			sessions = append(sessions, s)
			_ = k
		}
	}
	c.Family("texts with unusual beginnings and ends", int64(len(edges)*6))
	c.Bound("largest argument", slices.Max(sizes))
	c.Bound("prefixes", append(append([]string{}, prefixes...), short...))
	c.Bound("requests", n)
	c.Bound("session length", c.Pick(3, 4))
	c.Bound("sessions", len(sessions)*len(prefixes))
	c.Assume("Evaluation, editing and documentation in the harness process are decided by the other properties; here each answer is compared with them.",
		"Arguments with a usable default (output or function_name that is not a string) are left open.", "The server reads its requests one at a time from standard input.")
	c.Parallel(len(sessions)*len(prefixes), func(w, i int) {
		pfx := prefixes[i%len(prefixes)]
		sess := sessions[i/len(prefixes)]
		if k := i/len(prefixes) - firstShort; k >= 0 && k < len(short)*single {
			if i%len(prefixes) > 0 {
				return
			}
			pfx = short[k/single]
		}
		if len(sess) > 2 && len(sess) < 10 && (i/len(prefixes))%len(prefixes) != i%len(prefixes) {
			return // sessions of three or more with one of the prefixes
		}
		esc := jsonText(pfx)
		esc = esc[1 : len(esc)-1]
		dir := s.fresh(w, base)
		files := world{}
		for k, v := range base {
			files[k] = v
		}
		var in strings.Builder
		var want []answer
		var names []string
		for k, q := range sess {
			r := reqs[q]
			names = append(names, r.name)
			line := r.raw
			if line == "" {
				id := fmt.Sprintf(`"id":%d,`, k+1)
				if k%2 == 1 {
					id = fmt.Sprintf(`"id":"r%d",`, k+1)
				}
				if r.noID {
					id = ""
				}
				line = `{"jsonrpc":"2.0",` + id + `"method":"` + r.method + `","params":` + r.params + `}`
			}
			line = strings.ReplaceAll(line, "ID", fmt.Sprint(k+1))
			in.WriteString(strings.ReplaceAll(line, "PFX", esc) + "\n")
			want = append(want, r.act(files))
		}
		args := []string{"mcp"}
		if pfx != "" {
			args = append(args, "--prefix", pfx)
		}
		r := run(dir, in.String(), args...)
		c.States.Add(1)
		c.Transitions.Add(int64(len(sess)))
		show := names
		if len(show) > 10 {
			show = []string{"the long session"}
		}
		fail := func(what, exp, act string) {
			c.Fail(&rep.Violation{What: what, Repro: map[string]any{"args": args, "session": show, "input": clipTo(in.String(), 3000)}, Expected: exp, Actual: act})
		}
		if r.crashed() || r.Exit != 0 {
			fail("the server ends with an error", "exit 0 at the end of its input", fmt.Sprintf("exit %d %s", r.Exit, shortTail(r.Err)))
			return
		}
		outl := strings.Split(strings.TrimSuffix(r.Out, "\n"), "\n")
		if r.Out == "" {
			outl = nil
		}
		k := 0
		for j, a := range want {
			if a.none {
				continue
			}
			what := fmt.Sprintf("request %d (%s)", j+1, names[j])
			if k >= len(outl) {
				fail("a request is not answered", what, shortTail(r.Out))
				return
			}
			raw := outl[k]
			k++
			var msg struct {
				ID     any
				Error  *struct{ Message string }
				Result *struct {
					IsError bool
					Content []struct{ Type, Text string }
				}
			}
			if err := json.Unmarshal([]byte(raw), &msg); err != nil {
				fail("an answer is not JSON", what, raw)
				return
			}
			wantID := any(float64(j + 1))
			if j%2 == 1 {
				wantID = fmt.Sprintf("r%d", j+1)
			}
			if reqs[sess[j]].raw == "" && msg.ID != wantID {
				fail("an answer has another request's id", fmt.Sprint(what, " id ", wantID), raw)
				return
			}
			failed := msg.Error != nil || msg.Result != nil && msg.Result.IsError
			text := ""
			if msg.Result != nil && len(msg.Result.Content) == 1 {
				text = msg.Result.Content[0].Text
			}
			switch {
			case a.open:
			case a.rpcErr && msg.Error == nil:
				fail("a bad request is not answered with an error", what, raw)
			case a.failure && !failed:
				fail("a failure is not marked as an error", what, raw)
			case a.failure && msg.Error == nil && text == "":
				fail("a failure has no message", what, raw)
			case a.check != nil && failed:
				fail("a request fails that must succeed", what, raw)
			case a.check != nil:
				if e := a.check(text, strings.ReplaceAll(raw, `"name":"`+esc, `"name":"PFX`)); e != "" {
					fail("an answer does not carry the tool's result", what+": "+e, raw)
				}
			}
		}
		if k != len(outl) {
			fail("more answers than requests", fmt.Sprint(k), shortTail(r.Out))
		}
		if d := files.diff(r.After); d != "" {
			fail("a session leaves other files than its requests make: "+d, files.String(), r.After.String())
		}
		c.Validated.Add(1)
		if i%499 == 0 {
			c.Outcome(fmt.Sprint(names[0], "...", len(outl)))
			c.Sample(map[string]any{"session": show, "answers": clipTo(r.Out, 400)})
		}
	})
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
