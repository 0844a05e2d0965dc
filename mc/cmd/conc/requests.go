//go:build sched

package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	et "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/tools"
	"github.com/mark3labs/mcp-go/mcp"
)

// request is something a server is asked to do. It works on its own files.
type request struct {
	name  string
	key   string // set for the requests that stand for their kind
	files []string
	run   func(r request) string
	root  string
	dir   string
	own   string // what the names of its files start with
	place string // where they are: a directory of their own, beside those of others, or the same named from the working directory
}

// at gives the request as the slot-th of those served together.
func (r request) at(slot int) request {
	switch r.dir, r.own = filepath.Join(r.root, fmt.Sprint("r", slot)), ""; r.place {
	case "beside":
		r.dir, r.own = filepath.Join(r.root, "all"), fmt.Sprint("s", slot)
	case "relative": // the working directory is the root
		r.dir, r.own = "all", fmt.Sprint("t", slot)
	}
	return r
}

// file is the path of its i-th file.
func (r request) file(i any) string { return filepath.Join(r.dir, fmt.Sprint(r.own, "f", i)) }

func (r request) prepare() {
	if len(r.files) == 0 {
		return
	}
	must(os.MkdirAll(r.dir, 0o755))
	for i, f := range r.files {
		must(os.WriteFile(r.file(i), []byte(f), 0o644))
	}
}

// after is what the files hold.
func (r request) after() string {
	s := ""
	for i := range r.files {
		b, err := os.ReadFile(r.file(i))
		s += fmt.Sprintf(" f%d=%q %v", i, b, err)
	}
	return s
}

func (r request) do(int) string {
	return strings.ReplaceAll(r.run(r), r.dir+"/"+r.own, "DIR/")
}

func call(h func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error), args map[string]any) string {
	var q mcp.CallToolRequest
	q.Params.Arguments = args
	r, err := h(context.Background(), q)
	if err != nil {
		return "error: " + err.Error()
	}
	s := fmt.Sprint("isError=", r.IsError)
	for _, c := range r.Content {
		if t, ok := c.(mcp.TextContent); ok {
			s += " " + t.Text
		}
	}
	return s
}

func show(vs []edlisp.Value, err error) string {
	s := ""
	for _, v := range vs {
		s += fmt.Sprint(v, " ")
	}
	return fmt.Sprintf("%s%v", s, err)
}

func requests(root string) []request {
	var rs []request
	add := func(key, name string, files []string, run func(r request) string) {
		rs = append(rs, request{name: name, key: key, files: files, run: run, root: root})
	}
	eval := func(key, name, input, script, output string) {
		add(key, "eval "+name, nil, func(request) string {
			a := map[string]any{"input": input, "script": script}
			if output != "" {
				a["output"] = output
			}
			return call(tools.TextedEvalHandler, a)
		})
	}
	eval("replace", "replace", "one two", `search-forward "two"; replace-match "2"; insert "!"`, "")
	eval("", "replace other", "two two", `search-forward "two"; replace-match "zwei"`, "buffer")
	// Siblings do the same with other arguments, so that what one of them left
	// behind would answer wrongly for the other.
	eval("regexp", "regexp", "ab12 cd34", `(re-search-forward "[0-9]+") (replace-match "#") (buffer-substring 1 -1)`, "expression")
	eval("", "other regexp", "ab12 cd34", `re-search-forward "[a-z]+$|cd"; insert "<"; buffer-substring 1 -1`, "expression")
	eval("", "regexp backwards", "ab12 cd34", `end-of-buffer; re-search-backward "[0-9]+"; insert "<"; buffer-substring 1 -1`, "expression")
	eval("", "other regexp backwards", "ab12 cd34", `end-of-buffer; re-search-backward "[a-z]+"; insert "<"; buffer-substring 1 -1`, "expression")
	eval("json", "json", "abc", `[["forward-char",2],["insert","x\ty"]]`, "")
	eval("", "other json", "abc", `[["end-of-buffer"],["insert","x\nz"],["delete-backward-char",2]]`, "")
	eval("mark", "mark", "one two\nthree\n", `forward-word; set-mark; end-of-line; delete-region; mark-word; buffer-substring 1 -1`, "expression")
	eval("", "other mark", "one two\nthree\n", `goto-line 2; mark-line; replace-region "x"; exchange-point-and-mark; insert "!"; buffer-substring 1 -1`, "expression")
	eval("error", "failing", "abc", `insert "x"; search-forward "zz"`, "")
	eval("", "failing elsewhere", "abcd", `goto-char 3; set-mark; goto-char 2; nope "zz"`, "")
	eval("", "failing search", "abcd", `search-forward "b"; re-search-forward "("`, "")
	eval("", "ill-formed", "abc", `insert "x`, "")
	// every value matters
	steps := func(key, name, input, script string) {
		add(key, "steps "+name, nil, func(request) string {
			vs, err := parser.ParseString(script)
			if err != nil {
				return err.Error()
			}
			env, b, s := edlisp.NewDefaultEnvironment(), edlisp.NewBuffer(input), ""
			for _, v := range vs {
				r, err := edlisp.Eval([]edlisp.Value{v}, env, b)
				s += fmt.Sprint(r, " ", err, " ", b.Point(), b.Mark(), "; ")
			}
			return s + b.String()
		})
	}
	steps("", "looking", "ab12 cd34", `looking-at "ab"; looking-at "[0-9]"; forward-word; looking-back "[a-z]"; looking-at " "`)
	steps("", "other looking", "ab12 cd34", `looking-at "[0-9]"; looking-at "a"; forward-word; looking-back "12"; looking-back "[a-z]+"`)
	steps("strings", "strings", "abc", `replace-regexp-in-string "b(.)" "<$1>" "abcabd"; string-match "b" "abc"; substring "hello" 1 3; upcase "aé"; downcase "AÉ"`)
	steps("", "other strings", "abc", `replace-regexp-in-string "[ab]" "<$0>" "abcabd"; string-match "^b" "abc"; string-match "c" "abc"; substring "hello" 2; capitalize "once UPON"; length "héllo"`)
	eval("", "lines", "one\ntwo\nthree", `goto-line 2; kill-line 1; delete-line; insert "."; buffer-substring 1 -1`, "expression")
	eval("", "position", "one\ntwo\nthree", `goto-char 7; line-number-at-pos`, "expression")
	eval("", "other position", "one\ntwo three", `goto-char 9; current-column`, "expression")
	eval("", "words", "one two three", `forward-word 2; kill-word; backward-word; backward-kill-word; upcase (buffer-substring 1 -1)`, "expression")
	eval("", "escapes", "", `insert "a\n\t\"\\b"; insert "\u00e9"`, "")
	eval("", "other escapes", "", `insert "\\\"\n"; insert "\x41\n"`, "")
	doc := func(key, name string, a map[string]any) {
		add(key, "doc "+name, nil, func(request) string { return call(tools.TextedDocHandler, a) })
	}
	doc("doc", "function", map[string]any{"function_name": "insert"})
	doc("", "other function", map[string]any{"function_name": "search-forward"})
	doc("", "unknown", map[string]any{"function_name": "search"})
	doc("category", "category", map[string]any{"category": "movement", "verbose": true})
	doc("", "unknown category", map[string]any{"category": "none"})
	edit := func(key, name, script string, loop bool, files ...string) {
		add(key, "edit "+name, files, func(r request) string {
			var fs []any
			for i := range files {
				fs = append(fs, r.file(i))
			}
			return call(tools.EditFileHandler, map[string]any{"script": script, "files": fs, "loopUntilError": loop})
		})
	}
	edit("edit", "files", `search-forward "a"; replace-match "b"`, false, "banana", "xyz")
	edit("", "in a loop", `search-forward "a"; replace-match "b"`, true, "aa")
	edit("", "missing", `insert "x"`, false, "x")
	rs[len(rs)-1].run = func(r request) string {
		return call(tools.EditFileHandler, map[string]any{"script": "insert \"x\"", "files": []any{r.file("none"), r.file(0)}})
	}
	edit("", "beside", `search-forward "a"; replace-match "longer"`, false, "banana")
	rs[len(rs)-1].place = "beside"
	edit("", "beside in a loop", `search-forward "a"; replace-match ""`, true, "xaya")
	rs[len(rs)-1].place = "beside"
	edit("", "from the working directory", `end-of-buffer; insert "end"`, false, "abc", "")
	rs[len(rs)-1].place = "relative"
	for _, p := range []struct{ key, f, s string }{
		{"parse", "shell", "insert \"a b\" # no\nforward-char 2; point"}, {"", "sexp", `(concat "x" (upcase "y") nil) ; c`}, {"parsejson", "json", `["concat","x",["upcase","y"]]`}, {"", "shell", `insert "x`},
	} {
		add(p.key, "parse "+p.f+" "+p.s, nil, func(request) string { return show(parser.ParseFormat(p.f, p.s)) })
	}
	add("json2", "parse a JSON script", nil, func(request) string { return show(parser.ParseJSONScript(`[["insert","a"],["point"]]`)) })
	for _, f := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON} {
		key := ""
		if f == writer.FormatShell {
			key = "write"
		}
		add(key, "convert to "+string(f), nil, func(request) string {
			vs, err := parser.ParseString("insert \"a b\\n\"; (concat \"x\" (upcase \"y\"))")
			if err != nil {
				return err.Error()
			}
			w, err := writer.NewWriter(f)
			if err != nil {
				return err.Error()
			}
			var b strings.Builder
			for _, v := range vs {
				if err := w.WriteValue(&b, v); err != nil {
					return err.Error()
				}
			}
			return b.String()
		})
	}
	add("trace", "evaluate with trace", nil, func(request) string {
		vs, err := parser.ParseString(`insert "ab"; backward-char; delete-char; mark-whole-buffer; looking-at "a"`)
		if err != nil {
			return err.Error()
		}
		b := edlisp.NewBuffer("xyz")
		s := ""
		v, err := edlisp.EvalWithTrace(vs, edlisp.NewDefaultEnvironment(), b, func(t *edlisp.TraceContext) {
			s += fmt.Sprint(t.Instruction, " ", t.Buffer.String(), t.Buffer.Point(), t.Buffer.Mark(), "; ")
		})
		return fmt.Sprint(s, v, err, b.String())
	})
	add("library", "execute a script", nil, func(request) string {
		s, err := texted.ExecuteScriptWithFormat("abc", `(goto-char 2) (insert "x")`, "sexp")
		return fmt.Sprint(s, err)
	})
	add("", "edit through the library", []string{"abc", "def"}, func(r request) string {
		rs, err := texted.EditFilesWithFormat([]string{r.file(0), r.file(1)}, `["insert","x"]["search-forward","d"]`, "json")
		return fmt.Sprint(rs, err)
	})
	add("test", "script test", nil, func(request) string {
		r := et.RunTest(&et.TestCase{Buffer: "abc", Input: et.Input{Text: `insert "x"; point`}, Output: "xabc", Result: et.Result{Text: "2"}}, edlisp.NewDefaultEnvironment())
		return fmt.Sprint(r.Passed, r.Error)
	})
	add("", "documentation in Go", nil, func(request) string {
		d, ok := edlisp.GetDocumentation("point")
		return fmt.Sprint(d.Name, ok, edlisp.GetCategories(), edlisp.GetRegisteredFunctionCount(), len(edlisp.GetDocumentationByCategory("search")))
	})
	return rs
}
