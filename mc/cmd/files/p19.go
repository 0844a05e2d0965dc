package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"unicode/utf8"
	"verifmc/dict"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"verifmc/rep"
)

// front is one way to run a script on a text; ok is false when it failed.
type front struct {
	name string
	cli  bool
	odd  string // an unusual name used
	run  func(dir, text, scr, format string) (out string, ok bool, report string)
}

func fronts() []front { return frontsFor("in", "out", "s") }

// operand is the file as an argument that is no option.
func operand(n string) string {
	if strings.HasPrefix(n, "-") && n != "-" {
		return "./" + n
	}
	return n
}

// frontsFor are the front ends with the given names for the file, the output
// and the script.
func frontsFor(in, outName, scriptName string) []front {
	file := func(dir, text string) string {
		p := filepath.Join(dir, in)
		must(os.WriteFile(p, []byte(text), 0o644))
		return p
	}
	back := func(p string) string {
		b, err := os.ReadFile(p)
		must(err)
		return string(b)
	}
	cli := func(dir, stdin string, args ...string) ran {
		r := run(dir, stdin, args...)
		if r.crashed() {
			panic(r.Err)
		}
		return r
	}
	sh := func(f string) []string { return []string{"edit", "--format", f} }
	return []front{
		{"ExecuteScriptWithFormat", false, "", func(d, t, s, f string) (string, bool, string) {
			o, err := texted.ExecuteScriptWithFormat(t, s, f)
			return o, err == nil, fmt.Sprint(err)
		}},
		{"ExecuteScript", false, "", func(d, t, s, f string) (string, bool, string) {
			o, err := texted.ExecuteScript(t, s)
			return o, err == nil, fmt.Sprint(err)
		}},
		{"EditFile", false, "", func(d, t, s, f string) (string, bool, string) {
			p := file(d, t)
			err := texted.EditFile(p, s)
			return back(p), err == nil, fmt.Sprint(err)
		}},
		{"EditFileWithFormat", false, "", func(d, t, s, f string) (string, bool, string) {
			p := file(d, t)
			err := texted.EditFileWithFormat(p, s, f)
			return back(p), err == nil, fmt.Sprint(err)
		}},
		{"edit_file tool", false, "", func(d, t, s, f string) (string, bool, string) {
			p := file(d, t)
			a, isErr := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": s, "files": []any{p}})))
			return back(p), !isErr && len(lines(a, "✓ ")) == 1 && len(lines(a, "✗ ")) == 0, a
		}},
		{"texted_eval tool", false, "", func(d, t, s, f string) (string, bool, string) {
			a, isErr := said(tools.TextedEvalHandler(context.Background(), request(map[string]any{"script": s, "input": t})))
			return a, !isErr, a
		}},
		{"texted_eval tool, buffer", false, "", func(d, t, s, f string) (string, bool, string) {
			a, isErr := said(tools.TextedEvalHandler(context.Background(), request(map[string]any{"script": s, "input": t, "output": "buffer"})))
			return a, !isErr, a
		}},
		{"stdin to stdout", true, "", func(d, t, s, f string) (string, bool, string) {
			r := cli(d, t, append(sh(f), "-s", s)...)
			return r.Out, r.Exit == 0, r.Err
		}},
		{"file to stdout", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			r := cli(d, "ignored", append(sh(f), "-s", s, operand(in))...)
			return r.Out, r.Exit == 0, r.Err
		}},
		{"file to output file", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			r := cli(d, "", append(sh(f), "-s", s, "-o", outName, operand(in))...)
			return r.After[outName].Data, r.Exit == 0, r.Err
		}},
		{"stdin to output file", true, "", func(d, t, s, f string) (string, bool, string) {
			r := cli(d, t, append(sh(f), "-s", s, "-o", outName)...)
			return r.After[outName].Data, r.Exit == 0, r.Err
		}},
		{"in place", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			r := cli(d, "", append(sh(f), "-s", s, "-i", operand(in))...)
			return r.After[in].Data, r.Exit == 0, r.Err
		}},
		{"in place with backup", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			r := cli(d, "", append(sh(f), "-s", s, "-i", "--backup", ".b", operand(in))...)
			return r.After[in].Data, r.Exit == 0, r.Err
		}},
		{"script file", true, "", func(d, t, s, f string) (string, bool, string) {
			must(os.WriteFile(filepath.Join(d, scriptName), []byte(s), 0o644))
			r := cli(d, t, append(sh(f), "-f", scriptName)...)
			return r.Out, r.Exit == 0, r.Err
		}},
		{"text by a pipe as file", true, "", func(d, t, s, f string) (string, bool, string) {
			r := cli(d, t, append(sh(f), "-s", s, "/dev/stdin")...)
			return r.Out, r.Exit == 0, r.Err
		}},
		{"text by a pipe as file, to output file", true, "", func(d, t, s, f string) (string, bool, string) {
			r := cli(d, t, append(sh(f), "-s", s, "/dev/stdin", "-o", outName)...)
			return r.After[outName].Data, r.Exit == 0, r.Err
		}},
		{"script file that is a pipe", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			r := cli(d, s, append(sh(f), "-f", "/dev/stdin", operand(in))...)
			return r.Out, r.Exit == 0, r.Err
		}},
		{"script file, in place", true, "", func(d, t, s, f string) (string, bool, string) {
			file(d, t)
			must(os.WriteFile(filepath.Join(d, scriptName), []byte(s), 0o644))
			r := cli(d, t, "edit", "--"+f, "--file", scriptName, "--in-place", operand(in))
			return r.After[in].Data, r.Exit == 0, r.Err
		}},
	}
}

func runP19(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	fs := fronts()
	one := func(w int, fr front, text, s, f string) {
		if strings.Contains(s, "\x00") && fr.cli && !strings.HasPrefix(fr.name, "script file") {
			return // no such argument can be passed
		}
		want, err := direct(text, s, f)
		dir := sc.fresh(w, nil)
		var got, report string
		var ok bool
		chk.Begin(w, func() string { return fr.name + " " + s })
		pan := guard(func() { got, ok, report = fr.run(dir, text, s, f) })
		chk.End(w)
		chk.Transitions.Add(1)
		chk.Validated.Add(1)
		outs[w][fmt.Sprint(fr.name, " ok=", err == nil)]++
		v := &rep.Violation{Repro: map[string]any{"text": shortTail(text), "script": shortTail(s), "format": f, "front end": fr.name, "unusual name": fr.odd}, Expected: shortTail(want), Actual: shortTail(got)}
		switch {
		case pan != nil:
			v.What = fmt.Sprint("P19: panic ", pan)
		case ok != (err == nil):
			v.What, v.Expected, v.Actual = "P19: success differs", fmt.Sprint("error: ", err), fmt.Sprint("ok=", ok, " ", report)
		case ok && got != want:
			v.What = "P19: the resulting text differs"
		default:
			return
		}
		v.What += " (" + fr.name + ")"
		chk.Fail(v)
	}
	atoms := []command{insX, insMulti, insNul, toEnd, delAll, delOne, killLine, findA, replB, findNone, unknown, illTyped, query, nestIns, allRepl}
	texts := []string{"", "b a\n", "a", "\r\n a\r\n", "a\x00b", "é\na", "\xff\xfea", "a\n\n\n", " \t a", "%s %d a", "-n a", "a</text>&amp;", "\ufeffa", "日本\u2028a"}
	n := len(atoms)
	chk.Bound("texts", len(texts))
	chk.Bound("commands", n)
	chk.Bound("front ends", len(fs))
	chk.Parallel(n*n, func(w, i int) {
		p := []command{atoms[i/n], atoms[i%n]}
		for ti, t := range texts {
			chk.States.Add(1)
			for k, fr := range fs {
				if fr.cli && !chk.Thorough() && (i+ti+k)%4 != 0 {
					continue
				}
				f := formats[(i+ti+k)%3]
				one(w, fr, t, script(p, f), f)
			}
		}
		if i < n {
			for ti, t := range texts {
				for k, fr := range fs {
					f := formats[(i+ti+k)%3]
					one(w, fr, t, script([]command{atoms[i]}, f), f)
				}
			}
		}
	})
	chk.Parallel(n*n*n, func(w, i int) {
		p := []command{atoms[i/n/n], atoms[i/n%n], atoms[i%n]}
		for k, fr := range fs {
			if fr.cli && !chk.Thorough() {
				continue
			}
			f := formats[(i+k)%3]
			one(w, fr, texts[i%len(texts)], script(p, f), f)
		}
		chk.States.Add(1)
	})
	// scripts that a front end might read differently
	odd := []struct{ s, f string }{
		{"", "sexp"}, {"\n", "shell"}, {"  point  ", "shell"}, {"point\r\ninsert \"x\"\r\n", "shell"}, {"\ninsert \"x\"\n\n", "shell"}, {"insert \"a,b\"", "shell"}, {"insert \"%s\\n\"", "shell"}, {"insert \"'\"", "shell"}, {"insert \"[1]\"", "shell"},
		{" [\"insert\",\"x\"]", "json"}, {"\n[[\"insert\",\"x\"]]\n", "json"}, {"[\"insert\",\"x\"]\n[\"insert\",\"y\"]", "json"}, {"[]", "json"}, {"[\"insert\", \"\\u00e9\\n\"]", "json"},
		{"(insert \"x\")(insert \"y\")", "sexp"}, {"(insert\n\"x\")", "sexp"}, {"insert \"" + strings.Repeat("long;", 30000) + "\"", "shell"}, {"insert \"é日\"", "shell"}, {"insert \"-x\"", "shell"}, {"# no comment", "shell"}, {"\ufeffpoint", "shell"}, {"search-forward \"a", "shell"}, {"(point))", "sexp"}, {"[\"insert\"", "json"}, {"insert \"\\xff\"", "shell"}, {"re-search-forward \"(?m)^a$\"; replace-match \"$0\"", "shell"}, {"insert \"\xff\"", "shell"}, {"x" + strings.Repeat(" ", 200000), "shell"},
	}
	few := len(odd) // of the following ones, each is run on one text
	// text that other languages expand, include or skip: in a string, alone,
	// and at the start of a script
	os.Setenv("VX", "expanded")
	for _, x := range []string{"$VX", "${VX}", "$(echo x)", "`echo x`", "%VX%", "{{.VX}}", "{{VX}}", "<%= VX %>", "#{VX}", "@s", "<s", "~", "~/s", "*", "in*", "!!", "!1", "^a^b", "&amp;", "&#97;", "%41", "%20", "+", "=?utf-8?q?a?=", "\\u0041", "\\x41", "\\101", "\\e", "\\$VX", "$$", "$", "${", "$1", "${1}", "#", "# x", "//x", "/*x*/", "--x", ";x", "'x'", "x'y", "a=b", "a:b", "a|b", "a>out", "a&b", "a&&b", "?", "\x1b[0m", "\x00", "\x07", "\x7f", "\u200b", "\u00a0", "\u2028", "\ufeff", "\ufffd", "e\u0301", "é", "ﬁ", "İ", "\r", "\t", "\v", "\f", " ", "  ", "\r\n", "\n\n", "\n#x\n", "\n//x\n", "\n;x\n", "\n--\n", "\n.\n", "\nEOF\n", "\x04", "\x1a", "---", "...", "<<EOF", "include", "import x", "\\\n", "a\\\nb", "\n  x", "#!", "#!/usr/bin/env texted", "#!x", "#-*-", "%!PS", "<?xml?>", "// x", "-- x", "rem x", "exec x", "\"\"\"", "\f", "{", "}", "null", "true", "0", ";;; x", ";; -*- x -*-", ":x", "@echo off", "set -e", "exit", "quit", "q", "."} {
		j, err := json.Marshal([]string{"insert", x})
		must(err)
		esc := strings.NewReplacer("\\", "\\\\", "\"", "\\\"")
		odd = append(odd, []struct{ s, f string }{
			{"insert \"" + x + "\"", "shell"}, {"insert \"" + esc.Replace(x) + "\"; point", "shell"}, {"(insert \"" + esc.Replace(x) + "\")", "sexp"}, {string(j), "json"}, {x, "shell"}, {x + "\ninsert \"q\"", "shell"}, {"insert \"q\"\n" + x, "shell"}, {x + "\n(insert \"q\")", "sexp"}, {"[\"insert\",\"q\"]\n" + x, "json"},
		}...)
	}
	// a script in one syntax, said to be in another
	detects := map[string]bool{"ExecuteScript": true, "EditFile": true, "edit_file tool": true, "texted_eval tool": true, "texted_eval tool, buffer": true}
	for _, x := range []string{`["insert","q"]`, `[["insert","q"]]`, `[]`, `[insert "q"]`, `[`, `[]insert "q"`, ` ["insert","q"]`, "\n[[\"insert\",\"q\"]]", `{"insert":"q"}`, `"insert"`, `(insert "q")`, `((insert "q"))`, `insert "q"`, `;["insert","q"]`, `["insert" "q"]`, `[insert q]`, `[point]`, `["point"]`} {
		for _, f := range formats {
			odd = append(odd, struct{ s, f string }{x, f})
		}
	}
	for _, x := range dict.Texts() {
		j, err := json.Marshal([]string{"insert", x})
		must(err)
		odd = append(odd, []struct{ s, f string }{{x, "shell"}, {"insert " + strconv.Quote("[b] a "+x), "sexp"}, {string(j), "json"}, {"insert \"q\"; " + x, "shell"}}...)
	}
	for b := 0; b < 256; b++ {
		odd = append(odd, []struct{ s, f string }{{"insert \"" + string([]byte{byte(b)}) + "\"", "shell"}, {"insert \"a\\" + string([]byte{byte(b)}) + "b\"", "sexp"}}...)
	}
	chk.Family("unusual scripts", int64(len(odd)))
	chk.Parallel(len(odd), func(w, i int) {
		for ti, t := range append(texts[:6:6], strings.Repeat("b\r\n", 100000)+"a") {
			if i >= few && !chk.Thorough() && ti != i%6 {
				continue
			}
			for _, fr := range fs {
				if odd[i].s == "" && fr.cli && !strings.HasPrefix(fr.name, "script file") {
					continue // an empty -s counts as no script
				}
				if len(odd[i].s) > 100000 && fr.cli && !strings.HasPrefix(fr.name, "script file") {
					continue // too long for an argument
				}
				if detects[fr.name] && (strings.HasPrefix(strings.TrimSpace(odd[i].s), "[") != (odd[i].f == "json")) {
					continue // these take it as the other syntax
				}
				one(w, fr, t, odd[i].s, odd[i].f)
			}
			chk.States.Add(1)
		}
	})
	// odd names of the file, the output and the script
	chk.Family("unusual names", int64(len(oddNames)))
	chk.Parallel(len(oddNames), func(w, i int) {
		n := oddNames[i]
		for k, fs := range [][]front{frontsFor(n, "out", "s"), frontsFor("in", n, "s"), frontsFor("in", "out", n)} {
			for j, fr := range fs {
				if j < 7 && k > 0 {
					continue // neither an output nor a script file
				}
				fr.odd = n
				for ti, t := range []string{"b a\n", ""} {
					f := formats[(i+j+k+ti)%3]
					one(w, fr, t, script([]command{insX, findA, replB}[:1+2*(1-ti)], f), f)
				}
			}
		}
		chk.States.Add(1)
	})
	// large texts and large scripts
	sizes := append([]int{4096, 65535, 65536, 65537, 1 << 20, 1<<20 + 1, 1<<22 + 1}, dict.Around(100, 1<<25)...)
	if chk.Thorough() {
		sizes = append(sizes, 1<<24+1, 1<<26+1, 100000001)
	}
	chk.Bound("largest text", slices.Max(sizes))
	chk.Parallel(len(sizes)*len(fs), func(w, i int) {
		n, fr := sizes[i/len(fs)], fs[i%len(fs)]
		for k, unit := range []string{"xyz \n", "z", "é\r\n"} {
			if k > 0 && n > 1<<20+1 {
				continue
			}
			t := strings.Repeat(unit, n/len(unit))
			t += strings.Repeat("a", n-len(t))
			f := formats[(i+k)%3]
			one(w, fr, t, script([]command{toEnd, insX}, f), f)
			one(w, fr, t, script([]command{delOne, findNone}, f), f)
		}
		if !fr.cli || strings.HasPrefix(fr.name, "script file") || n < 120000 {
			for k, f := range formats {
				if k == i%3 || chk.Thorough() {
					long := script([]command{insX}, f)
					sep := map[bool]string{true: "\n", false: "; "}[f == "json"]
					if f == "sexp" {
						sep = " "
					}
					reps := min(n, 1<<18) / len(long+sep)
					one(w, fr, "a", strings.Repeat(long+sep, reps)+long, f)
					one(w, fr, "a", strings.Repeat(" ", min(n, 1<<22))+long, f)
					one(w, fr, "a", long+strings.Repeat("\n", n), f)
				}
			}
		}
		chk.States.Add(1)
	})
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(map[string]any{"script": script([]command{findA, replB}, "sexp"), "text": texts[3], "front ends": len(fs)})
	chk.Assume("the library, the edit_file tool and the texted_eval tool take text starting with [ as JSON, as documented; other front ends are told the format")
	_ = utf8.ValidString
}
