package main

import (
	"context"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"verifmc/dict"
	"verifmc/rep"
)

// cmds are script commands in line, S-expression and JSON syntax.
type command [3]string

var formats = []string{"shell", "sexp", "json"}

// script joins commands in one syntax.
func script(cmds []command, format string) string {
	var parts []string
	for _, c := range cmds {
		for i, f := range formats {
			if f == format {
				parts = append(parts, c[i])
			}
		}
	}
	if format == "json" {
		return "[" + strings.Join(parts, ",") + "]"
	}
	return strings.Join(parts, "\n")
}

var (
	insX     = command{`insert "x"`, `(insert "x")`, `["insert","x"]`}
	insMulti = command{`insert "é\r\n;("`, `(insert "é\r\n;(")`, `["insert","é\r\n;("]`}
	insNul   = command{"insert \"\\x00\"", "(insert \"\\x00\")", `["insert","\u0000"]`}
	toEnd    = command{`end-of-buffer`, `(end-of-buffer)`, `["end-of-buffer"]`}
	delAll   = command{`delete-char 9000000000`, `(delete-char 9000000000)`, `["delete-char",9000000000]`}
	delOne   = command{`delete-char`, `(delete-char)`, `["delete-char"]`}
	killLine = command{`delete-line`, `(delete-line)`, `["delete-line"]`}
	findA    = command{`search-forward "a"`, `(search-forward "a")`, `["search-forward","a"]`}
	replB    = command{`replace-match "bb"`, `(replace-match "bb")`, `["replace-match","bb"]`}
	findNone = command{`search-forward "no such text"`, `(search-forward "no such text")`, `["search-forward","no such text"]`}
	unknown  = command{`no-such-function`, `(no-such-function)`, `["no-such-function"]`}
	illTyped = command{`insert 5`, `(insert 5)`, `["insert",5]`}
	query    = command{`point`, `(point)`, `["point"]`}
	nestIns  = command{`insert (buffer-substring 1 3)`, `(insert (buffer-substring 1 3))`, `["insert",["buffer-substring",1,3]]`}
	allRepl  = command{`mark-whole-buffer; replace-region "whole"`, `(mark-whole-buffer) (replace-region "whole")`, `["mark-whole-buffer"],["replace-region","whole"]`}
)

var badScripts = []struct{ script, format string }{
	{"insert \"x\"\ninsert \"y", "shell"}, {"insert \"x\"; )", "shell"}, {"(insert \"x\") (insert \"y\"", "sexp"}, {"(insert \"x\") junk", "sexp"},
	{`[["insert","x"],["insert","y"]`, "json"}, {`[["insert","x"],17]`, "json"}, {`[["insert","x"],["insert",true]]`, "json"}, {`{"a":1}`, "json"}, {"null", "json"},
}

// entry is one way of editing a file; it reports whether it claimed success.
type entry struct {
	name   string
	format string // "" for any
	edit   func(path, script, format string) (ok bool, report string)
}

func entries() []entry {
	errOf := func(err error) (bool, string) {
		if err != nil {
			return false, err.Error()
		}
		return true, ""
	}
	resOf := func(rs []texted.EditResult, err error) (bool, string) {
		if err != nil || len(rs) != 1 {
			return false, fmt.Sprintf("results %v, error %v", rs, err)
		}
		return rs[0].Success, fmt.Sprint(rs[0].Error)
	}
	return []entry{
		{"EditFile", "", func(p, s, f string) (bool, string) { return errOf(texted.EditFile(p, s)) }},
		{"EditFileWithFormat", "", func(p, s, f string) (bool, string) { return errOf(texted.EditFileWithFormat(p, s, f)) }},
		{"EditFiles", "", func(p, s, f string) (bool, string) { return resOf(texted.EditFiles([]string{p}, s)) }},
		{"EditFilesWithFormat", "", func(p, s, f string) (bool, string) {
			return resOf(texted.EditFilesWithFormat([]string{p}, s, f))
		}},
		{"edit_file tool", "", func(p, s, f string) (bool, string) {
			t, isErr := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": s, "files": []any{p}})))
			return !isErr && strings.Contains(t, "Successfully edited "+p) && len(lines(t, "✗ ")) == 0, t
		}},
	}
}

func runP16(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	ents := entries()
	atoms := []command{insX, insMulti, insNul, toEnd, delAll, delOne, killLine, findA, replB, findNone, unknown, illTyped, query, nestIns, allRepl}
	fails := func(what, name, scr, format string, before, want, got world, report string) {
		chk.Fail(&rep.Violation{What: "P16: " + what + " (" + name + ")", Repro: map[string]any{"script": scr, "format": format, "before": before.String(), "reported": report}, Expected: want.String(), Actual: got.String(),
			HowTo: []string{"texted edit -i --format FORMAT -s SCRIPT file"}})
	}
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	named := func(w int, e entry, name, data string, mode fs.FileMode, scr, format string) {
		before := world{name: {Data: data, Mode: mode}, "other": {Data: "other", Mode: 0o644}}
		dir := sc.fresh(w, before)
		want, err := direct(data, scr, format)
		var ok bool
		var report string
		chk.Begin(w, func() string { return e.name + " " + scr })
		if p := guard(func() { ok, report = e.edit(filepath.Join(dir, name), scr, format) }); p != nil {
			fails(fmt.Sprint("panic ", p), e.name, scr, format, before, before, look(dir), report)
		}
		chk.End(w)
		after := look(dir)
		wanted := before
		if err == nil {
			wanted = before.with(name, file{Data: want, Mode: mode})
			outs[w][e.name+" success"]++
		} else {
			outs[w][e.name+" failure"]++
		}
		chk.Transitions.Add(1)
		chk.Validated.Add(1)
		if d := wanted.diff(after); d != "" {
			what := "a failing script changed the file"
			if err == nil {
				what = "the file does not hold the result"
			}
			if d != name {
				what = "another file changed: " + d
			}
			fails(what, e.name, scr, format, before, wanted, after, report)
		}
		if ok != (err == nil) {
			fails("success is reported wrongly", e.name, scr, format, before, wanted, after, report)
		}
	}
	check := func(w int, e entry, data string, mode fs.FileMode, scr, format string) {
		named(w, e, "f", data, mode, scr, format)
	}
	viaCommand := entry{"texted edit -i", "", nil}
	cli := func(w int, data string, mode fs.FileMode, scr, format string, extra ...string) {
		args := append([]string{"edit", "-i", "--format", format}, extra...)
		c := viaCommand
		c.edit = func(p, s, f string) (bool, string) {
			r := run(filepath.Dir(p), "", append(args, "-s", s, "f")...)
			if r.crashed() {
				fails("crash", "texted edit -i", s, f, world{"f": {Data: data, Mode: mode}}, nil, r.After, r.Err)
			}
			return r.Exit == 0, r.Out + r.Err
		}
		if scr != "" {
			check(w, c, data, mode, scr, format)
		}
	}

	// every small file content with every command
	contents := alpha([]string{"a", "\n", "\r", "\x00", "\xff", "é"}, chk.Pick(3, 4))
	contents = append(contents, "\ufeffa", "a\x1a", "\xe9", "a\nb\n", "line\r\nline\r\n", "no newline at end", "é\nü", "\u2028a", "\x80\x81a", "  a  ", "\n\n\na\n\n")
	chk.Bound("file contents", len(contents))
	chk.Bound("commands", len(atoms))
	chk.Parallel(len(contents), func(w, i int) {
		chk.States.Add(1)
		for j, a := range atoms {
			e := ents[(i+j)%len(ents)]
			check(w, e, contents[i], 0o644, script([]command{a}, formats[(i+j)%3]), formats[(i+j)%3])
			if chk.Thorough() {
				for _, e := range ents {
					check(w, e, contents[i], 0o600, script([]command{a, insX}, formats[i%3]), formats[i%3])
				}
			}
		}
	})
	// every script of up to three commands, failing anywhere
	texts := []string{"a b\nab", "", "no such text\n"}
	n := len(atoms)
	depth := chk.Pick(3, 3)
	chk.Bound("commands per script", depth)
	chk.Parallel(n*n*n, func(w, i int) {
		p := []command{atoms[i/n/n], atoms[i/n%n], atoms[i%n]}
		chk.States.Add(1)
		for k, f := range formats {
			e := ents[(i+k)%len(ents)]
			check(w, e, texts[i%len(texts)], 0o644, script(p, f), f)
		}
		if i < n*n {
			for k, e := range ents {
				f := formats[(i+k)%3]
				check(w, e, texts[k%len(texts)], 0o640, script([]command{atoms[i/n], atoms[i%n]}, f), f)
			}
		}
	})
	// odd names
	odd := moreNames()
	chk.Family("unusual file names", int64(len(odd)))
	chk.Parallel(len(odd), func(w, i int) {
		c := entry{name: "texted edit -i", edit: func(p, s, f string) (bool, string) {
			r := run(filepath.Dir(p), "", "edit", "-i", "--format", f, "-s", s, "--", filepath.Base(p))
			return r.Exit == 0, r.Out + r.Err
		}}
		for k, e := range append([]entry{c}, ents...) {
			for _, p := range [][]command{{insX}, {findA, replB}, {insX, findNone}} {
				named(w, e, odd[i], "xa\n", 0o644, script(p, formats[(i+k)%3]), formats[(i+k)%3])
			}
		}
		chk.States.Add(1)
	})
	// permissions
	modes := []fs.FileMode{0o644, 0o600, 0o666, 0o755, 0o640, 0o444, 0o400, 0o777, 0o604, 0o200, 0o222, 0o711}
	for mi, m := range modes {
		for _, p := range [][]command{{insX}, {delAll}, {findNone}, {insX, findNone}, {query}} {
			for k, e := range ents {
				check(0, e, "some a\n", m, script(p, formats[(k+mi)%3]), formats[(k+mi)%3])
			}
			for k, f := range formats {
				if (k+mi)%3 == 0 || chk.Thorough() {
					cli(0, "some a\n", m, script(p, f), f)
				}
			}
			chk.States.Add(1)
		}
	}
	chk.Bound("permissions", len(modes))
	// text that is no script, everywhere
	for _, b := range badScripts {
		for _, e := range ents {
			if b.format == "json" && b.script[0] != '[' && !strings.Contains(e.name, "Format") {
				continue
			}
			check(0, e, "some a\n", 0o644, b.script, b.format)
		}
		cli(0, "some a\n", 0o644, b.script, b.format)
		cli(0, "some a\n", 0o600, b.script, b.format, "-q")
		cli(0, "some a\n", 0o644, b.script, b.format, "-v")
	}
	// sizes: longer and shorter results around buffer and block sizes
	var sizes []int
	for _, k := range []int{9, 12, 13, 15, 16, 17, 20, chk.Pick(20, 24)} {
		for d := -1; d <= 1; d++ {
			sizes = append(sizes, 1<<k+d)
		}
	}
	for _, n := range dict.Around(20, 1<<24) {
		if !slices.Contains(sizes, n) {
			sizes = append(sizes, n)
		}
	}
	chk.Bound("largest file", slices.Max(sizes))
	chk.Parallel(len(sizes), func(w, i int) {
		data := strings.Repeat("0123456789abcde\n", sizes[i]/16+1)[:sizes[i]]
		chk.States.Add(1)
		for k, p := range [][]command{{toEnd, insX}, {insX}, {delOne}, {killLine}, {delAll}, {toEnd, insMulti, findNone}, {toEnd, nestIns}, {allRepl}, {query}} {
			f := formats[k%3]
			check(w, ents[(i+k)%len(ents)], data, 0o644, script(p, f), f)
			cli(w, data, 0o644, script(p, f), f)
		}
	})
	// results of the length of the original, differing from it at one place only
	type spot struct{ size, at int }
	var spots []spot
	for _, n := range []int{1, 2, 3, 63, 64, 65, 511, 512, 1023, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12289, 16383, 16385, 20001, 65535, 65537, 131073, 1<<20 + 1} {
		for _, at := range []int{0, 1, n / 4, n / 3, n / 2, n - n/4, n - 2, n - 1} {
			if at >= 0 && at < n {
				spots = append(spots, spot{n, at})
			}
		}
	}
	chk.Family("same-length changes at one place", int64(len(spots)))
	chk.Parallel(len(spots), func(w, i int) {
		x := spots[i]
		data := strings.Repeat("0123456789abcde\n", x.size/16+1)[:x.size]
		g := fmt.Sprint(x.at + 1)
		p := []command{{"goto-char " + g, "(goto-char " + g + ")", `["goto-char",` + g + "]"}, delOne, {`insert "Z"`, `(insert "Z")`, `["insert","Z"]`}}
		for k, f := range formats {
			check(w, ents[(i+k)%len(ents)], data, 0o644, script(p, f), f)
		}
		check(w, ents[i%2], data, 0o644, script(p, "shell"), "shell")
		cli(w, data, 0o644, script(p, formats[i%3]), formats[i%3])
		chk.States.Add(1)
	})
	// the special permission bits are what a plain write of the file leaves here
	for m := fs.FileMode(0); m < 8; m++ {
		for _, base := range []fs.FileMode{0o644, 0o755, 0o600} {
			mode := base | []fs.FileMode{0, fs.ModeSticky}[m&1] | []fs.FileMode{0, fs.ModeSetgid}[m>>1&1] | []fs.FileMode{0, fs.ModeSetuid}[m>>2&1]
			for _, e := range append([]entry{{"texted edit -i", "", func(p, s, f string) (bool, string) {
				r := run(filepath.Dir(p), "", "edit", "-i", "--format", f, "-s", s, "f")
				return r.Exit == 0, r.Out + r.Err
			}}}, ents...) {
				for _, c := range []command{insX, findNone} {
					var got [2]fs.FileMode
					for k := range got {
						p := filepath.Join(sc.fresh(0, world{"f": {Data: "some a\n", Mode: 0o644}}), "f")
						must(os.Chmod(p, mode))
						switch {
						case k == 1:
							e.edit(p, script([]command{c}, "shell"), "shell")
						case c == insX:
							must(os.WriteFile(p, []byte("xsome a\n"), 0o644))
						}
						st, err := os.Lstat(p)
						must(err)
						got[k] = st.Mode()
					}
					chk.Transitions.Add(1)
					if got[0] != got[1] {
						chk.Fail(&rep.Violation{What: "P16: the permissions of the file changed (" + e.name + ")", Repro: fmt.Sprint(mode, " ", c[0]), Expected: got[0].String(), Actual: got[1].String()})
					}
				}
			}
			chk.States.Add(1)
		}
	}
	// the command line on every pair of commands
	chk.Parallel(n*n, func(w, i int) {
		f := formats[(i+i/n)%3]
		p := script([]command{atoms[i/n], atoms[i%n]}, f)
		cli(w, texts[i%3], 0o644, p, f)
		if i%n < 3 || chk.Thorough() {
			cli(w, contents[i%len(contents)], 0o644, p, f, "-q")
			cli(w, contents[(i*7)%len(contents)], 0o644, p, f, "--verbose")
		}
		chk.States.Add(1)
	})
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(map[string]any{"content": contents[50], "script": script([]command{findA, replB}, "json")})
	chk.Assume("the result of a script is that of evaluating the parsed program directly on the content (decided by P03 to P10 and P13)", "the checks run as root: files it may not read or write are covered by P21's injected failures", "no other process changes the files")
}
