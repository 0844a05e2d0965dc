package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"verifmc/dict"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"verifmc/rep"
)

// member is one file of a request.
type member struct {
	name string
	f    file
	gone bool
}

func runP17(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	// kinds of files; %d is the place in the request
	kinds := []func(i int) member{
		func(i int) member {
			return member{fmt.Sprintf("two%d.txt", i), file{Data: fmt.Sprintf("a%d a\n", i), Mode: 0o644}, false}
		},
		func(i int) member {
			return member{fmt.Sprintf("one%d.txt", i), file{Data: fmt.Sprintf("%da", i), Mode: 0o600}, false}
		},
		func(i int) member {
			return member{fmt.Sprintf("none%d.txt", i), file{Data: fmt.Sprintf("%d\n", i), Mode: 0o644}, false}
		},
		func(i int) member { return member{fmt.Sprintf("gone%d.txt", i), file{}, true} },
		func(i int) member { return member{fmt.Sprintf("dir%d", i), file{Dir: true}, false} },
		func(i int) member { return member{fmt.Sprintf("file/below%d", i), file{}, true} },
		func(i int) member { return member{fmt.Sprintf("empty%d", i), file{Mode: 0o644}, false} },
		func(i int) member {
			return member{fmt.Sprintf("sp ace%d;é", i), file{Data: "aaa", Mode: 0o755}, false}
		},
	}
	scripts := []struct{ s, f string }{
		{script([]command{findA, replB, findA, insX}, "shell"), "shell"},
		{script([]command{insX}, "sexp"), "sexp"},
		{script([]command{insX, findA}, "json"), "json"},
		{script([]command{insX, unknown}, "shell"), "shell"},
		{script([]command{query}, "sexp"), "sexp"},
		{"insert \"x", "shell"},
	}
	type way struct {
		name   string
		backup bool
		lib    func(files []string, s, f string) ([]texted.EditResult, error)
		cli    []string
		spell  func(dir, name string) string // another name of the same file
	}
	ways := []way{
		{name: "EditFiles", lib: func(fs []string, s, f string) ([]texted.EditResult, error) { return texted.EditFiles(fs, s) }},
		{name: "EditFilesWithFormat", lib: texted.EditFilesWithFormat},
		{name: "edit_file tool"},
		{name: "texted edit -i", cli: []string{"-i"}},
		{name: "texted edit -i --backup", backup: true, cli: []string{"-i", "--backup", ".orig"}},
		{name: "texted edit -i -q", cli: []string{"-i", "-q"}},
		{name: "texted edit -i -v --backup", backup: true, cli: []string{"-v", "-i", "--backup=.orig"}},
	}
	check := func(w int, ms []member, scr, format string, y way) {
		before := world{"file": {Data: "plain", Mode: 0o644}, "bystander": {Data: "a a a", Mode: 0o644}}
		var paths []string
		for _, m := range ms {
			if !m.gone {
				before[m.name] = m.f
			}
		}
		dir := filepath.Join(sc.root, fmt.Sprint("w", w))
		given := make([]string, len(ms)) // on the command line
		for i, m := range ms {
			paths = append(paths, filepath.Join(dir, m.name))
			given[i] = m.name
			if y.spell != nil {
				before["sub"] = file{Dir: true}
				paths[i], given[i] = y.spell(dir+"/", m.name), y.spell("", m.name)
			}
		}
		// what each file gives alone, one after the other
		want := before.with("", file{})
		delete(want, "")
		oks := make([]bool, len(ms))
		reasons := make([]string, len(ms))
		anyFailed := false
		for i, m := range ms {
			cur := want[m.name]
			var err error
			var text string
			if m.gone || cur.Dir {
				err = fmt.Errorf("unreadable")
			} else {
				text, err = direct(cur.Data, scr, format)
			}
			if err == nil {
				oks[i] = true
				want[m.name] = file{Data: text, Mode: cur.Mode}
				if _, ok := want[m.name+".orig"]; y.backup && !ok { // of a file given twice: the original
					want[m.name+".orig"] = file{Data: cur.Data, Mode: 0o644}
				}
			} else {
				anyFailed = true
				reasons[i] = err.Error()
				if !m.gone && !cur.Dir { // what the file alone reports
					alone := world{m.name: cur}
					if y.spell != nil {
						alone["sub"] = file{Dir: true}
					}
					sc.fresh(w, alone)
					if e := texted.EditFileWithFormat(paths[i], scr, format); e != nil {
						reasons[i] = e.Error()
					}
				} else {
					reasons[i] = map[bool]string{true: "no such file or directory", false: "is a directory"}[m.gone]
					if strings.HasPrefix(m.name, "file/") {
						reasons[i] = "not a directory"
					}
				}
			}
		}
		sc.fresh(w, before)
		chk.Transitions.Add(1)
		chk.Validated.Add(1)
		outs[w][fmt.Sprint(y.name, " ", oks)]++
		bad := func(what, exp, act string) {
			var names []string
			for i := range ms {
				names = append(names, given[i])
			}
			chk.Fail(&rep.Violation{What: "P17: " + what + " (" + y.name + ")", Repro: map[string]any{"files": names, "before": before.String(), "script": scr, "format": format}, Expected: exp, Actual: act})
		}
		var report string
		var failed bool
		describe := fmt.Sprint(y.name, paths, scr)
		chk.Begin(w, func() string { return describe })
		pan := guard(func() {
			switch {
			case y.lib != nil:
				rs, err := y.lib(paths, scr, format)
				if err != nil {
					bad("the request as a whole failed", "one result per file", err.Error())
				}
				if len(rs) != len(ms) {
					bad("wrong number of results", fmt.Sprint(len(ms)), fmt.Sprint(rs))
					return
				}
				for i, r := range rs {
					if r.Filename != paths[i] || r.Success != oks[i] || (r.Error == nil) != oks[i] {
						bad(fmt.Sprintf("result %d is wrong", i), fmt.Sprintf("%s success=%v %s", paths[i], oks[i], reasons[i]), fmt.Sprintf("%+v", r))
					} else if !oks[i] && !strings.Contains(r.Error.Error(), reasons[i]) {
						bad(fmt.Sprintf("result %d gives the wrong reason", i), reasons[i], r.Error.Error())
					}
				}
			case y.cli != nil:
				args := append([]string{"edit"}, y.cli...)
				end := len(args) - 1
				if args[end] == "--" {
					args = append(args[:end], "--format", format, "-s", scr, "--")
				} else {
					args = append(args, "--format", format, "-s", scr)
				}
				args = append(args, given...)
				r := run(dir, "", args...)
				if r.crashed() {
					bad("crash", "", r.Err)
				}
				report, failed = r.Out, r.Exit != 0
				if failed != anyFailed {
					bad("wrong exit status", fmt.Sprint("failed ", anyFailed), fmt.Sprintf("exit %d: %s %s", r.Exit, r.Out, r.Err))
				}
				if y.name == "texted edit -i -q" {
					return
				}
				marks := lines(report, "✓ ", "✗ ")
				if len(marks) != len(ms) {
					bad("not one report per file", fmt.Sprint(len(ms)), report)
					return
				}
				for i, l := range marks {
					if strings.HasPrefix(l, "✓ ") != oks[i] || !strings.Contains(l, given[i]) {
						bad(fmt.Sprintf("report %d is wrong", i), fmt.Sprintf("%s success=%v %s", given[i], oks[i], reasons[i]), l)
					} else if !oks[i] && !strings.Contains(l, reasons[i]) {
						bad(fmt.Sprintf("report %d gives the wrong reason", i), reasons[i], l)
					}
				}
			default:
				fs := make([]any, len(paths))
				for i, p := range paths {
					fs[i] = p
				}
				t, isErr := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": scr, "files": fs})))
				report = t
				if strings.Contains(firstLine(t), "with errors") == !anyFailed || isErr && !anyFailed {
					bad("the answer as a whole is wrong", fmt.Sprint("failed ", anyFailed), t)
				}
				ticks, crosses := lines(t, "✓ "), lines(t, "✗ ")
				var wt, wc []int
				for i := range ms {
					if oks[i] {
						wt = append(wt, i)
					} else {
						wc = append(wc, i)
					}
				}
				if len(ticks) != len(wt) || len(crosses) != len(wc) {
					bad("not one report per file", fmt.Sprint(oks), t)
					return
				}
				for k, i := range wt {
					if !strings.HasSuffix(ticks[k], paths[i]) {
						bad("a success is reported wrongly", paths[i], t)
					}
				}
				for k, i := range wc {
					if !strings.Contains(crosses[k], paths[i]) || !strings.Contains(crosses[k], reasons[i]) {
						bad("a failure is reported wrongly", paths[i]+": "+reasons[i], t)
					}
				}
			}
		})
		chk.End(w)
		if pan != nil {
			bad(fmt.Sprint("panic: ", pan), "", "")
		}
		after := look(dir)
		if y.backup { // a backup of a file whose edit failed may be there
			for i, m := range ms {
				if b, ok := after[m.name+".orig"]; ok && b.Data == before[m.name].Data && (!oks[i] || b.Mode != 0o644) {
					want[m.name+".orig"] = b
				}
			}
		}
		if d := want.diff(after); d != "" {
			bad("wrong file content: "+d, want.String(), after.String())
		}
	}
	k := chk.Pick(3, 4)
	nk := len(kinds)
	chk.Bound("kinds of files", nk)
	chk.Bound("files per request", k)
	chk.Bound("scripts", len(scripts))
	total := 1
	for i := 0; i < k; i++ {
		total *= nk
	}
	var combos [][]int
	for n := 1; n <= k; n++ {
		t := 1
		for i := 0; i < n; i++ {
			t *= nk
		}
		for x := 0; x < t; x++ {
			var ks []int
			for i, y := 0, x; i < n; i++ {
				ks = append(ks, y%nk)
				y /= nk
			}
			combos = append(combos, ks)
		}
	}
	chk.Parallel(len(combos), func(w, i int) {
		chk.States.Add(1)
		var ms []member
		for j, x := range combos[i] {
			ms = append(ms, kinds[x](j))
		}
		for si, s := range scripts {
			for yi, y := range ways {
				if y.cli != nil && !chk.Thorough() && len(ms) == 3 && (i+si+yi)%2 != 0 {
					continue
				}
				check(w, ms, s.s, s.f, y)
			}
		}
	})
	// the same file more than once: each time it is edited as it is then
	chk.Parallel(3*27, func(w, i int) {
		var ms []member
		for j := 0; j < 3; j++ {
			ms = append(ms, kinds[[]int{0, 1, 7}[i/(1+2*j+3*j*j/2)%3]](j%2))
		}
		for _, s := range scripts {
			for _, y := range ways {
				check(w, ms, s.s, s.f, y)
			}
		}
	})
	// other spellings of a name: the file is reported as it was named
	spells := []func(dir, name string) string{
		func(dir, name string) string { return dir + "./" + name },
		func(dir, name string) string { return dir + ".//" + name },
		func(dir, name string) string { return dir + "sub/../" + name },
		func(dir, name string) string { return dir + "sub/.././sub//../" + name },
	}
	chk.Family("spellings of a name", int64(len(spells)*nk*nk))
	chk.Parallel(nk*nk, func(w, i int) {
		ms := []member{kinds[i%nk](0), kinds[i/nk](1), kinds[0](2)}
		for _, sp := range spells {
			for si, s := range scripts {
				for yi, y := range ways {
					if y.cli != nil && (i+si+yi)%4 != 0 && !chk.Thorough() {
						continue
					}
					y.spell = sp
					check(w, ms, s.s, s.f, y)
				}
			}
		}
	})
	// one file by several links: as if each had been edited alone, one after the other
	linked := []string{"a", "hard", "sym", "b", "dir/hard", "dirsym/hard", "symsym", "dangling"}
	lay := func(d string) {
		must(os.RemoveAll(d))
		must(os.MkdirAll(d+"/dir", 0o755))
		must(os.WriteFile(d+"/a", []byte("1a a\n"), 0o644))
		must(os.WriteFile(d+"/b", []byte("2a"), 0o644))
		must(os.Link(d+"/a", d+"/hard"))
		must(os.Link(d+"/a", d+"/dir/hard"))
		must(os.Symlink("a", d+"/sym"))
		must(os.Symlink("sym", d+"/symsym"))
		must(os.Symlink("dir", d+"/dirsym"))
		must(os.Symlink("nowhere", d+"/dangling"))
	}
	read := func(d string) string {
		r := ""
		for _, n := range linked {
			b, err := os.ReadFile(d + "/" + n)
			r += fmt.Sprintf("%s: %q %v; ", n, b, err != nil)
		}
		return r
	}
	nl := len(linked)
	chk.Family("several links to one file", int64(nl*nl*nl*len(scripts)))
	chk.Parallel(nl*nl*nl, func(w, i int) {
		names := []string{linked[i/nl/nl], linked[i/nl%nl], linked[i%nl]}
		d := filepath.Join(sc.root, fmt.Sprint("w", w))
		for si, x := range scripts {
			lay(d)
			ok := 0
			var paths []string
			for _, n := range names {
				paths = append(paths, d+"/"+n)
				if texted.EditFileWithFormat(d+"/"+n, x.s, x.f) == nil {
					ok++
				}
			}
			want := read(d)
			for yi, y := range ways {
				if y.backup || y.cli != nil && (i+si+yi)%4 != 0 && !chk.Thorough() {
					continue
				}
				lay(d)
				n := 0
				switch {
				case y.lib != nil:
					rs, _ := y.lib(paths, x.s, x.f)
					for _, r := range rs {
						if r.Success {
							n++
						}
					}
				case y.cli != nil:
					r := run(d, "", append(append(append([]string{"edit"}, y.cli...), "--format", x.f, "-s", x.s), names...)...)
					n = ok
					if (r.Exit == 0) != (ok == len(names)) {
						n = -1
					}
				default:
					fs := make([]any, len(paths))
					for i, p := range paths {
						fs[i] = p
					}
					t, _ := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": x.s, "files": fs})))
					n = len(lines(t, "✓ "))
				}
				chk.Transitions.Add(1)
				chk.Validated.Add(1)
				if got := read(d); got != want || n != ok {
					chk.Fail(&rep.Violation{What: "P17: files that are links to one another (" + y.name + ")", Repro: map[string]any{"files": names, "script": x.s, "format": x.f}, Expected: fmt.Sprint(ok, " edited: ", want), Actual: fmt.Sprint(n, " edited: ", got)})
				}
			}
		}
		chk.States.Add(1)
	})
	// many files
	for _, n := range []int{7, 8, 9, 63, 64, 65, 200} {
		for bad := 0; bad < n; bad += 1 + n/9 {
			var ms []member
			for j := 0; j < n; j++ {
				if j == bad {
					ms = append(ms, kinds[bad%6](j))
				} else {
					ms = append(ms, kinds[0](j))
				}
			}
			for _, y := range ways {
				check(0, ms, scripts[0].s, scripts[0].f, y)
			}
		}
	}
	// odd names
	oddNames := append([]string(nil), oddNames...)
	for _, x := range dict.Texts() {
		if fit := !strings.ContainsAny(x, "/\x00\n") && x != "" && x != "." && x != ".."; fit && x != "file" && x != "bystander" && x != "sub" && !slices.Contains(oddNames, x) && !slices.Contains(oddNames, x+".orig") && !strings.HasSuffix(x, ".orig") {
			oddNames = append(oddNames, x)
		}
	}
	chk.Family("unusual file names", int64(len(oddNames)))
	chk.Parallel(len(oddNames), func(w, i int) {
		ms := []member{{oddNames[i], file{Data: "xa a", Mode: 0o644}, false}}
		if oddNames[i] == "con" { // a long list of them
			for k := 0; k < len(oddNames); k++ {
				ms = append(ms, member{oddNames[k], file{Data: fmt.Sprint(k, "a a"), Mode: 0o644}, k%5 == 3})
			}
			ms = ms[1:]
		}
		for _, s := range scripts {
			for _, y := range ways {
				if y.cli != nil { // a name is no option
					dash := false
					for _, m := range ms {
						dash = dash || strings.HasPrefix(m.name, "-")
					}
					if dash {
						y.cli = append(y.cli[:len(y.cli):len(y.cli)], "--")
					}
				}
				check(w, ms, s.s, s.f, y)
				check(w, append([]member{kinds[0](0)}, append(ms, kinds[2](1))...), s.s, s.f, y)
				check(w, append([]member{kinds[3](0)}, member{ms[0].name, file{}, true}), s.s, s.f, y)
			}
		}
		chk.States.Add(1)
	})
	// very many files
	for _, n := range append([]int{257, 513, 1001, 1025, 2049, chk.Pick(4097, 20001)}, dict.Around(3, chk.Pick(1000, 20000))...) {
		for _, failing := range [][]int{nil, {n / 2, n - 1}} {
			var ms []member
			for j := 0; j < n; j++ {
				k := 0
				for _, x := range failing {
					if x == j {
						k = 3
					}
				}
				ms = append(ms, kinds[k](j))
			}
			for yi, y := range ways {
				if yi < 5 && (n < 2000 || yi > 0) {
					check(0, ms, scripts[0].s, scripts[0].f, y)
				}
			}
		}
	}
	// no file at all is refused by the tool
	if t, isErr := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": "point", "files": []any{}}))); !isErr {
		chk.Fail(&rep.Violation{What: "P17: a request without files succeeds", Repro: t})
	}
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(map[string]any{"kinds of files": combos[len(combos)/2], "script": scripts[0].s})
	chk.Assume("a file that fails alone has the reason that EditFileWithFormat reports for it alone")
}

// firstLine is the line of an answer that names no file.
func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return s
}

// lines are the lines that start with one of the marks.
func lines(s string, marks ...string) []string {
	var r []string
	for _, l := range strings.Split(s, "\n") {
		for _, m := range marks {
			if strings.HasPrefix(l, m) {
				r = append(r, l)
			}
		}
	}
	return r
}
