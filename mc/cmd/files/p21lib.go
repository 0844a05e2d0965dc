//go:build syscalls

package main

import (
	"context"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	et "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/tools"
	"verifmc/rep"
)

var reRounds = regexp.MustCompile(`after (\d+) iteration`)

// libFaults puts the library, the edit tool and the test runner under faults,
// within this process.
func libFaults(chk *rep.Check, sc *scratch, outs []map[string]int64) {
	f := func(s string) file { return file{Data: s, Mode: 0o644} }
	long := strings.Repeat("banana 012345678\n", 300)
	type request_ struct {
		name   string
		before world
		files  []string
		script string
		format string
		how    string // lib, libformat, one, oneformat, tool, loop, test
	}
	var rs []request_
	step := `search-forward "a"; replace-match "b"`
	for _, how := range []string{"lib", "libformat", "one", "oneformat", "tool", "loop"} {
		add := func(name string, w world, files []string, s string) {
			rs = append(rs, request_{how + " " + name, w, files, s, "shell", how})
		}
		add("one file", world{"a": f("banana"), "z": f("other")}, []string{"a"}, step)
		if how == "loop" { // must end by itself
			add("emptied file", world{"a": f("banana")}, []string{"a"}, `search-forward "a"; mark-whole-buffer; delete-region`)
			add("long file", world{"a": f(strings.Repeat("bc", 2000) + "aaa")}, []string{"a"}, step)
		} else {
			add("empty file", world{"a": f("")}, []string{"a"}, `insert "x"`)
			add("long file", world{"a": f(long)}, []string{"a"}, `search-forward "a"; replace-match "b"; end-of-buffer; insert "!"`)
			add("emptied file", world{"a": f("banana")}, []string{"a"}, `mark-whole-buffer; delete-region`)
		}
		add("failing", world{"a": f("xyz")}, []string{"a"}, step)
		add("three files", world{"a": f("banana"), "b": f("bababa"), "c": f("caaaa"), "z": f("other")}, []string{"a", "b", "c"}, step)
		add("three files, one failing", world{"a": f("banana"), "b": f("xyz"), "c": f("ca")}, []string{"a", "b", "c"}, step)
		add("three files, one missing", world{"a": f("banana"), "c": f("ca")}, []string{"a", "b", "c"}, step)
		add("same file twice", world{"a": f("banana")}, []string{"a", "a"}, step)
	}
	good := "<buffer>banana</buffer>\n<input lang=\"shell\">search-forward \"a\"; replace-match \"X\"</input>\n<output>bXnana</output>\n"
	bad := strings.Replace(good, "bX", "bY", 1)
	for _, x := range []struct{ n, s string }{{"passing", good}, {"failing", bad}, {"long", good + "<!--" + strings.Repeat("x", 3000) + "-->\n"}} {
		rs = append(rs, request_{"test " + x.n, world{"a": f(x.s)}, []string{"a"}, "", "", "test"})
	}
	type got struct {
		ok      map[string]bool // by file
		text    string
		after   world
		calls   []sysCall
		rounds  int
		paniced any
	}
	apply := func(w int, q request_, plan []fault) got {
		g := got{ok: map[string]bool{}, rounds: 1}
		dir := sc.fresh(w, q.before)
		var paths []string
		for _, n := range q.files {
			paths = append(paths, filepath.Join(dir, n))
		}
		se := faultSession(dir, plan)
		g.paniced = guard(func() {
			switch q.how {
			case "lib", "libformat":
				var r []texted.EditResult
				var err error
				if q.how == "lib" {
					r, err = texted.EditFiles(paths, q.script)
				} else {
					r, err = texted.EditFilesWithFormat(paths, q.script, q.format)
				}
				for i, x := range r {
					if x.Success != (x.Error == nil) || x.Filename != paths[i] {
						g.text += fmt.Sprintf("inconsistent result %v; ", x)
					}
					was, seen := g.ok[q.files[i]]
					g.ok[q.files[i]] = x.Success && err == nil && (was || !seen)
				}
				if len(r) != len(paths) && err == nil {
					g.text += "not one result per file"
				}
			case "one", "oneformat":
				for i, p := range paths {
					var err error
					if q.how == "one" {
						err = texted.EditFile(p, q.script)
					} else {
						err = texted.EditFileWithFormat(p, q.script, q.format)
					}
					was, seen := g.ok[q.files[i]]
					g.ok[q.files[i]] = err == nil && (was || !seen)
				}
			case "tool", "loop":
				var fs []any
				for _, p := range paths {
					fs = append(fs, p)
				}
				text, isErr := said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": q.script, "files": fs, "loopUntilError": q.how == "loop"})))
				for i, n := range q.files {
					good := !isErr
					for _, l := range lines(text, "✗ ") {
						if strings.Contains(l, paths[i]) {
							good = false
						}
					}
					yes := 0
					for _, l := range lines(text, "✓ ") {
						if strings.Contains(l, paths[i]) {
							yes++
						}
					}
					if good && yes == 0 {
						g.text += "file " + n + " is not reported: " + text
					}
					g.ok[n] = good
				}
				if m := reRounds.FindStringSubmatch(text); m != nil {
					fmt.Sscan(m[1], &g.rounds)
				} else if !isErr {
					g.text += "rounds not reported: " + text
				}
			case "test":
				r := et.RunTestFile(paths[0], edlisp.NewDefaultEnvironment())
				g.ok["a"] = r.Passed
				if r.Passed != (r.Error == nil) || r.Name != "a" {
					g.text += fmt.Sprintf("inconsistent result %v", *r)
				}
				tc, err := et.ParseTestFile(paths[0])
				if err == nil && tc.Buffer != "banana" {
					g.text += "part of a test file was taken for the whole"
				}
			}
		})
		for _, e := range se.end() {
			p := e.Path
			if rel, err := filepath.Rel(dir, p); err == nil {
				p = rel
			}
			g.calls = append(g.calls, sysCall{e.Op, p, e.N, e.Write, e.Hit})
		}
		g.after = look(dir)
		return g
	}
	var explore func(w int, q request_, base got, plan []fault, depth int)
	explore = func(w int, q request_, base got, plan []fault, depth int) {
		g := apply(w, q, plan)
		chk.States.Add(1)
		chk.Transitions.Add(int64(len(g.calls)))
		chk.Validated.Add(1)
		var ps []string
		harm := map[int]bool{}
		for _, p := range plan {
			h := hit{p.At, p.Act, p.Arg}
			ps = append(ps, h.String())
			harm[p.At] = !h.harmless()
		}
		var hs []sysCall
		for i, c := range g.calls {
			if c.Hit != "" {
				if _, planned := harm[i]; !planned || harm[i] {
					hs = append(hs, c)
				}
			}
		}
		bad := func(what, exp string) {
			chk.Fail(&rep.Violation{What: what, Repro: map[string]any{"call": q.name, "script": q.script, "files": q.files, "before": q.before.String(), "faults": ps, "calls": fmt.Sprint(g.calls), "reported": g.ok, "text": g.text, "rounds": g.rounds},
				Expected: exp, Actual: g.after.String()})
		}
		if base.after == nil {
			base = g
		}
		if g.paniced != nil {
			bad(fmt.Sprint("panic: ", g.paniced), "")
		}
		if g.text != "" {
			bad(g.text, "")
		}
		for n, x := range q.before {
			if n != "a" && n != "b" && n != "c" && g.after[n] != x {
				bad("a file outside the request has changed: "+n, x.String())
			}
		}
		if q.how == "test" {
			if g.after.diff(q.before) != "" {
				bad("running a test changes files", q.before.String())
			}
			read := false
			for _, c := range hs {
				read = read || c.Op == "open" || c.Op == "read"
			}
			if !base.ok["a"] && g.ok["a"] {
				bad("a test passes because its file could not be read", "")
			}
			if len(hs) == 0 && g.ok["a"] != base.ok["a"] {
				bad("a transfer in pieces or an interrupted call changes the outcome", "")
			}
			_ = read
		} else {
			twice := len(q.files) == 2
			for _, n := range []string{"a", "b", "c"} {
				in := false
				for _, x := range q.files {
					in = in || x == n
				}
				if !in {
					continue
				}
				was, had := q.before[n]
				touched, writing := false, false
				for _, c := range hs {
					if c.about(n) {
						touched = true
						writing = writing || c.Write
					}
				}
				times := g.rounds
				if twice {
					times *= 2
				}
				// after k complete applications
				after := func(k int) (string, bool) {
					s := was.Data
					for ; k > 0; k-- {
						t, err := direct(s, q.script, "shell")
						if err != nil {
							return s, false
						}
						s = t
					}
					return s, true
				}
				want, whole := after(times)
				whole = whole && had
				ok, data := g.ok[n], g.after[n].Data
				switch {
				case ok && (data != want || !whole):
					bad("success is reported for "+n+" although its content is not the result", fmt.Sprintf("%q", want))
				case !ok && !touched && whole:
					bad("a failure is reported for "+n+" that has none", fmt.Sprintf("%q", want))
				case !touched && data != want:
					bad("a failure on another file affects "+n, fmt.Sprintf("%q", want))
				case touched && !writing && !twice:
					x, _ := after(times - 1)
					if data != x && data != want {
						bad("a file that could not be read has changed: "+n, fmt.Sprintf("%q", x))
					}
				}
				if _, has := g.after[n]; had && !has {
					bad("a file is gone: "+n, "")
				}
			}
			if len(hs) == 0 && (base.after.diff(g.after) != "" || fmt.Sprint(base.ok, base.rounds) != fmt.Sprint(g.ok, g.rounds)) {
				bad("a transfer in pieces or an interrupted call changes the outcome", base.after.String())
			}
			// the loop ends with the round of the failure
			if q.how == "loop" {
				any := false
				for _, x := range g.ok {
					any = any || !x
				}
				if !any {
					bad("the loop ended although no file failed", "")
				}
			}
		}
		outs[w][fmt.Sprint(q.how, " ", len(plan), " faults ", fmt.Sprint(g.ok))]++
		if depth == 0 {
			return
		}
		from := 0
		if len(plan) > 0 {
			from = plan[len(plan)-1].At + 1
		}
		for _, k := range places(g.calls) {
			if k < from || chk.Stop() {
				continue
			}
			c := g.calls[k]
			if c.Hit != "" {
				continue
			}
			for _, h := range c.errors(len(plan) == 0) {
				if len(plan) > 0 && h.Act != "err" && h.Arg > 1 {
					continue // cut at other places by the first fault
				}
				explore(w, q, base, append(append([]fault{}, plan...), fault{k, h.Act, h.Arg}), depth-1)
			}
		}
	}
	depth := chk.Pick(2, 3)
	// split the work at the first fault
	type part struct {
		q    request_
		base got
		plan []fault
	}
	var parts []part
	for _, q := range rs {
		explore(0, q, got{}, nil, 0)
		base := apply(0, q, nil)
		for _, k := range places(base.calls) {
			c := base.calls[k]
			for _, h := range c.errors(true) {
				parts = append(parts, part{q, base, []fault{{k, h.Act, h.Arg}}})
			}
		}
		chk.Family(q.name, int64(len(base.calls)))
	}
	chk.Parallel(len(parts), func(w, i int) {
		p := parts[i]
		chk.Begin(w, func() string { return fmt.Sprint(p.q.name, p.plan) })
		defer chk.End(w)
		explore(w, p.q, p.base, p.plan, depth-1)
	})
}
