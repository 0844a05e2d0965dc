package main

import (
	"context"
	"fmt"
	"io/fs"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"verifmc/dict"

	"github.com/dhamidi/texted/tools"
	"verifmc/rep"
)

func runP22(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	count := regexp.MustCompile(`after (\d+) iteration`)
	// one runs a looping request on files with the given contents (nil: no such file).
	name := func(i int) string { return fmt.Sprintf("f%d", i) }
	named := func(w int, name func(i int) string, s, f string, contents []*string, mode fs.FileMode, limit int) {
		before := world{}
		var paths []any
		dir := filepath.Join(sc.root, fmt.Sprint("w", w))
		cur := make([]*string, len(contents))
		for i, c := range contents {
			n := name(i)
			if c != nil {
				before[n] = file{Data: *c, Mode: mode}
				x := *c
				cur[i] = &x
			}
			paths = append(paths, filepath.Join(dir, n))
		}
		// the reference: rounds of direct evaluation
		rounds, failed := 0, make([]bool, len(contents))
		for any := false; !any; {
			rounds++
			if rounds > limit {
				return // does not end by itself
			}
			for i, c := range cur {
				failed[i] = true
				if c == nil {
					any = true
					continue
				}
				t, err := direct(*c, s, f)
				if err != nil {
					any = true
					continue
				}
				failed[i] = false
				cur[i] = &t
			}
		}
		sc.fresh(w, before)
		chk.Transitions.Add(int64(rounds))
		chk.Validated.Add(1)
		chk.States.Add(1)
		outs[w][fmt.Sprint("rounds ", min(rounds, 40), " failed ", failed)]++
		var show []string
		for _, c := range contents {
			if c == nil {
				show = append(show, "no file")
			} else {
				show = append(show, shortTail(*c))
			}
		}
		bad := func(what, exp, act string) {
			chk.Fail(&rep.Violation{What: "P22: " + what, Repro: map[string]any{"script": s, "files": show, "loopUntilError": true}, Expected: exp, Actual: act})
		}
		var t string
		chk.Begin(w, func() string { return fmt.Sprint("loop ", s, show) })
		pan := guard(func() {
			t, _ = said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": s, "files": paths, "loopUntilError": true})))
		})
		chk.End(w)
		if pan != nil {
			bad(fmt.Sprint("panic: ", pan), "", "")
		}
		want := world{}
		for i, c := range cur {
			if c != nil {
				want[name(i)] = file{Data: *c, Mode: mode}
			}
		}
		if after := look(dir); want.diff(after) != "" {
			bad("the files do not hold the result of the rounds: "+want.diff(after), want.String(), after.String())
		}
		if m := count.FindStringSubmatch(t); m == nil || m[1] != strconv.Itoa(rounds) {
			bad("wrong number of rounds reported", fmt.Sprint(rounds), t)
		}
		if len(lines(t, "✓ "))+len(lines(t, "✗ ")) != len(contents) {
			bad("not one report per file", fmt.Sprint(len(contents)), t)
		}
		for i, p := range paths {
			mark := "✓ "
			if failed[i] {
				mark = "✗ "
			}
			n := 0
			for _, l := range lines(t, mark) {
				if strings.Contains(l+"\n", p.(string)+"\n") || strings.Contains(l, p.(string)+":") {
					n++
				}
			}
			if n != 1 {
				bad(fmt.Sprintf("file %d is reported wrongly in the last round", i), mark+p.(string), t)
			}
		}
	}
	// aliased loops over one file given several times.
	aliased := func(w int, names []string, s, text string) {
		dir := sc.fresh(w, world{"f": {Data: text, Mode: 0o644}, "d": {Dir: true}})
		cur, rounds, failing := text, 0, map[int]bool{}
		for len(failing) == 0 {
			rounds++
			for i := range names {
				t, err := direct(cur, s, "shell")
				if err != nil {
					failing[i] = true
					continue
				}
				cur = t
			}
			if rounds > 50 {
				return
			}
		}
		var paths []any
		for _, n := range names {
			if strings.Contains(n, "%d") {
				n = fmt.Sprintf(n, w)
			}
			paths = append(paths, dir+"/"+n)
		}
		var t string
		chk.Begin(w, func() string { return fmt.Sprint("loop ", s, names) })
		pan := guard(func() {
			t, _ = said(tools.EditFileHandler(context.Background(), request(map[string]any{"script": s, "files": paths, "loopUntilError": true})))
		})
		chk.End(w)
		chk.States.Add(1)
		chk.Transitions.Add(int64(rounds * len(names)))
		chk.Validated.Add(1)
		exp := fmt.Sprintf("%q after %d iterations, %d failing", cur, rounds, len(failing))
		act := fmt.Sprintf("%q: %s", look(dir)["f"].Data, t)
		m := count.FindStringSubmatch(t)
		if pan != nil || look(dir)["f"].Data != cur || m == nil || m[1] != strconv.Itoa(rounds) || len(lines(t, "✗ ")) != len(failing) || len(lines(t, "✓ ")) != len(names)-len(failing) {
			chk.Fail(&rep.Violation{What: "P22: a file given several times", Repro: map[string]any{"script": s, "text": text, "names": names}, Expected: exp, Actual: act})
		}
	}
	one := func(w int, s, f string, contents []*string, mode fs.FileMode, limit int) {
		named(w, name, s, f, contents, mode, limit)
	}
	atoms := []command{findA, replB, delOne, insX, killLine, toEnd, findNone, query, illTyped,
		{`replace-match ""`, `(replace-match "")`, `["replace-match",""]`}, {`replace-match "c"`, `(replace-match "c")`, `["replace-match","c"]`}, {`goto-char 2`, `(goto-char 2)`, `["goto-char",2]`},
		{`search-forward "\n"`, `(search-forward "\n")`, `["search-forward","\n"]`}, {`re-search-forward "^$|x"`, `(re-search-forward "^$|x")`, `["re-search-forward","^$|x"]`}, {`search-backward "a"`, `(search-backward "a")`, `["search-backward","a"]`}}
	texts := []string{"", "a", "aa", "aaa\naa", "xa\n", "b", "a\na\na\na", "\n\n", "xxa"}
	limit := 60
	ptr := func(s string) *string { return &s }
	n := len(atoms)
	chk.Bound("commands", n)
	chk.Bound("commands per script", 3)
	chk.Bound("rounds in enumerated scripts", limit)
	chk.Parallel(n*n*n+n*n+n, func(w, i int) {
		var p []command
		if i < n*n*n {
			p = []command{atoms[i/n/n], atoms[i/n%n], atoms[i%n]}
		} else if j := i - n*n*n; j < n*n {
			p = []command{atoms[j/n], atoms[j%n]}
		} else {
			p = []command{atoms[j-n*n]}
		}
		f := formats[i%3]
		s := script(p, f)
		for _, t := range texts {
			one(w, s, f, []*string{ptr(t)}, 0o644, limit)
		}
		if i >= n*n*n || chk.Thorough() {
			for _, a := range texts {
				for _, b := range texts {
					one(w, s, f, []*string{ptr(a), ptr(b)}, 0o600, limit)
				}
				one(w, s, f, []*string{ptr(a), nil}, 0o644, limit)
				one(w, s, f, []*string{nil, ptr(a), ptr("aaaa")}, 0o644, limit)
			}
		}
	})
	// number of rounds
	s := script([]command{findA, atoms[10]}, "shell")
	var ns []int
	for k := 0; k <= chk.Pick(300, 1200); k++ {
		ns = append(ns, k)
	}
	ns = append(ns, dict.Around(300, chk.Pick(20000, 120000))...)
	ns = append(ns, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4999, 5000, 10000, 10001)
	if chk.Thorough() {
		ns = append(ns, 65535, 65536, 65537, 100001)
	}
	chk.Bound("longest loop", slices.Max(ns)+1)
	chk.Parallel(len(ns), func(w, i int) {
		k := ns[len(ns)-1-i]
		one(w, s, "shell", []*string{ptr(strings.Repeat("a", k))}, 0o644, k+2)
		if k <= 60 {
			for j := max(0, k-3); j <= k+3; j++ { // the first file to run out ends the loop
				one(w, s, "shell", []*string{ptr(strings.Repeat("a", k)), ptr(strings.Repeat("a", j) + "\n")}, 0o644, k+9)
				one(w, s, "shell", []*string{ptr(strings.Repeat("ba", j)), ptr(strings.Repeat("a", k)), ptr(strings.Repeat("a", k+1))}, 0o755, k+9)
			}
		}
	})
	// odd names
	chk.Parallel(len(oddNames), func(w, i int) {
		odd := func(k int) string {
			if k == 1 {
				return "plain"
			}
			return oddNames[i]
		}
		named(w, odd, s, "shell", []*string{ptr("aaa"), ptr("aaaa")}, 0o644, 20)
		named(w, odd, s, "shell", []*string{ptr("aaa"), ptr("aa")}, 0o644, 20)
		named(w, odd, s, "shell", []*string{nil, ptr("aa")}, 0o644, 20)
	})
	chk.Family("unusual file names", int64(len(oddNames)))
	// one file by several names: each round starts from what the last application left
	aliases := []string{"f", "./f", "d/../f", "d//../f", "../w%d/f"}
	chk.Parallel(len(texts)*4, func(w, i int) {
		text := texts[i%len(texts)] + strings.Repeat("ab", 3)
		for _, sc := range []string{"search-forward \"a\"; replace-match \"c\"", "search-forward \"a\"; delete-backward-char; end-of-buffer; insert \"q\"", "delete-char; search-forward \"b\""} {
			for x := range aliases {
				for y := range aliases {
					names := []string{aliases[x], aliases[y]}
					if i/len(texts) > 0 {
						names = append(names, aliases[i/len(texts)-1])
					}
					aliased(w, names, sc, text)
				}
			}
		}
	})
	chk.Family("one file by several names", int64(len(texts)*4*3*len(aliases)*len(aliases)))
	// large files, some of which grow past any size while others run out
	grow := `search-forward "a"; replace-match "LONG"`
	var near []int
	for i, n := range dict.Around(3000, 1<<26) {
		if i%3 == 2 {
			near = append(near, n)
		}
	}
	for _, n := range append(near, 1<<12, 1<<16, 1<<20-1, 1<<20-3, 1<<20, 1<<20+1, 1<<21, 3<<20, 5<<20, 9<<20, chk.Pick(17<<20, 1<<26)) {
		for _, l := range []int{0, 1, 2, 5} {
			for _, unit := range []string{"x", "word\n"} {
				if n > 4<<20 && (unit == "x") != (l%2 == 0) && !chk.Thorough() {
					continue
				}
				big := strings.Repeat(unit, n/len(unit))
				some := strings.Repeat("a", l)
				s := strings.ReplaceAll(grow, "LONG", []string{"", "c", strings.Repeat("c", 50)}[l%3])
				one(0, s, "shell", []*string{ptr(some + big)}, 0o644, 20)
				one(0, s, "shell", []*string{ptr(some + big), ptr("aaa")}, 0o644, 20)
				one(0, s, "shell", []*string{ptr("aaa"), ptr(big + some), ptr("aaaa")}, 0o644, 20)
			}
		}
	}
	// growing by a lot each time
	for _, add := range []int{1 << 10, 1 << 16, 200000} {
		for _, k := range []int{1, 7, chk.Pick(12, 60)} {
			s := `search-forward "a"; replace-match ""; end-of-buffer; insert "` + strings.Repeat("w", add) + `"`
			one(0, s, "shell", []*string{ptr(strings.Repeat("a", k))}, 0o644, 90)
			one(0, s, "shell", []*string{ptr(strings.Repeat("a", k+2)), ptr(strings.Repeat("a", k))}, 0o644, 90)
		}
	}
	// files that come back to earlier contents, or never change, while another
	// is being worked off: the first letter goes to the end until it would be z
	turn := `end-of-buffer; insert (buffer-substring 1 2); beginning-of-buffer; delete-char; re-search-forward "^[^z]"`
	rounds := chk.Pick(40, 85)
	chk.Bound("letters of a text that is turned", 7)
	chk.Parallel(rounds, func(w, k int) {
		down := ptr(strings.Repeat("r", k) + "z")
		for _, cycle := range []string{"a", "ab", "aab", "abc", "abab", "abcde", "aaaaaab", "abcdefg"} {
			one(w, turn, "shell", []*string{ptr(cycle), down}, 0o644, 90)
			one(w, turn, "shell", []*string{down, ptr(cycle)}, 0o644, 90)
			one(w, turn, "shell", []*string{ptr("abc"), ptr(cycle), down}, 0o644, 90)
		}
		one(w, turn, "shell", []*string{down}, 0o644, 90)
		// two that turn and end at different times
		for j := 0; j <= k; j += 5 {
			one(w, turn, "shell", []*string{down, ptr("abcd"), ptr(strings.Repeat("r", j) + "z" + strings.Repeat("s", j))}, 0o644, 90)
		}
	})
	// text that is no script ends in the first round
	for _, b := range badScripts {
		if b.format != "json" || b.script[0] == '[' {
			one(0, b.script, b.format, []*string{ptr("a"), ptr("b")}, 0o644, 3)
		}
	}
	// without looping there is one round, and looping is off unless asked for
	for _, arg := range []map[string]any{{}, {"loopUntilError": false}} {
		before := world{"f": {Data: "aaa", Mode: 0o644}}
		dir := sc.fresh(0, before)
		arg["script"], arg["files"] = s, []any{filepath.Join(dir, "f")}
		t, isErr := said(tools.EditFileHandler(context.Background(), request(arg)))
		if got := look(dir)["f"].Data; got != "caa" || isErr || !strings.Contains(t, "after 1 iteration") {
			chk.Fail(&rep.Violation{What: "P22: a request without looping", Repro: fmt.Sprint(arg), Expected: "caa after 1 iteration", Actual: got + " " + t})
		}
		chk.Transitions.Add(1)
	}
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(map[string]any{"script": s, "text": "aaa", "rounds": 4})
	chk.Assume("scripts whose rounds never fail do not end; they are left out (the reference gives up after the stated number of rounds)", "in the failing round each file is still handled as if given alone (P17)")
}
