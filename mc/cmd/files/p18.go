package main

import (
	"fmt"
	"io"
	"maps"
	"os"
	"path"
	"slices"
	"strings"
	"syscall"
	"time"

	"verifmc/dict"
	"verifmc/rep"
)

// invocation is one command line in terms of its meaning.
type invocation struct {
	src     string // -s, -f, -e, none, missing
	scr     scr
	format  []string
	inPlace bool
	out     string
	backup  string // "-" for none
	dry     bool
	verb    []string
	files   []string
	stdin   string
	after   bool   // options after the files
	more    string // a further file
	env     int    // 0: as the check's own
	spell   int    // how the options are written
	linked  bool   // the files are links to files elsewhere
}

type scr struct {
	s, f string
}

const spellings = 7

// respell writes the same options another way.
func (v invocation) respell(dir string) []string {
	w := v
	w.spell = 0
	short := map[string]string{"-i": "--in-place", "-n": "--dry-run", "-q": "--quiet", "-v": "--verbose", "-s": "--script", "-f": "--file", "-e": "--expression", "-o": "--output"}
	value := func(o string) bool {
		switch o {
		case "-s", "-f", "-e", "-o", "--backup", "--format", "--file", "--script", "--no-such-option":
			return true
		}
		return false
	}
	w.files, w.after = nil, false
	var groups [][]string
	old := w.args(dir)[1:]
	for i := 0; i < len(old); i++ {
		g := []string{old[i]}
		if value(old[i]) && i+1 < len(old) {
			i++
			g = append(g, old[i])
		}
		groups = append(groups, g)
	}
	o := []string{"edit"}
	add := func() {
		for _, g := range groups {
			o = append(o, g...)
		}
	}
	switch v.spell {
	case 1: // long names
		for _, g := range groups {
			if l, ok := short[g[0]]; ok {
				g[0] = l
			}
			if len(g) == 2 {
				g = []string{g[0] + "=" + g[1]}
			} else if !strings.Contains(g[0], "=") && strings.HasPrefix(g[0], "--") && (v.spell == 1 && len(o)%2 == 0) && short["-"+g[0][2:3]] == g[0] {
				g = []string{g[0] + "=true"}
			}
			o = append(o, g...)
		}
	case 2: // short names together, with the value of the last
		flags, rest := "", []string(nil)
		var last []string
		for _, g := range groups {
			switch {
			case len(g) == 1 && len(g[0]) == 2 && short[g[0]] != "":
				flags += g[0][1:]
			case len(g) == 2 && len(g[0]) == 2 && last == nil:
				last = g
			case len(g) == 2 && len(g[0]) == 2 && g[1] != "" && g[1][0] != '=':
				rest = append(rest, g[0]+g[1])
			default:
				rest = append(rest, g...)
			}
		}
		o = append(o, rest...)
		if last != nil {
			o = append(o, "-"+flags+last[0][1:], last[1])
		} else if flags != "" {
			o = append(o, "-"+flags)
		}
	case 3: // what is not asked for is denied
		has := func(x string) bool { return slices.ContainsFunc(groups, func(g []string) bool { return g[0] == x }) }
		add()
		for _, x := range []string{"-i", "-n", "-q", "-v"} {
			if !has(x) {
				o = append(o, short[x]+"=false")
			}
		}
		for _, x := range []string{"--output=", "--shell=false", "--json=false"} {
			if !strings.HasPrefix(x, "--output") || v.out == "" {
				o = append(o, x)
			}
		}
		if v.backup == "-" {
			o = append(o, "--backup", "")
		}
		if strings.Contains(strings.Join(o, " "), "--json --") || slices.Contains(v.format, "--json") || slices.Contains(v.format, "--shell") {
			o = slices.DeleteFunc(o, func(x string) bool { return x == "--json=false" || x == "--shell=false" })
		}
	case 4: // the last one counts
		for _, g := range groups {
			switch {
			case g[0] == "-s" || g[0] == "--backup" || g[0] == "-o":
				o = append(o, g[0], "other")
			case g[0] == "-i" || g[0] == "-n":
				o = append(o, short[g[0]]+"=false")
			}
			o = append(o, g...)
		}
	case 5, 6: // options between and after the files
		fs := v.files
		if v.spell == 6 && len(fs) > 0 {
			add()
			return append(append(o, "--"), fs...)
		}
		for i := 0; i < len(groups) || i < len(fs); i++ {
			if i < len(fs) {
				o = append(o, fs[i])
			}
			if i < len(groups) {
				o = append(o, groups[i]...)
			}
		}
		return o
	}
	if v.after {
		return append(append([]string{"edit"}, v.files...), o[1:]...)
	}
	return append(o, v.files...)
}

func (v invocation) args(dir string) []string {
	if v.spell > 0 {
		return v.respell(dir)
	}
	var o []string
	o = append(o, v.format...)
	switch v.src {
	case "-s", "-e":
		o = append(o, v.src, v.scr.s)
	case "--script":
		o = append(o, "--script="+v.scr.s)
	case "-f":
		o = append(o, "-f", "script")
	case "missing":
		o = append(o, "--file", "no-script")
	case "-f stdin":
		o = append(o, "-f", "/dev/stdin")
	case "-f pipe":
		o = append(o, "-f", "../pipe-of-"+path.Base(dir))
	}
	if v.inPlace {
		o = append(o, "-i")
	}
	if v.out != "" {
		o = append(o, "-o", v.out)
	}
	if v.backup != "-" {
		o = append(o, "--backup", v.backup)
	}
	if v.dry {
		o = append(o, "-n")
	}
	o = append(o, v.verb...)
	if v.after {
		return append(append([]string{"edit"}, v.files...), o...)
	}
	return append(append([]string{"edit"}, o...), v.files...)
}

// has reports whether the verbosity options contain one.
func (v invocation) has(o string) bool {
	for _, x := range v.verb {
		if x == o {
			return true
		}
	}
	return false
}

// meaning is what the documentation says the invocation does.
type meaning struct {
	class  string
	after  world
	printd *string // nil: not the result of an edit
	failed *bool   // nil: either
	loose  map[string][]file
	unsaid []string // texts that must not be printed
}

func (v invocation) meaning(before world) (m meaning) {
	m.after = maps.Clone(before)
	yes, no := true, false
	m.loose = map[string][]file{}
	refused := v.out != "" && len(v.files) > 1 || v.backup != "-" && v.backup != "" && !v.inPlace || v.out != "" && v.inPlace || v.src == "none" || v.src == "missing"
	if refused {
		m.class, m.failed = "refused", &yes
		return
	}
	read := func(n string) (string, bool) {
		if n == "/dev/stdin" {
			return v.stdin, true
		}
		f, ok := m.after[path.Clean(n)]
		return f.Data, ok && !f.Dir
	}
	if v.src == "-e" {
		m.class = "expression"
		bad := false
		inputs := []string{v.stdin}
		if len(v.files) > 0 {
			inputs = nil
			for _, n := range v.files {
				d, ok := read(n)
				bad = bad || !ok
				inputs = append(inputs, d)
			}
		}
		for _, d := range inputs {
			if _, err := direct(d, v.scr.s, v.scr.f); err != nil {
				bad = true
			}
		}
		if v.dry {
			return
		}
		m.failed = &bad
		return
	}
	if len(v.files) > 1 && !v.inPlace {
		m.class, m.failed = "refused: several files", &yes
		return
	}
	if v.dry {
		m.class = "dry run"
		ok := true
		for _, n := range append([]string{"-"}, v.files...) {
			d, is := v.stdin, len(v.files) == 0
			if n != "-" {
				d, is = read(n)
			}
			if text, err := direct(d, v.scr.s, v.scr.f); is && err == nil && len(text) > 2 {
				m.unsaid = append(m.unsaid, text)
			}
		}
		for _, n := range v.files {
			_, is := read(n)
			ok = ok && is
			d, _ := read(n)
			if _, err := direct(d, v.scr.s, v.scr.f); err != nil {
				ok = false
			}
		}
		if len(v.files) == 0 {
			_, err := direct(v.stdin, v.scr.s, v.scr.f)
			ok = err == nil
		}
		if ok {
			m.failed = &no
		}
		return
	}
	shown := ""
	write := func(n, data string) bool {
		if n == "/dev/stdout" || n == "/dev/null" {
			if n == "/dev/stdout" {
				shown = data
			}
			return true
		}
		n = path.Clean(n)
		if i := strings.LastIndexByte(n, '/'); i >= 0 {
			if d, ok := m.after[n[:i]]; !ok || !d.Dir {
				return false
			}
		}
		f, ok := m.after[n]
		if f.Dir {
			return false
		}
		if !ok {
			f.Mode = 0o644
		}
		f.Data = data
		m.after[n] = f
		return true
	}
	if len(v.files) == 0 || !v.inPlace {
		in, ok := v.stdin, true
		m.class = "stdin"
		if len(v.files) == 1 {
			in, ok = read(v.files[0])
			m.class = "file"
		}
		text, err := direct(in, v.scr.s, v.scr.f)
		bad := !ok || err != nil
		if v.out != "" {
			m.class += " to output file"
			if !bad {
				bad = !write(v.out, text)
			}
			m.printd = &shown
		} else if bad {
			empty := ""
			m.printd = &empty
		} else {
			m.printd = &text
		}
		m.failed = &bad
		return
	}
	m.class = "in place"
	bad := false
	for _, n := range v.files {
		d, ok := read(n)
		if !ok {
			bad = true
			continue
		}
		text, err := direct(d, v.scr.s, v.scr.f)
		if v.backup != "-" && v.backup != "" {
			m.class = "in place with backup"
			b := n + v.backup
			old, had := m.after[b]
			if !write(b, d) {
				bad = true
				continue
			}
			if err != nil { // whether a failing edit leaves a backup behind is open
				m.loose[b] = append(m.loose[b], m.after[b])
				if had {
					m.after[b] = old
				} else {
					delete(m.after, b)
				}
			}
		}
		if err != nil {
			bad = true
			continue
		}
		write(n, text)
	}
	m.failed = &bad
	return
}

func runP18(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	base := world{"a": {Data: "b a\n", Mode: 0o644}, "b": {Data: "nothing\r\n\xff", Mode: 0o600}, "old": {Data: "longer than any of the results\n", Mode: 0o640}, "d": {Dir: true}, "d/a": {Data: "a", Mode: 0o755}, "a.bak": {Data: "an older backup, rather long\n", Mode: 0o644}, "-a": {Data: "a a", Mode: 0o644}}
	check := func(w int, v invocation) {
		before := base
		if v.src == "-f" {
			before = base.with("script", file{Data: v.scr.s, Mode: 0o644})
		}
		if v.more != "" {
			before = before.with(v.more, file{Data: "xa a", Mode: 0o640})
		}
		m := v.meaning(before)
		dir := sc.fresh(w, before)
		args := v.args(dir)
		chk.Begin(w, func() string { return fmt.Sprint(args) })
		var names []string
		if v.linked {
			names = link(dir)
		}
		if v.src == "-f pipe" {
			p := dir + "/../pipe-of-" + path.Base(dir)
			must(syscall.Mkfifo(p, 0o600))
			defer os.Remove(p)
			fed := make(chan bool)
			go func() { // waits for a reader
				defer close(fed)
				f, err := os.OpenFile(p, os.O_WRONLY, 0)
				must(err)
				defer f.Close()
				half := len(v.scr.s) / 2
				io.WriteString(f, v.scr.s[:half])
				time.Sleep(10 * time.Millisecond)
				io.WriteString(f, v.scr.s[half:])
			}()
			defer func() {
				if f, err := os.OpenFile(p, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil { // if nobody read it
					<-fed
					f.Close()
				}
			}()
		}
		stdin := v.stdin
		if v.src == "-f stdin" {
			stdin = v.scr.s
		}
		var r ran
		if v.env > 0 {
			e := environments(dir)
			r = runBare(dir, stdin, e[v.env%len(e)], args...)
		} else {
			r = run(dir, stdin, args...)
		}
		chk.End(w)
		if v.linked {
			unlink(dir, names)
			r.After = look(dir)
		}
		chk.Transitions.Add(1)
		chk.Validated.Add(1)
		k := m.class
		if m.failed != nil {
			k += fmt.Sprint(" failed=", *m.failed)
		}
		outs[w][k]++
		bad := func(what, exp, act string) {
			chk.Fail(&rep.Violation{What: "P18: " + what + " (" + m.class + ")", Repro: map[string]any{"args": args, "stdin": v.stdin, "files": before.String(), "environment": v.env, "links to files elsewhere": v.linked}, Expected: exp, Actual: act, HowTo: []string{"texted " + strings.Join(args, " ")}})
		}
		if r.crashed() {
			bad("crash", "", r.Err)
		}
		want := m.after
		for n, fs := range m.loose {
			for _, f := range fs {
				if g, ok := r.After[n]; ok && g == f {
					want = want.with(n, f)
				}
			}
		}
		if d := want.diff(r.After); d != "" {
			bad("wrong change to "+d, want.String(), r.After.String())
		}
		if m.failed != nil && *m.failed != (r.Exit != 0) {
			bad("wrong exit status", fmt.Sprint("failure: ", *m.failed), fmt.Sprintf("exit %d, %s", r.Exit, r.Err))
		}
		if m.printd != nil {
			talk := v.has("-v") && !v.has("-q")
			if !talk && r.Out != *m.printd {
				bad("wrong standard output", fmt.Sprintf("%q", *m.printd), fmt.Sprintf("%q", r.Out))
			}
			if talk && !strings.HasSuffix(r.Out, *m.printd) {
				bad("the result is not printed after the messages", fmt.Sprintf("%q", *m.printd), fmt.Sprintf("%q", r.Out))
			}
		}
		for _, text := range m.unsaid {
			if named := strings.Join(args, "\n"); strings.Contains(r.Out, text) && !strings.Contains(named, text) {
				bad("a dry run prints the result", "only what would be done", fmt.Sprintf("%q", r.Out))
			}
		}
		if r.Exit != 0 && strings.TrimSpace(r.Err+r.Out) == "" {
			bad("failure without a word", "a message", "")
		}
	}
	all := func(f string) []scr {
		return []scr{
			{script([]command{findA, replB, toEnd, insMulti}, f), f},
			{script([]command{insX, findA}, f), f},
			{script([]command{query}, f), f},
			{script([]command{insX}, f) + " \"", f},
			{script([]command{delAll}, f), f},
		}
	}
	format := map[string][]string{"shell": nil, "sexp": {"--sexp"}, "json": {"--format", "json"}}
	files := [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"gone"}, {"d/a", "gone", "a"}}
	verbs := [][]string{nil, {"-q"}, {"-v"}}
	outFiles := []string{"", "new", "old", "a"}
	backups := []string{"-", ".bak", ""}
	srcs := []string{"-s", "-f", "-e", "none"}
	if chk.Thorough() {
		files = append(files, []string{"d"}, []string{"b", "a", "d/a", "b"}[:3], []string{"gone", "a"}, []string{"./a"})
		verbs = append(verbs, []string{"-v", "-q"})
		outFiles = append(outFiles, "d/new", "no/new", "d")
		backups = append(backups, "~", "/x")
		srcs = append(srcs, "missing", "--script")
	}
	var vs []invocation
	for _, src := range srcs {
		for fi, f := range formats {
			for si, s := range all(f) {
				if !chk.Thorough() && (si+len(vs))%1 == 0 && fi != si%3 {
					continue // each script in one syntax
				}
				for _, ip := range []bool{false, true} {
					for _, o := range outFiles {
						for _, b := range backups {
							for _, dry := range []bool{false, true} {
								for _, vb := range verbs {
									for _, fl := range files {
										if src == "none" && (si > 0 || len(vb) > 0) {
											continue
										}
										vs = append(vs, invocation{src: src, scr: s, format: format[f], inPlace: ip, out: o, backup: b, dry: dry, verb: vb, files: fl, stdin: "b a\r\n\x00", after: len(vs)%2 == 0})
									}
								}
							}
						}
					}
				}
			}
		}
	}
	chk.Bound("invocations: product of", map[string]any{"script from": srcs, "scripts": 4, "in place": 2, "output files": outFiles, "backup": backups, "dry": 2, "verbosity": verbs, "files": files})
	// one factor at a time, against everything that writes
	for _, f := range formats {
		for _, s := range all(f) {
			for _, fm := range [][]string{{"--format", f}, {"--format=" + f}, {"--" + f}} {
				for _, fl := range [][]string{nil, {"a"}, {"a", "b"}} {
					for _, ip := range []bool{false, true} {
						vs = append(vs, invocation{src: "-s", scr: s, format: fm, inPlace: ip, backup: "-", files: fl, stdin: "a"})
						vs = append(vs, invocation{src: "-f", scr: s, format: fm, inPlace: ip, backup: "-", files: fl, stdin: "a", after: true})
					}
				}
			}
		}
	}
	for _, b := range []string{"~", ".orig", "bak", "/x", "é ", ".bak.bak", "x/y", ".b*k", ".tmp", "%s", "$HOME"} {
		for _, fl := range [][]string{{"a"}, {"b", "a"}, {"d/a"}, {"gone"}, {"b"}} {
			for _, s := range all("shell") {
				vs = append(vs, invocation{src: "-s", scr: s, inPlace: true, backup: b, files: fl}, invocation{src: "--script", scr: s, inPlace: true, backup: b, files: fl, dry: true})
			}
		}
	}
	for _, o := range []string{"d/new", "no/new", "d", "a.bak", "b", "./a", "d/a", "a/x", "é", " sp ace"} {
		for _, fl := range [][]string{nil, {"a"}, {"gone"}, {"b"}, {"a", "b"}} {
			for _, s := range all("shell") {
				vs = append(vs, invocation{src: "-s", scr: s, out: o, backup: "-", files: fl, stdin: "xa"}, invocation{src: "-f", scr: s, out: o, backup: "-", files: fl, stdin: "xa", dry: true, verb: []string{"-q", "-v"}})
			}
		}
	}
	for _, in := range append(alpha([]string{"a", "\n", "\r", "\x00", "\xff"}, 3), strings.Repeat("a\r\n", 70000)) {
		for _, s := range all("shell") {
			vs = append(vs, invocation{src: "-s", scr: s, backup: "-", stdin: in, verb: verbs[len(vs)%3]})
			if s.s != all("shell")[0].s {
				break
			}
		}
	}
	for _, fm := range [][]string{{"--format", "yaml"}, {"--format", ""}, {"--format", "SHELL"}} {
		for _, fl := range files {
			for _, ip := range []bool{false, true} {
				v := invocation{src: "-s", scr: all("shell")[2], format: fm, inPlace: ip, backup: "-", files: fl}
				v.src, v.format = "none", append(fm, "-s", "insert \"x\"")
				vs = append(vs, v)
			}
		}
	}
	// sizes the code mentions
	for i, n := range dict.Around(20, 1<<23) {
		in := strings.Repeat("b a\r\n", n/5) + "xxxxx"[:n%5]
		vs = append(vs, invocation{src: "-s", scr: all("shell")[i%2*4], backup: "-", stdin: in}, invocation{src: "-f", scr: all("shell")[0], out: "new", backup: "-", stdin: in}, invocation{src: "-e", scr: all("shell")[0], backup: "-", stdin: in})
	}
	// odd names, as file, output and backup
	spelled := len(oddNames)
	names := moreNames()
	for i, n := range names {
		raw := n
		if strings.HasPrefix(n, "-") && n != "-" { // a name is no option
			n = "./" + n
		}
		more := path.Clean(n)
		if more == "a.old" { // the backup of another
			continue
		}
		for k, s := range all("shell") {
			if i%5 != k && !chk.Thorough() && (k > 0 || i >= spelled) {
				continue
			}
			vs = append(vs,
				invocation{src: "-s", scr: s, backup: "-", files: []string{n}, more: more},
				invocation{src: "-s", scr: s, inPlace: true, backup: "-", files: []string{n, "a"}, more: more},
				invocation{src: "-f", scr: s, inPlace: true, backup: ".old", files: []string{"a", n}, more: more},
				invocation{src: "-s", scr: s, inPlace: true, backup: ".old", files: []string{n}, more: more, dry: true},
				invocation{src: "-s", scr: s, inPlace: true, backup: raw, files: []string{"d/a"}},
				invocation{src: "-s", scr: s, out: raw, backup: "-", files: []string{"a"}},
				invocation{src: "-s", scr: s, out: raw, backup: "-", stdin: "xa", more: more},
				invocation{src: "-s", scr: s, out: raw, backup: "-", files: []string{n}, more: more},
				invocation{src: "-s", scr: s, inPlace: true, backup: "-", files: []string{n}})
		}
	}
	// options the command does not have change nothing
	for _, o := range []string{"--no-such-option", "--in-plac", "-z", "--backup"} {
		vs = append(vs, invocation{src: "none", format: []string{"-i", "-s", "insert \"x\""}, verb: []string{o}, backup: "-", after: true, files: []string{"a"}})
	}
	// surroundings that change nothing
	n := len(vs)
	for e := range environments("") {
		for i := e * 7; i < n; i += chk.Pick(197, 29) {
			v := vs[i]
			v.env = len(environments("")) + e
			vs = append(vs, v)
		}
	}
	// the same options written another way
	for sp := 1; sp < spellings; sp++ {
		for i := sp * 5; i < n; i += chk.Pick(61, 7) {
			if v := vs[i]; len(v.format) < 3 && !slices.ContainsFunc(v.verb, func(x string) bool {
				return strings.Contains("--no-such-option --in-plac -z --backup", x) && len(x) > 1 && x != "-n"
			}) {
				dash := slices.ContainsFunc(v.files, func(f string) bool { return strings.HasPrefix(f, "-") })
				if v.spell = sp; !dash || sp == 6 {
					vs = append(vs, v)
				}
			}
		}
	}
	chk.Bound("ways to write options", spellings)
	// links to files elsewhere
	for i := 3; i < n; i += chk.Pick(41, 5) {
		v := vs[i]
		v.linked = true
		vs = append(vs, v)
	}
	for i := 0; i < n; i++ {
		if v := vs[i]; v.out == "old" || v.out == "a" || v.backup == ".bak" {
			if v.linked = true; i%5 == 0 || chk.Thorough() {
				vs = append(vs, v)
			}
		}
	}
	// pipes as files
	for _, f := range formats {
		for k, s := range all(f) {
			for _, o := range []string{"", "new", "old", "/dev/stdout", "/dev/null"} {
				for _, verb := range [][]string{nil, {"-q"}} {
					for _, in := range []string{"b a\r\n\x00", "", strings.Repeat("a\n", 40000)} {
						vs = append(vs,
							invocation{src: "-s", scr: s, format: format[f], out: o, backup: "-", verb: verb, files: []string{"/dev/stdin"}, stdin: in},
							invocation{src: "-f", scr: s, format: format[f], out: o, backup: "-", verb: verb, files: []string{"/dev/stdin"}, stdin: in})
						if o == "" {
							vs = append(vs, invocation{src: "-e", scr: s, format: format[f], backup: "-", verb: verb, files: []string{"/dev/stdin"}, stdin: in},
								invocation{src: "-e", scr: s, format: format[f], backup: "-", verb: verb, files: []string{"a", "/dev/stdin"}, stdin: in})
						}
					}
					for _, src := range []string{"-f stdin", "-f pipe"} {
						vs = append(vs, invocation{src: src, scr: s, format: format[f], out: o, backup: "-", verb: verb, files: []string{"a"}})
						if o == "" {
							vs = append(vs, invocation{src: src, scr: s, format: format[f], inPlace: true, backup: []string{"-", ".bak"}[k%2], verb: verb, files: []string{"a", "b"}})
						}
					}
				}
			}
		}
	}
	chk.Bound("environments", len(environments("")))
	chk.Family("invocations", int64(len(vs)))
	chk.Parallel(len(vs), func(w, i int) {
		chk.States.Add(1)
		check(w, vs[i])
	})
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Sample(vs[len(vs)/3].args(""))
	chk.Sample(vs[len(vs)/2].args(""))
	chk.Assume("whether a failing in-place edit leaves a (complete) backup behind is open", "with -v, messages precede the result on standard output", "the exit status of a dry run that could not have succeeded is open")
}
