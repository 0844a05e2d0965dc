package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifmc/rep"
)

// hit is one planned fault: the how-manyth system call it replaces and how.
type hit struct {
	At  int
	Act string
	Arg int
}

func (h hit) String() string {
	a := strconv.Itoa(h.Arg)
	if h.Act == "err" {
		a = syscall.Errno(h.Arg).Error()
	}
	return fmt.Sprintf("call %d: %s %s", h.At, h.Act, a)
}

// sysCall is one observed system call.
type sysCall struct {
	Op, Path string
	N        int
	Write    bool
	Hit      string
}

func (c sysCall) String() string {
	return strings.TrimSpace(fmt.Sprintf("%s %s %d %s", c.Op, c.Path, c.N, c.Hit))
}

// kills tells whether the fault ends the process.
func (h hit) kills() bool { return h.Act == "die" || h.Act == "after" || h.Act == "torn" }

// harmless tells whether a correct program does not notice the fault.
func (h hit) harmless() bool {
	return h.Act == "err" && h.Arg == int(syscall.EINTR) || h.Act == "short" && h.Arg > 0
}

// places lists the calls at which something is done to a run. Where the same
// call is made on the same file again and again (a transfer in many pieces) these
// are the first ones, the last ones, and one between.
func places(calls []sysCall) []int {
	type key struct{ op, path string }
	all, seen := map[key]int{}, map[key]int{}
	most := map[key]int{}
	for _, c := range calls {
		k := key{c.Op, c.Path}
		all[k]++
		if c.N > 4096 {
			most[k] = 12
		} else if most[k] == 0 {
			most[k] = 40
		}
	}
	var r []int
	for i, c := range calls {
		k := key{c.Op, c.Path}
		if n, m := seen[k], all[k]; m <= most[k] || n < 3 || m-n <= 3 || n == m/2 {
			r = append(r, i)
		}
		seen[k]++
	}
	return r
}

// errors lists what can go wrong with a call short of the process dying.
func (c sysCall) errors(all bool) []hit {
	e := func(nos ...syscall.Errno) (r []hit) {
		for _, n := range nos {
			r = append(r, hit{Act: "err", Arg: int(n)})
		}
		return
	}
	switch c.Op {
	case "open":
		if c.Write {
			return e(syscall.EACCES, syscall.ENOSPC, syscall.EINTR)
		}
		return e(syscall.EIO, syscall.EMFILE, syscall.EINTR)
	case "read", "pread":
		return append(e(syscall.EIO, syscall.EINTR), hit{Act: "short", Arg: 1})
	case "write", "pwrite":
		r := e(syscall.EIO, syscall.EINTR)
		if c.Path == "<stdout>" {
			r = append(r, e(syscall.EPIPE)...)
		}
		if c.N > 0 {
			r = append(r, hit{Act: "full", Arg: 0}, hit{Act: "short", Arg: 0})
		}
		for _, n := range cuts(c.N, all) {
			r = append(r, hit{Act: "short", Arg: n}, hit{Act: "full", Arg: n})
		}
		return r
	case "fstat", "stat":
		return e(syscall.EIO)
	case "close":
		return e(syscall.EIO)
	}
	return e(syscall.EIO, syscall.ENOSPC)
}

// rarer lists the other ways in which a call can be refused: whatever the
// reason, it is a failure.
func (c sysCall) rarer() []hit {
	nos := []syscall.Errno{syscall.EIO, syscall.EPERM, syscall.ENOMEM, syscall.ESTALE, syscall.ETIMEDOUT, syscall.ENOLCK, syscall.ENODEV, syscall.ENXIO, syscall.EINVAL, syscall.EBADF, syscall.ENOTCONN}
	switch c.Op {
	case "open":
		nos = append(nos, syscall.EACCES, syscall.ENFILE, syscall.EMFILE, syscall.ELOOP, syscall.ENAMETOOLONG, syscall.ENOTDIR, syscall.ENOENT, syscall.EBUSY, syscall.ETXTBSY, syscall.EOVERFLOW, syscall.EWOULDBLOCK)
		if c.Write {
			nos = append(nos, syscall.EISDIR, syscall.EROFS, syscall.EDQUOT, syscall.ENOSPC, syscall.EMLINK)
		}
	case "read", "pread":
		nos = append(nos, syscall.EISDIR, syscall.EOVERFLOW, syscall.EBADMSG)
	case "write", "pwrite":
		nos = append(nos, syscall.EDQUOT, syscall.EFBIG, syscall.ENOSPC, syscall.EROFS, syscall.EACCES, syscall.ENOBUFS)
	case "close":
		nos = []syscall.Errno{syscall.ENOSPC, syscall.EDQUOT}
	case "fstat", "stat":
		nos = []syscall.Errno{syscall.EOVERFLOW, syscall.ENOMEM, syscall.ESTALE}
	}
	var r []hit
	for _, n := range nos {
		r = append(r, hit{Act: "err", Arg: int(n)})
	}
	return r
}

// cuts are the places at which a transfer of n bytes is cut short.
func cuts(n int, all bool) []int {
	var r []int
	if n > 1<<14 { // ends, halves and powers of two
		for i := 1; i < n; i *= 2 {
			if i == 1 || all && i >= 512 {
				r = append(r, i)
			}
		}
		if all {
			r = append(r, n/3)
		}
		return append(r, n/2, n-1)
	}
	for i := 1; i < n; i++ {
		if all && n <= 64 || i == 1 || i == n-1 || i == n/2 || all && (i%512 == 0 || i%512 == 1) {
			r = append(r, i)
		}
	}
	return r
}

// deaths lists the points at which the process can be killed around a call.
func (c sysCall) deaths(all bool) []hit {
	r := []hit{{Act: "die"}, {Act: "after"}}
	if c.Op == "write" || c.Op == "pwrite" {
		for _, n := range cuts(c.N, all) {
			r = append(r, hit{Act: "torn", Arg: n})
		}
	}
	return r
}

// faulted is a run of the command line under faults.
type faulted struct {
	ran
	Calls  []sysCall
	Killed bool
}

// runFaults runs texted in dir under a plan.
func runFaults(dir, stdin string, plan []hit, args ...string) faulted {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, rep.Texted(), args...)
	cmd.Dir = dir
	var p []string
	for _, h := range plan {
		p = append(p, fmt.Sprintf("%d:%s:%d", h.At, h.Act, h.Arg))
	}
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=/root", "VERIF_FAULT=" + strings.Join(p, ","), "VERIF_SCRATCH=" + dir}
	in := dir + ".stdin"
	must(os.WriteFile(in, []byte(stdin), 0o644))
	f, err := os.Open(in)
	must(err)
	defer f.Close()
	cmd.Stdin = f
	tr, err := os.Create(dir + ".trace")
	must(err)
	defer tr.Close()
	cmd.ExtraFiles = []*os.File{tr}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err = cmd.Run()
	r := faulted{ran: ran{Out: o.String(), Err: e.String(), After: look(dir)}}
	if err != nil {
		if cmd.ProcessState == nil {
			must(err)
		}
		r.Exit = cmd.ProcessState.ExitCode()
		r.Hung = ctx.Err() != nil
	}
	r.Killed = r.Exit == 137
	b, err := os.ReadFile(dir + ".trace")
	must(err)
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		c := strings.Split(sc.Text(), "\t")
		if len(c) != 6 {
			continue
		}
		n, _ := strconv.Atoi(c[2])
		path, _ := strconv.Unquote(c[5])
		if rel, err := filepath.Rel(dir, path); err == nil && strings.HasPrefix(path, "/") {
			path = rel
		}
		r.Calls = append(r.Calls, sysCall{c[1], filepath.Clean(path), n, c[3] == "true", c[4]})
	}
	return r
}

// job is a run of the command line to be put under faults.
type job struct {
	Name   string
	Before world
	Stdin  string
	Args   []string
	Files  []string // edited in place, in order
	Suffix string
	Target string // where the result goes: "" in place, "<stdout>", or a file
	Main   string // the one input file, if it is not edited in place
	Quiet  bool
	Heads  []string // beginnings of messages that are not part of the result
}

func (j job) repro(plan []hit, r faulted) map[string]any {
	var cs, ps []string
	for i, c := range r.Calls {
		cs = append(cs, fmt.Sprintf("%d %s", i, c))
	}
	for _, h := range plan {
		ps = append(ps, h.String())
	}
	return map[string]any{"command": j.Args, "files": j.Before.String(), "stdin": j.Stdin, "faults": ps, "calls": cs,
		"exit": r.Exit, "stdout": r.Out, "stderr": shortTail(r.Err), "after": r.After.String()}
}

// jobs lists the runs of the command line that are explored.
// file0 is file where that name is taken.
type file0 = file

func jobs(thorough, backups bool) []job {
	var js []job
	long := strings.Repeat("0123456789abcde\n", 320)
	file := func(s string) file { return file{Data: s, Mode: 0o644} }
	file2 := func(s string, m fs.FileMode) file0 { return file0{Data: s, Mode: m} }
	dirFile := file0{Dir: true}
	ins := "search-forward \"a\"; replace-match \"<<\"; end-of-buffer; insert \"!\""
	for _, suffix := range []string{".bak", "~", ""} {
		if backups != (suffix != "") || suffix == "~" && !thorough {
			continue
		}
		base := []string{"edit", "-i"}
		if suffix != "" {
			base = append(base, "--backup", suffix)
		}
		add := func(name string, w world, files []string, script string, more ...string) {
			args := append(append(append([]string{}, base...), more...), "-s", script)
			args = append(args, files...)
			js = append(js, job{Name: name + " in place " + suffix, Before: w, Args: args, Files: files, Suffix: suffix,
				Quiet: strings.Contains(" "+strings.Join(more, " ")+" ", " -q ")})
		}
		one := world{"a.txt": file("banana"), "other": file("other")}
		add("one file", one, []string{"a.txt"}, ins)
		add("one empty file", world{"a.txt": file("")}, []string{"a.txt"}, `insert "filled"`)
		add("one file emptied", world{"a.txt": file("banana")}, []string{"a.txt"}, "mark-whole-buffer; delete-region")
		add("one file unchanged", one, []string{"a.txt"}, "point")
		add("one long file", world{"a.txt": file(long)}, []string{"a.txt"}, "delete-char 16; end-of-buffer; insert \"end\"")
		add("one file growing", world{"a.txt": file("ab")}, []string{"a.txt"}, fmt.Sprintf("insert %q", long))
		add("one file quiet", one, []string{"a.txt"}, ins, "-q")
		add("one file verbose", one, []string{"a.txt"}, ins, "-v")
		add("failing script", one, []string{"a.txt"}, "insert \"x\"; search-forward \"zzz\"")
		add("failing parse", one, []string{"a.txt"}, "insert \"x")
		three := world{"a.txt": file("banana"), "b.txt": file("bab"), "c.txt": file("cacao"), "other": file("other")}
		add("three files", three, []string{"a.txt", "b.txt", "c.txt"}, ins)
		add("three files, the middle one missing", world{"a.txt": file("banana"), "c.txt": file("cacao")}, []string{"a.txt", "b.txt", "c.txt"}, ins)
		add("three files, the middle one failing", world{"a.txt": file("banana"), "b.txt": file("bbb"), "c.txt": file("cacao")}, []string{"a.txt", "b.txt", "c.txt"}, ins)
		if suffix != "" {
			add("stale backup", one.with("a.txt"+suffix, file("older and longer than the file")), []string{"a.txt"}, ins)
			for k, old := range []string{"", "x", "banan", "banana", "bananaX", "bananb", "Xanana", "ANANAB", "b", "<<nana!", "<<nanb!", "b<<nana!", strings.Repeat("banana", 9)} {
				mode := []fs.FileMode{0o644, 0o444, 0o600, 0o755}[k%4]
				add(fmt.Sprintf("stale backup %q", old), one.with("a.txt"+suffix, file2(old, mode)), []string{"a.txt"}, ins)
			}
			add("stale backup of a long file, same size", world{"a.txt": file(long), "a.txt" + suffix: file(long[:4700] + "#" + long[4701:])}, []string{"a.txt"}, "insert \"new\"")
			add("stale backup of a long file, same beginning", world{"a.txt": file(long), "a.txt" + suffix: file(long + "more")}, []string{"a.txt"}, "insert \"new\"")
			add("backup name taken by a directory", three.with("b.txt"+suffix, dirFile), []string{"a.txt", "b.txt", "c.txt"}, ins)
			add("backup name taken by a full directory", three.with("a.txt"+suffix, dirFile).with("a.txt"+suffix+"/x", file("x")), []string{"a.txt", "c.txt"}, ins)
			add("two stale backups", three.with("a.txt"+suffix, file("o")).with("c.txt"+suffix, file("older and longer")), []string{"c.txt", "a.txt"}, ins)
			add("the same file twice", one, []string{"a.txt", "./a.txt"}, "insert \"x\"")
			add("the same file thrice among others", three, []string{"a.txt", "b.txt", "a.txt", "a.txt"}, "insert \"x\"")
			add("a file and its backup", one.with("a.txt"+suffix, file("older")), []string{"a.txt", "a.txt" + suffix}, "insert \"x\"")
			add("a backup and its file", one.with("a.txt"+suffix, file("older")), []string{"a.txt" + suffix, "a.txt"}, "insert \"x\"")
			add("file in a directory", world{"d": {Dir: true}, "d/a.txt": file("banana")}, []string{"d/a.txt"}, ins)
		}
	}
	if backups {
		return js
	}
	one := world{"a.txt": file("banana"), "other": file("other")}
	out := func(name, target, main string, w world, stdin string, args ...string) {
		js = append(js, job{Name: name, Before: w, Stdin: stdin, Args: args, Target: target, Main: main,
			Heads: []string{"Processing ", "Writing output ", "Evaluating expression", "=== "}})
	}
	out("stdin to stdout", "<stdout>", "", one, "banana", "edit", "-s", ins)
	out("empty stdin", "<stdout>", "", one, "", "edit", "-s", "insert \"x\"")
	out("long stdin", "<stdout>", "", one, long, "edit", "-s", ins)
	out("stdin verbose", "<stdout>", "", one, "banana", "edit", "-v", "-s", ins)
	out("stdin, failing script", "<stdout>", "", one, "banana", "edit", "-s", "search-forward \"q\"")
	out("stdin to new file", "new", "", one, "banana", "edit", "-o", "new", "-s", ins)
	out("stdin to old file", "other", "", one, "banana", "edit", "-o", "other", "-s", ins)
	out("stdin to file verbose", "new", "", one, "banana", "edit", "-v", "-o", "new", "-s", ins)
	out("file to stdout", "<stdout>", "a.txt", one, "", "edit", "-s", ins, "a.txt")
	out("file to stdout verbose", "<stdout>", "a.txt", one, "", "edit", "-v", "-s", ins, "a.txt")
	out("long file to stdout", "<stdout>", "a.txt", world{"a.txt": file(long)}, "", "edit", "-s", ins, "a.txt")
	for _, n := range []int{70000, 1<<20 + 1} {
		big := strings.Repeat("banana é\n", n/10+1)[:n]
		w := one.with("a.txt", file(big))
		out(fmt.Sprint("stdin of ", n, " bytes to stdout"), "<stdout>", "", one, big, "edit", "-s", ins)
		out(fmt.Sprint("stdin of ", n, " bytes to old file"), "other", "", one, big, "edit", "-o", "other", "-s", ins)
		out(fmt.Sprint("file of ", n, " bytes to stdout"), "<stdout>", "a.txt", w, "", "edit", "-s", ins, "a.txt")
		out(fmt.Sprint("file of ", n, " bytes to new file"), "new", "a.txt", w, "", "edit", "-o", "new", "-s", ins, "a.txt")
		out(fmt.Sprint("expression on a file of ", n, " bytes"), "<stdout>", "a.txt", w, "", "edit", "-e", "buffer-substring 1 -1", "a.txt")
		js = append(js, job{Name: fmt.Sprint("file of ", n, " bytes in place"), Before: w, Args: []string{"edit", "-i", "-s", ins, "a.txt"}, Files: []string{"a.txt"}})
	}
	out("file to new file", "new", "a.txt", one, "", "edit", "-o", "new", "-s", ins, "a.txt")
	out("file to old file", "other", "a.txt", one, "", "edit", "-o", "other", "-s", ins, "a.txt")
	out("long file to file", "new", "a.txt", world{"a.txt": file(long)}, "", "edit", "-o", "new", "-s", ins, "a.txt")
	out("empty result to old file", "other", "a.txt", one, "", "edit", "-o", "other", "-s", "mark-whole-buffer; delete-region", "a.txt")
	scr := one.with("s.texted", file(ins))
	out("script file, stdin", "<stdout>", "", scr, "banana", "edit", "-f", "s.texted")
	out("script file, file", "<stdout>", "a.txt", scr, "", "edit", "-f", "s.texted", "a.txt")
	out("script file, output", "new", "a.txt", scr, "", "edit", "-f", "s.texted", "-o", "new", "a.txt")
	long2 := one.with("s.texted", file(strings.Repeat("insert \"abc\"\n", 300)))
	out("long script file", "<stdout>", "a.txt", long2, "", "edit", "-f", "s.texted", "a.txt")
	for _, f := range []string{"shell", "sexp", "json"} {
		in := "insert \"abc\"\nforward-char 2\nreplace-match \"x\"\n"
		out("parse to "+f, "<stdout>", "", world{}, in, "parse", "--output-format", f)
		out("parse longer script to "+f, "<stdout>", "", world{}, strings.Repeat(in, 60), "parse", "--output-format", f)
	}
	out("parse from sexp", "<stdout>", "", world{}, "(insert \"abc\")\n(point)\n", "parse", "--input-format", "sexp", "--output-format", "json")
	out("parse from json", "<stdout>", "", world{}, "[\"insert\",\"abc\"]\n[\"point\"]\n", "parse", "--input-format", "json", "--output-format", "shell")
	out("parse long json", "<stdout>", "", world{}, strings.Repeat("[\"insert\",\"abc\"]\n", 200), "parse", "--input-format", "json", "--output-format", "shell")
	two := world{"a.txt": file("banana"), "b.txt": file("bab")}
	out("expressions on stdin", "<stdout>", "", one, "banana", "edit", "-e", "point-max", "-e", "insert \"x\"", "-e", "buffer-substring 1 -1")
	out("expressions on a file", "<stdout>", "a.txt", one, "", "edit", "-v", "-e", "point-max", "-e", "buffer-substring 1 -1", "a.txt")
	out("expressions on two files", "<stdout>", "", two, "", "edit", "--output-format", "sexp", "-e", "point-max", "-e", "insert \"x\"", "-e", "buffer-substring 1 -1", "a.txt", "b.txt")
	out("expression in json", "<stdout>", "a.txt", one, "", "edit", "--format", "json", "--output-format", "json", "-e", `["concat","a","b"]`, "a.txt")
	xml := func(s string) world { return world{"t.xml": file(s), "u.xml": file(s)} }
	good := "<buffer>banana</buffer>\n<input lang=\"shell\">search-forward \"a\"; replace-match \"<</input>\n"
	good = strings.Replace(good, "\"<</", "\"X\"</", 1) + "<output>bXnana</output>\n"
	js = append(js, job{Name: "script test", Before: xml(good), Args: []string{"test", "t.xml", "u.xml"}, Target: "<test>"})
	return js
}
