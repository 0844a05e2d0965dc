package main

import (
	"bytes"
	"context"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/mark3labs/mcp-go/mcp"
	"verifmc/dict"
	"verifmc/rep"
)

// file is one file of a scratch directory.
type file struct {
	Data string
	Mode fs.FileMode
	Dir  bool
}

// oddNames are file names that mean something to some other program.
var oddNames = []string{"%", "%20", "%s", "%d%n", "a%2Fb", "*", "in*", "?", "[a]", "{a,b}", "~", "~x", "$HOME", "${x}", "`x`", "$(x)", "\\", "a\\b", "\"", "'", "a'b\"", ":", "C:x", "a:1", "=", "a=b", ",", "a,b", ";", "a;b", "&", "|", "<x>", "#", "#x#", "!", "@", "@x", "+", "^", "(x)", " ", " x", "x ", "a  b", "\t", "\r", "x\r", "é", "e\u0301", "日本", "😀", "\u00a0", "\u200b", "\ufeffx", "\xff", "\x01", "\x1b[0m", "\x7f", "...", ".x", "..x", "x.", "x..", ".bak", "x.bak", "x~", "x.orig", "X", "x.tmp", "con", "nul", "-", "--", "-i", "-s", "--x", "0", "1", "null", "true", "stdin", "STDIN", "✓ x", "✗ x", "&lt;", "&amp;", strings.Repeat("n", 200), strings.Repeat("é", 100)}

func (f file) String() string {
	if f.Dir {
		return "directory"
	}
	d := fmt.Sprintf("%q", f.Data)
	if len(d) > 300 {
		d = fmt.Sprintf("<%d bytes> %s...", len(f.Data), d[:300])
	}
	return fmt.Sprintf("%s mode %04o", d, f.Mode)
}

// world is the content of a scratch directory, by relative name.
type world map[string]file

func (w world) String() string {
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, n := range names {
		fmt.Fprintf(&b, "%s: %s; ", n, w[n])
	}
	return b.String()
}

func (w world) with(name string, f file) world {
	c := world{}
	for k, v := range w {
		c[k] = v
	}
	c[name] = f
	return c
}

// diff names the first file in which two worlds differ.
func (w world) diff(o world) string {
	var names []string
	for n := range w {
		names = append(names, n)
	}
	for n := range o {
		if _, ok := w[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		a, okA := w[n]
		b, okB := o[n]
		if okA != okB || a != b {
			return n
		}
	}
	return ""
}

// lay writes a world into an empty directory.
func lay(dir string, w world) {
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := w[n]
		p := filepath.Join(dir, n)
		if f.Dir {
			must(os.MkdirAll(p, 0o755))
			continue
		}
		must(os.WriteFile(p, []byte(f.Data), 0o644))
		must(os.Chmod(p, f.Mode))
	}
}

// look reads a directory back.
func look(dir string) world {
	w := world{}
	must(filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return err
		}
		n, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			w[n] = file{Dir: true}
			return nil
		}
		info, err := d.Info()
		if err != nil {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil && d.Type() == fs.ModeSymlink {
			w[n] = file{Data: "a link to nothing"}
			return nil
		}
		if err != nil {
			return err
		}
		w[n] = file{Data: string(b), Mode: info.Mode().Perm()}
		return nil
	}))
	return w
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// scratch gives every worker its own directory below one scratch root.
type scratch struct{ root string }

func newScratch() *scratch {
	base := os.Getenv("VERIF_WORK")
	if _, err := os.Stat("/dev/shm"); err == nil {
		base = "/dev/shm"
	}
	d, err := os.MkdirTemp(base, "texted-verif")
	must(err)
	rep.OnExit(func() { os.RemoveAll(d) })
	return &scratch{d}
}

func (s *scratch) done() { os.RemoveAll(s.root) }

// fresh empties and lays the worker's directory.
func (s *scratch) fresh(w int, x world) string {
	d := filepath.Join(s.root, fmt.Sprint("w", w))
	must(os.RemoveAll(d))
	must(os.Mkdir(d, 0o755))
	lay(d, x)
	return d
}

// ran is what a run of the command line did.
type ran struct {
	Out, Err string
	Exit     int
	After    world
	Hung     bool
}

// run runs texted in dir.
func run(dir, stdin string, args ...string) ran { return runEnv(dir, stdin, nil, args...) }

// runEnv runs texted in dir with additional environment variables.
func runEnv(dir, stdin string, env []string, args ...string) ran {
	return runBare(dir, stdin, append(os.Environ(), env...), args...)
}

// runBare runs texted in dir with only the given environment variables.
func runBare(dir, stdin string, env []string, args ...string) ran {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, rep.Texted(), args...)
	cmd.Dir = dir
	cmd.Env = env
	cmd.Stdin = strings.NewReader(stdin)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := ran{Out: o.String(), Err: e.String(), After: look(dir)}
	if err != nil {
		if cmd.ProcessState == nil {
			must(err)
		}
		r.Exit = cmd.ProcessState.ExitCode()
		r.Hung = ctx.Err() != nil
	}
	return r
}

// crashed tells a Go panic or fatal error from an ordinary failure.
func (r ran) crashed() bool {
	return r.Hung || r.Exit != 0 && r.Exit != 1 || strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "goroutine 1 [")
}

// parse reads a script in a format.
func parse(script, format string) ([]edlisp.Value, error) {
	if format == "json" {
		return parser.ParseJSONScript(script)
	}
	return parser.ParseString(script)
}

// result of running a script directly on the evaluator, without the functions
// that deal with files.
func direct(input, script, format string) (string, error) {
	prog, err := parse(script, format)
	if err != nil {
		return "", err
	}
	buf := edlisp.NewBuffer(input)
	if _, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), buf); err != nil {
		return "", err
	}
	return buf.String(), nil
}

func request(args map[string]any) mcp.CallToolRequest {
	return mcp.CallToolRequest{Params: mcp.CallToolParams{Arguments: args}}
}

// said is the text and error mark of a tool answer.
func said(r *mcp.CallToolResult, err error) (string, bool) {
	if err != nil {
		return "handler error: " + err.Error(), true
	}
	if r == nil || len(r.Content) != 1 {
		return "no single content", true
	}
	t, ok := mcp.AsTextContent(r.Content[0])
	if !ok {
		return "no text content", true
	}
	return t.Text, r.IsError
}

// alpha enumerates all strings over the symbols with at most n of them.
func alpha(symbols []string, n int) []string {
	r := []string{""}
	level := r
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range level {
			for _, s := range symbols {
				next = append(next, p+s)
			}
		}
		r = append(r, next...)
		level = next
	}
	return r
}

func shortTail(s string) string {
	if len(s) > 800 {
		return fmt.Sprintf("<%d bytes> %q...", len(s), s[:800])
	}
	return fmt.Sprintf("%q", s)
}

func guard(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// environments are surroundings that change nothing: none at all, and many
// variables that other programs heed, with odd values.
func environments(dir string) [][]string {
	names := []string{"HOME", "TMPDIR", "TEMP", "TMP", "PWD", "LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TZ", "SIMPLE_BACKUP_SUFFIX", "VERSION_CONTROL", "NO_COLOR", "FORCE_COLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "DEBUG", "VERBOSE", "QUIET", "DRY_RUN", "FORCE", "CI", "EDITOR", "VISUAL", "PAGER", "SHELL", "USER", "POSIXLY_CORRECT", "SOURCE_DATE_EPOCH", "GOMAXPROCS", "GOGC"}
	for _, o := range []string{"", "DEBUG", "VERBOSE", "QUIET", "FORMAT", "BACKUP", "DRY_RUN", "OUTPUT", "SCRIPT", "FILE", "EXPRESSION", "IN_PLACE", "HOME", "CONFIG", "TRACE", "LOG", "LOG_LEVEL", "MAX_SIZE", "STRICT", "COMPAT", "OPTS", "OPTIONS", "DIR", "ROOT", "TMPDIR"} {
		names = append(names, strings.TrimSuffix("TEXTED_"+o, "_"))
	}
	for _, x := range dict.Texts() {
		if len(x) > 1 && !strings.HasPrefix(x, "GO") && !strings.HasPrefix(x, "LD_") && strings.ToUpper(x) == x && strings.Trim(x, "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") == "" {
			names = append(names, x)
		}
	}
	r := [][]string{nil}
	for _, v := range []string{"", "0", "1", "true", "json", "sexp", "shell", ".sav", "existing", "/nonexistent/dir", dir} {
		var e []string
		for _, n := range names {
			if n == "GOMAXPROCS" || n == "GOGC" {
				if v != "1" {
					continue
				}
			}
			e = append(e, n+"="+v)
		}
		r = append(r, e)
	}
	return r
}

// plain reports whether a text the code mentions can name a new file.
func plain(x string) bool {
	switch x {
	case "", ".", "..", "a", "b", "old", "d", "a.bak", "-a", "script":
		return false
	}
	return !strings.ContainsAny(x, "/\x00\n") && len(x) < 200
}

// moreNames are the odd names with the texts the code mentions.
func moreNames() []string {
	r := append([]string(nil), oddNames...)
	for _, x := range dict.Texts() {
		if plain(x) && !slices.Contains(r, x) {
			r = append(r, x)
		}
	}
	return r
}

// link moves the files of a directory elsewhere and leaves links to them.
func link(dir string) (names []string) {
	must(os.RemoveAll(dir + ".real"))
	must(os.Mkdir(dir+".real", 0o755))
	for n, f := range look(dir) {
		if !f.Dir {
			p := filepath.Join(dir+".real", fmt.Sprint(len(names)))
			must(os.Rename(filepath.Join(dir, n), p))
			must(os.Symlink(p, filepath.Join(dir, n)))
			names = append(names, n)
		}
	}
	return names
}

// unlink puts the files back that links still lead to; others stay what they
// are, and the file they led to takes their place with a name of its own.
func unlink(dir string, names []string) {
	for i, n := range names {
		p := filepath.Join(dir, n)
		if st, err := os.Lstat(p); err != nil || st.Mode()&fs.ModeSymlink == 0 {
			p = filepath.Join(dir, fmt.Sprint("file ", i, " that a link led to"))
		}
		must(os.Rename(filepath.Join(dir+".real", fmt.Sprint(i)), p))
	}
	must(os.Remove(dir + ".real"))
}
