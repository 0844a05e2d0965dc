// Command overlay writes a build overlay that puts a source of nondeterminism
// under the control of the harness: overlay KIND DIR writes DIR/overlay.json.
package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
)

type overlay struct {
	dir     string
	Replace map[string]string
}

func (o *overlay) put(path, name, text string) {
	p := filepath.Join(o.dir, name)
	check(os.WriteFile(p, []byte(text), 0o644))
	o.Replace[path] = p
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "overlay:", err)
		os.Exit(2)
	}
}

// edit reads a file and replaces each old text, which must occur exactly n times.
func edit(path string, changes ...string) string {
	b, err := os.ReadFile(path)
	check(err)
	s := string(b)
	for i := 0; i < len(changes); i += 2 {
		if strings.Count(s, changes[i]) != 1 {
			check(fmt.Errorf("%s: %d times %q", path, strings.Count(s, changes[i]), changes[i]))
		}
		s = strings.Replace(s, changes[i], changes[i+1], 1)
	}
	return s
}

func main() {
	kind, dir := os.Args[1], os.Args[2]
	check(os.MkdirAll(dir, 0o755))
	o := &overlay{dir, map[string]string{}}
	root := runtime.GOROOT()
	if r := os.Getenv("VERIF_GOROOT"); r != "" {
		root = r
	}
	src := func(p string) string { return filepath.Join(root, "src", p) }
	repo := "/repo"
	switch kind {
	case "maporder":
		mapOrder(o, src)
		o.put(repo+"/cmd/texted/verif_maporder.go", "cli_maporder.go", cliMapOrder)
	case "syscalls":
		sysCalls(o, src)
		o.put(repo+"/cmd/texted/verif_policy.go", "cli_policy.go", policy)
		o.put(repo+"/cmd/texted/verif_faults.go", "cli_faults.go", "package main\n\nfunc init() { faultProcess() }\n")
		o.put(filepath.Join(os.Getenv("VERIF_DIR"), "mc/cmd/files/verif_policy.go"), "files_policy.go", policy)
	case "sched":
		sched(o, repo)
	default:
		check(fmt.Errorf("unknown kind %q", kind))
	}
	b, err := json.MarshalIndent(o, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(dir, "overlay.json"), b, 0o644))
}

// mapOrder makes the place at which an iteration over a map starts, which the
// runtime draws at random, a choice of the harness.
func mapOrder(o *overlay, src func(string) string) {
	p := src("internal/runtime/maps/table.go")
	o.put(p, "maps_table.go", edit(p,
		"it.entryOffset = rand()", "it.entryOffset = verifOffset()",
		"it.dirOffset = rand()", "it.dirOffset = verifOffset()")+`
// VerifOrder is one more than the offset at which every iteration starts.
var VerifOrder uint64

func verifOffset() uint64 {
	if VerifOrder == 0 {
		return rand()
	}
	return VerifOrder - 1
}
`)
}

const cliMapOrder = `package main

import (
	"os"
	"strconv"
	_ "unsafe"
)

//go:linkname verifOrder internal/runtime/maps.VerifOrder
var verifOrder uint64

func init() {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_MAP_ORDER"), 10, 64)
	verifOrder = n
}
`

//go:embed policy.go.txt
var policy string

// sysCalls puts a hook in front of the system calls that deal with files.
func sysCalls(o *overlay, src func(string) string) {
	p := src("syscall/zsyscall_linux_amd64.go")
	var edits []string
	for _, f := range []string{"openat", "read", "write", "pread", "pwrite", "Close", "Ftruncate", "Fchmod", "fchmodat",
		"Renameat", "unlinkat", "linkat", "symlinkat", "Mkdirat", "Fsync", "Fdatasync", "Fstat", "fstatat", "Truncate"} {
		edits = append(edits, "\nfunc "+f+"(", "\nfunc verif_"+f+"(")
	}
	o.put(p, "zsyscall.go", edit(p, edits...)+hooked)
	for _, f := range []struct{ file, from, to string }{
		{"internal/poll/copy_file_range_unix.go", "	if !supportCopyFileRange() {\n", "	if true || !supportCopyFileRange() {\n"},
		{"internal/poll/sendfile_unix.go", "	if goos := runtime.GOOS; goos == \"linux\" || goos == \"android\" {\n",
			"	if true {\n		return 0, nil, false\n	}\n	if goos := runtime.GOOS; goos == \"linux\" || goos == \"android\" {\n"},
		{"internal/poll/splice_linux.go", "	p, err := getPipe()\n	if err != nil {\n		return 0, false, err\n	}\n	defer putPipe(p)\n	var inPipe, n int\n",
			"	if true {\n		return 0, false, nil\n	}\n	p, err := getPipe()\n	if err != nil {\n		return 0, false, err\n	}\n	defer putPipe(p)\n	var inPipe, n int\n"},
	} {
		p := src(f.file)
		o.put(p, strings.ReplaceAll(f.file, "/", "_"), edit(p, f.from, f.to))
	}
}

const hooked = `
// VerifEnter decides what becomes of a system call: 0 goes on, 1 fails with
// the errno arg, 2 transfers at most arg bytes; with 48 added the process ends
// right after the call.
var VerifEnter func(op string, fd int, path string, n int) (act, arg int)

// VerifOpened is told about every file opened.
var VerifOpened func(fd int, path string, flags int)

func verifEnter(op string, fd int, path string, n int) (int, int) {
	if VerifEnter == nil {
		return 0, 0
	}
	return VerifEnter(op, fd, path, n)
}

func verifLeave(act int) {
	for act>>4 != 0 {
		RawSyscall(SYS_EXIT_GROUP, 137, 0, 0)
	}
}

func verifPlain(op string, fd int, path string, n int, f func() error) error {
	act, arg := verifEnter(op, fd, path, n)
	if act == 1 {
		return Errno(arg)
	}
	err := f()
	verifLeave(act)
	return err
}

func verifMove(op string, fd int, p []byte, f func(p []byte) (int, error)) (int, error) {
	act, arg := verifEnter(op, fd, "", len(p))
	switch act & 15 {
	case 1:
		return -1, Errno(arg)
	case 2:
		if arg < len(p) {
			p = p[:arg]
		}
		if len(p) == 0 {
			verifLeave(act)
			return 0, nil
		}
	}
	n, err := f(p)
	verifLeave(act)
	return n, err
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	act, arg := verifEnter("open", -1, path, flags)
	if act == 1 {
		return -1, Errno(arg)
	}
	fd, err = verif_openat(dirfd, path, flags, mode)
	if err == nil && VerifOpened != nil {
		VerifOpened(fd, path, flags)
	}
	verifLeave(act)
	return
}

func read(fd int, p []byte) (n int, err error) {
	return verifMove("read", fd, p, func(p []byte) (int, error) { return verif_read(fd, p) })
}

func write(fd int, p []byte) (n int, err error) {
	return verifMove("write", fd, p, func(p []byte) (int, error) { return verif_write(fd, p) })
}

func pread(fd int, p []byte, offset int64) (n int, err error) {
	return verifMove("pread", fd, p, func(p []byte) (int, error) { return verif_pread(fd, p, offset) })
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	return verifMove("pwrite", fd, p, func(p []byte) (int, error) { return verif_pwrite(fd, p, offset) })
}

func Close(fd int) (err error) {
	act, arg := verifEnter("close", fd, "", 0)
	err = verif_Close(fd)
	verifLeave(act)
	if act&15 == 1 {
		return Errno(arg)
	}
	return err
}

func Ftruncate(fd int, length int64) (err error) {
	return verifPlain("ftruncate", fd, "", int(length), func() error { return verif_Ftruncate(fd, length) })
}

func Fchmod(fd int, mode uint32) (err error) {
	return verifPlain("fchmod", fd, "", int(mode), func() error { return verif_Fchmod(fd, mode) })
}

func fchmodat(dirfd int, path string, mode uint32) (err error) {
	return verifPlain("chmod", -1, path, int(mode), func() error { return verif_fchmodat(dirfd, path, mode) })
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	return verifPlain("rename", -1, newpath, 0, func() error { return verif_Renameat(olddirfd, oldpath, newdirfd, newpath) })
}

func unlinkat(dirfd int, path string, flags int) (err error) {
	return verifPlain("unlink", -1, path, flags, func() error { return verif_unlinkat(dirfd, path, flags) })
}

func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {
	return verifPlain("link", -1, newpath, flags, func() error { return verif_linkat(olddirfd, oldpath, newdirfd, newpath, flags) })
}

func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {
	return verifPlain("symlink", -1, newpath, 0, func() error { return verif_symlinkat(oldpath, newdirfd, newpath) })
}

func Mkdirat(dirfd int, path string, mode uint32) (err error) {
	return verifPlain("mkdir", -1, path, 0, func() error { return verif_Mkdirat(dirfd, path, mode) })
}

func Fsync(fd int) (err error) {
	return verifPlain("fsync", fd, "", 0, func() error { return verif_Fsync(fd) })
}

func Fdatasync(fd int) (err error) {
	return verifPlain("fsync", fd, "", 0, func() error { return verif_Fdatasync(fd) })
}

func Fstat(fd int, stat *Stat_t) (err error) {
	return verifPlain("fstat", fd, "", 0, func() error { return verif_Fstat(fd, stat) })
}

func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {
	return verifPlain("stat", -1, path, 0, func() error { return verif_fstatat(fd, path, stat, flags) })
}

func Truncate(path string, length int64) (err error) {
	return verifPlain("truncate", -1, path, int(length), func() error { return verif_Truncate(path, length) })
}
`
