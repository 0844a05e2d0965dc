// Command files decides the properties of texted's front ends: files, the
// command line, the tools, the script tests and the documentation.
package main

import (
	"fmt"
	"os"
	"syscall"

	"verifmc/rep"
)

// openFiles is how many files the checks and what they run may have open.
const openFiles = 400

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: files ID [quick|thorough]")
		os.Exit(2)
	}
	m := map[string]func(*rep.Check){"P16": runP16, "P17": runP17, "P18": runP18, "P19": runP19, "P22": runP22,
		"P25": runP25, "P26": runP26, "P28": runP28, "P20": runP20, "P21": runP21, "P29": runP29}
	if f, ok := m[os.Args[1]]; ok {
		// Nothing texted does needs many files open at a time; what keeps them
		// open runs out of them soon.
		n := syscall.Rlimit{Cur: openFiles, Max: openFiles}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &n); err != nil {
			fmt.Fprintln(os.Stderr, "cannot limit open files:", err)
		}
		rep.Main(os.Args[1], "model_checking", f)
	}
	fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
	os.Exit(2)
}
