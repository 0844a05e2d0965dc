// Command lang decides the script-language properties: parsing, agreement of
// the three syntaxes, and conversion between them.
package main

import (
	"fmt"
	"os"

	"verifmc/rep"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: lang ID [quick|thorough]")
		os.Exit(2)
	}
	if f, ok := map[string]func(*rep.Check){"P13": runP13, "P14": runP14, "P15": runP15}[os.Args[1]]; ok {
		rep.Main(os.Args[1], "model_checking", f)
	}
	fmt.Fprintln(os.Stderr, "unknown property", os.Args[1])
	os.Exit(2)
}
