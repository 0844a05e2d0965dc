// Command ed decides the editor properties: it explores texts, positions and
// command histories exhaustively within bounds, running the implementation and
// the reference model side by side.
package main

import (
	"fmt"
	"os"

	"verifmc/rep"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: ed ID [quick|thorough]")
		os.Exit(2)
	}
	id := os.Args[1]
	if s, ok := specs()[id]; ok {
		rep.Main(id, "model_checking", func(c *rep.Check) { runFocus(c, s) })
	}
	if f, ok := map[string]func(*rep.Check){"P01": runP01, "P02": runP02, "P09": runP09, "P10": runP10, "P11": runP11, "P12": runP12, "P24": runP24, "P27": runP27}[id]; ok {
		rep.Main(id, "model_checking", f)
	}
	fmt.Fprintln(os.Stderr, "unknown property", id)
	os.Exit(2)
}
