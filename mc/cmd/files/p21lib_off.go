//go:build !syscalls

package main

import "verifmc/rep"

func libFaults(chk *rep.Check, sc *scratch, outs []map[string]int64) { panic("built without faults") }
