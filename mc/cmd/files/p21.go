package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"syscall"

	"verifmc/rep"
)

// hits tells what a run's faults touched. Plans of harmless faults touch
// nothing.
func (r faulted) hits(plan []hit) []sysCall {
	harmless := map[int]bool{}
	for _, h := range plan {
		harmless[h.At] = h.harmless()
	}
	var cs []sysCall
	for i, c := range r.Calls {
		if c.Hit != "" && !harmless[i] {
			cs = append(cs, c)
		}
	}
	return cs
}

// about tells whether a system call is on a file or something made for it (its
// backup, a temporary file named after it).
func (c sysCall) about(f string) bool {
	return c.Path == f || strings.Contains(filepath.Base(c.Path), filepath.Base(f))
}

// content drops the messages from what a run printed.
func (j job) content(out string) string {
	var b strings.Builder
	for _, l := range strings.SplitAfter(out, "\n") {
		skip := false
		for _, h := range j.Heads {
			skip = skip || strings.HasPrefix(l, h)
		}
		if !skip {
			b.WriteString(l)
		}
	}
	return b.String()
}

// judgeFaults decides one run of the command line under faults.
func judgeFaults(j job, base faulted, plan []hit, r faulted) (what, exp, act string) {
	if r.Hung {
		return "the run does not end", "an end", "still running"
	}
	piped := false
	for _, h := range plan {
		piped = piped || h.Act == "err" && h.Arg == int(syscall.EPIPE)
	}
	if r.crashed() && !(piped && !strings.Contains(r.Err, "goroutine ")) {
		return "crash", "a report", shortTail(r.Err)
	}
	hs := r.hits(plan)
	if len(hs) == 0 {
		if r.Exit != base.Exit || r.Out != base.Out || base.After.diff(r.After) != "" {
			return "an interrupted call or a transfer in pieces changes the outcome", fmt.Sprint(base.Exit, " ", base.Out, base.After), fmt.Sprint(r.Exit, " ", r.Out, r.After)
		}
		return
	}
	on := func(f string) (yes, writing bool) {
		for _, c := range hs {
			if c.about(f) {
				yes = true
				writing = writing || c.Path == f && c.Write
			}
		}
		return
	}
	stdout, elsewhere := false, piped // a broken pipe ends the run
	for _, c := range hs {
		mine := c.Path == "<stdout>" || c.Path == "<stderr>"
		stdout = stdout || mine
		for _, f := range append(append([]string{}, j.Files...), j.Target) {
			mine = mine || f != "" && c.about(f)
		}
		elsewhere = elsewhere || !mine
	}
	if base.Exit != 0 && r.Exit == 0 {
		return "a run that fails without faults succeeds with them", "a nonzero exit status", "exit 0"
	}
	switch {
	case j.Target == "<test>":
		return judgeTestFaults(j, base, hs, r)
	case j.Target == "":
		for _, f := range j.Files {
			f = filepath.Clean(f)
			was, had := j.Before[f]
			got, has := r.After[f]
			yes, writing := on(f)
			want := base.After[f]
			full := has == (base.After[f] != file{}) && got.Data == want.Data
			un := has == had && got.Data == was.Data
			name := fmt.Sprintf("%q", want.Data)
			switch {
			case j.overlapping(): // judged by P20
			case yes && !writing && !full && !un:
				return "a file that was never written to has changed: " + f, name, r.After.String()
			case !yes && !elsewhere && !full:
				return "a failure on another file affects " + f, name, r.After.String()
			case !yes && !full && !un:
				return "a file is damaged by a failure elsewhere: " + f, name, r.After.String()
			}
			if !full && r.Exit == 0 {
				return "the run claims success although " + f + " is not edited", name, r.After.String()
			}
			if j.Suffix != "" && had && !j.overlapping() && got.Data != was.Data && r.After[f+j.Suffix].Data != was.Data {
				return "a file was modified without a complete backup: " + f, fmt.Sprintf("%q", was.Data), r.After.String()
			}
			if j.Suffix != "" && !had || j.overlapping() {
				continue
			}
			if j.Suffix != "" && r.Exit == 0 && r.After[f+j.Suffix].Data != was.Data {
				return "the run claims success although there is no backup of " + f, fmt.Sprintf("%q", was.Data), r.After.String()
			}
			if yes && !full && !stdout && !elsewhere {
				said := false
				for _, l := range strings.Split(r.Out+"\n"+r.Err, "\n") {
					if strings.Contains(l, f) {
						if strings.HasPrefix(l, "✓") {
							return "a file is reported as edited that is not: " + f, name, r.Out + r.Err
						}
						said = true
					}
				}
				if !said && !j.Quiet {
					return "the failing file is not named: " + f, f, r.Out + r.Err
				}
			}
		}
	case r.Exit == 0:
		whole := j.content(r.Out) == j.content(base.Out)
		if len(plan) > 1 && stdout {
			// messages may be incomplete; every line of the result must be there
			at := 0
			for _, l := range strings.SplitAfter(j.content(base.Out), "\n") {
				i := strings.Index(r.Out[at:], l)
				if i < 0 {
					break
				}
				at += i + len(l)
			}
			whole = at == len(r.Out)
		}
		if j.Target == "<stdout>" && !whole {
			return "the run claims success although what it printed is incomplete", base.Out, r.Out
		}
		if base.After.diff(r.After) != "" {
			return "the run claims success although the files are not what they should be", base.After.String(), r.After.String()
		}
	}
	if what, exp, act := j.kept(base, hs, r); what != "" {
		return what, exp, act
	}
	for n, f := range j.Before {
		mine := n == j.Target
		for _, x := range j.Files {
			x = filepath.Clean(x)
			mine = mine || n == x || n == x+j.Suffix && j.Suffix != ""
		}
		if !mine && r.After[n] != f {
			return "a file outside the request has changed: " + n, f.String(), r.After.String()
		}
		if n == j.Target {
			// the target may be damaged only by a failure to write it
			if yes, _ := on(n); !yes && r.After[n] != f && r.After[n].Data != base.After[n].Data {
				return "the output file is damaged by a failure elsewhere", f.String(), r.After.String()
			}
		}
	}
	return
}

// kept tells whether what stood where a backup was to go is still there if the
// backup could not even be begun, and what follows for the file itself.
func (j job) kept(base faulted, hs []sysCall, r faulted) (what, exp, act string) {
	for n, f := range j.Before {
		if f.Dir && r.After[n] != f {
			return "a directory is gone: " + n, f.String(), r.After.String()
		}
	}
	if j.Suffix == "" || j.overlapping() {
		return
	}
	for _, f := range j.Files {
		f = filepath.Clean(f)
		was, had := j.Before[f]
		old, hadOld := j.Before[f+j.Suffix]
		if !had || !hadOld {
			continue
		}
		if old.Dir {
			switch {
			case r.After[f].Data != was.Data:
				return "a file was modified although it could not be backed up: " + f, was.String(), r.After.String()
			case r.Exit == 0:
				return "the run claims success although there is no backup of " + f, "a nonzero exit status", "exit 0"
			case len(hs) == 0 && !j.Quiet && !strings.Contains(r.Out+r.Err, f):
				return "the failing file is not named: " + f, f, r.Out + r.Err
			}
			continue
		}
		opens, others := 0, 0
		for _, c := range hs {
			switch {
			case c.Op == "open" && c.Path == f+j.Suffix:
				opens++
			case c.about(f):
				others++
			}
		}
		if now := r.After[f+j.Suffix]; opens > 0 && others == 0 && now.Data != old.Data && now.Data != was.Data {
			return "a backup that could not be opened damages the old one: " + f + j.Suffix, old.String(), r.After.String()
		}
	}
	return
}

// judgeTestFaults decides a run of script tests under faults.
func judgeTestFaults(j job, base faulted, hs []sysCall, r faulted) (what, exp, act string) {
	if j.Before.diff(r.After) != "" {
		return "running tests changes files", j.Before.String(), r.After.String()
	}
	touched := map[string]bool{}
	reading := map[string]bool{}
	for _, c := range hs {
		touched[c.Path] = true
		if c.Op == "open" || c.Op == "read" {
			reading[c.Path] = true
		}
	}
	if touched["<stdout>"] || touched["<stderr>"] {
		return
	}
	failed := false
	for n := range j.Before {
		status := ""
		for _, m := range reStatus.FindAllStringSubmatch(r.Out, -1) {
			if m[2] == n {
				status += m[1]
			}
		}
		switch {
		case reading[n] && status != "FAIL":
			return "a test that could not be read is not reported as failing: " + n, "[FAIL] " + n, r.Out
		case !touched[n] && status != "PASS":
			return "a failure to read another file affects test " + n, "[PASS] " + n, r.Out
		}
		failed = failed || status == "FAIL"
	}
	if failed != (r.Exit != 0) {
		return "the exit status does not say whether a test failed", fmt.Sprint(failed), fmt.Sprint("exit ", r.Exit)
	}
	return
}

// plain tells whether a job is one of the few put under every errno.
func (j job) plain() bool {
	switch j.Name {
	case "one file in place ", "three files in place ", "one file in place .bak", "three files in place .bak", "stale backup in place .bak",
		"stdin to stdout", "stdin to new file", "stdin to old file", "file to stdout", "file to old file", "script file, file",
		"expressions on two files", "parse to json", "script test":
		return true
	}
	return false
}

func runP21(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	js := append(jobs(chk.Thorough(), false), jobs(chk.Thorough(), true)...)
	type item struct {
		j    job
		base faulted
		h    hit
		c    sysCall
	}
	var items []item
	for i, j := range js {
		base := runFaults(sc.fresh(i%64, j.Before), j.Stdin, nil, j.Args...)
		if base.crashed() {
			chk.Fail(&rep.Violation{What: "crash without any fault", Repro: j.repro(nil, base), Actual: shortTail(base.Err)})
			continue
		}
		if what, exp, act := j.kept(base, nil, base); what != "" {
			chk.Fail(&rep.Violation{What: what, Repro: j.repro(nil, base), Expected: exp, Actual: act})
		}
		chk.States.Add(1)
		var n int64
		for _, k := range places(base.Calls) {
			c := base.Calls[k]
			if c.Path == "<stderr>" {
				continue
			}
			hs := c.errors(true)
			if j.plain() {
				hs = append(hs, c.rarer()...)
			}
			for _, h := range hs {
				h.At = k
				items = append(items, item{j, base, h, c})
				n++
			}
		}
		chk.Family(j.Name, n)
		if i < 4 {
			chk.Sample(strings.Join(j.Args, " "))
		}
	}
	check := func(it item, plan []hit, r faulted) {
		if what, exp, act := judgeFaults(it.j, it.base, plan, r); what != "" {
			chk.Fail(&rep.Violation{What: what, Repro: it.j.repro(plan, r), Expected: exp, Actual: act})
		}
	}
	chk.Parallel(len(items), func(w, i int) {
		it := items[i]
		plan := []hit{it.h}
		chk.Begin(w, func() string { return fmt.Sprint(it.j.repro(plan, faulted{})) })
		defer chk.End(w)
		r := runFaults(sc.fresh(w, it.j.Before), it.j.Stdin, plan, it.j.Args...)
		chk.States.Add(1)
		chk.Transitions.Add(int64(len(r.Calls)))
		chk.Validated.Add(1)
		check(it, plan, r)
		outs[w][fmt.Sprintf("%s %s exit %d of %d", it.c.Op, it.h.Act, r.Exit, it.base.Exit)]++
		if !chk.Thorough() {
			return
		}
		// A second fault at every later call of this run.
		for _, k := range places(r.Calls) {
			if k <= it.h.At || chk.Stop() {
				continue
			}
			if r.Calls[k].Path == "<stderr>" || r.Calls[k].Hit != "" {
				continue
			}
			for _, h := range r.Calls[k].errors(false) {
				if h.Act != "err" && h.Arg > 1 {
					continue // cut at other places by the first fault
				}
				h.At = k
				plan := []hit{it.h, h}
				chk.Begin(w, nil)
				x := runFaults(sc.fresh(w, it.j.Before), it.j.Stdin, plan, it.j.Args...)
				chk.States.Add(1)
				chk.Transitions.Add(int64(len(x.Calls)))
				chk.Validated.Add(1)
				check(it, plan, x)
				outs[w]["two faults"]++
			}
		}
	})
	chk.Lap("command line")
	libFaults(chk, sc, outs[:])
	chk.Lap("library and tool")
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	chk.Bound("faults per run of the command line", chk.Pick(1, 2))
	chk.Bound("faults per call of the library or tool", chk.Pick(2, 3))
	chk.Bound("faults", "each system call fails with EIO, ENOSPC, EACCES, EMFILE, EINTR or EPIPE where it can, and in fourteen plain jobs with each of up to 27 error numbers; writes take 0, 1, half, all but one byte (and every length up to 64 in quick runs), or fill the disk there; close and fsync of written files lose the data")
	chk.Assume("system calls are observed and replaced inside the Go standard library", "a status message that cannot be printed is not a result", "a failing in-place edit may leave the faulted file itself incomplete")
}
