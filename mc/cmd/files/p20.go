package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"verifmc/rep"
)

// overlapping tells whether a file is named twice or is the backup of another,
// so that which files are reached before which is not a matter of their order.
func (j job) overlapping() bool {
	seen := map[string]bool{}
	for _, f := range j.Files {
		f = filepath.Clean(f)
		if seen[f] || seen[f+j.Suffix] || seen[strings.TrimSuffix(f, j.Suffix)] {
			return true
		}
		seen[f] = true
	}
	return false
}

// large are runs over files around every buffer size.
func large(thorough bool) (js []job) {
	sizes := []int{4097, 8193, 32769, 65535, 65537, 70000, 131073, 300000, 1<<20 + 1, 4<<20 + 5}
	if thorough {
		sizes = append(sizes, 16<<20+1, 64<<20+1)
	}
	for _, n := range sizes {
		f := file{Data: strings.Repeat("banana é\n", n/10+1)[:n], Mode: 0o644}
		for i, script := range []string{"search-forward \"a\"; replace-match \"<<\"", "mark-whole-buffer; delete-region", "point"} {
			if i > 0 && n != 70000 && !thorough {
				continue
			}
			w := world{"a.txt": f, "b.txt": {Data: "bab", Mode: 0o644}}
			for _, stale := range []bool{false, true} {
				if stale {
					w = w.with("a.txt.bak", file{Data: strings.Repeat("older and longer\n", n/17+3), Mode: 0o644})
				}
				js = append(js, job{Name: fmt.Sprint("a file of ", n, " bytes, old backup ", stale, ", script ", i), Before: w, Args: []string{"edit", "-i", "--backup", ".bak", "-s", script, "a.txt", "b.txt"}, Files: []string{"a.txt", "b.txt"}, Suffix: ".bak"})
			}
		}
	}
	return js
}

func runP20(chk *rep.Check) {
	sc := newScratch()
	defer sc.done()
	js := jobs(chk.Thorough(), true)
	outs := [64]map[string]int64{}
	for i := range outs {
		outs[i] = map[string]int64{}
	}
	type item struct {
		j    job
		base faulted
		plan []hit
		die  []hit
	}
	fail := func(j job, plan []hit, r faulted, what, exp, act string) {
		chk.Fail(&rep.Violation{What: what, Repro: j.repro(plan, r), Expected: exp, Actual: act})
	}
	// verdict judges the files a run leaves behind.
	verdict := func(j job, base faulted, plan []hit, r faulted) {
		faults := 0
		for _, h := range plan {
			if !h.kills() && !h.harmless() {
				faults++
			}
		}
		for _, f := range j.Files {
			f = filepath.Clean(f)
			o, ok := j.Before[f]
			if !ok {
				continue
			}
			if r.After[f].Data != o.Data && r.After[f+j.Suffix].Data != o.Data {
				fail(j, plan, r, "the original of "+f+" is lost", fmt.Sprintf("%q in %s or %s%s", o.Data, f, f, j.Suffix), r.After.String())
				return
			}
		}
		if faults > 0 {
			return
		}
		// edited files, then at most one being edited, then untouched files
		at := 0
		for !j.overlapping() && at < len(j.Files) && r.After[j.Files[at]].Data == base.After[j.Files[at]].Data {
			at++
		}
		for i := at + 1; !j.overlapping() && i < len(j.Files); i++ {
			f := j.Files[i]
			if r.After[f].Data != j.Before[f].Data {
				fail(j, plan, r, "a file that was not reached yet has changed: "+f, fmt.Sprintf("%q", j.Before[f].Data), fmt.Sprintf("%q", r.After[f].Data))
				return
			}
		}
		for n, f := range j.Before {
			mine := false
			for _, x := range j.Files {
				x = filepath.Clean(x)
				mine = mine || n == x || n == x+j.Suffix
			}
			if !mine && r.After[n] != f {
				fail(j, plan, r, "a file outside the request has changed: "+n, f.String(), r.After[n].String())
				return
			}
		}
		if !r.Killed && (r.Exit != base.Exit || base.After.diff(r.After) != "") {
			fail(j, plan, r, "a transfer in pieces or an interrupted call changes the outcome", base.After.String(), r.After.String())
		}
	}
	var items []item
	js = append(js, large(chk.Thorough())...)
	for i, j := range js {
		d := sc.fresh(i%64, j.Before)
		base := runFaults(d, j.Stdin, nil, j.Args...)
		if base.crashed() {
			fail(j, nil, base, "crash without any fault", "", shortTail(base.Err))
			continue
		}
		verdict(j, base, nil, base)
		chk.States.Add(1)
		items = append(items, item{j: j, base: base})
		for _, k := range places(base.Calls) {
			c := base.Calls[k]
			for _, h := range c.errors(false) {
				h.At = k
				items = append(items, item{j: j, base: base, plan: []hit{h}})
			}
		}
	}
	// Every plan is run; then the process is killed at every later call of the
	// run the plan gives.
	perJob := map[string]int{}
	chk.Parallel(len(items), func(w, i int) {
		it := items[i]
		chk.Begin(w, func() string { return fmt.Sprint(it.j.repro(it.plan, faulted{})) })
		defer chk.End(w)
		r := it.base
		from := 0
		if len(it.plan) > 0 {
			r = runFaults(sc.fresh(w, it.j.Before), it.j.Stdin, it.plan, it.j.Args...)
			chk.States.Add(1)
			verdict(it.j, it.base, it.plan, r)
			from = it.plan[0].At + 1
			outs[w]["fault "+it.plan[0].Act]++
			if len(it.j.Files) > 1 && !chk.Thorough() && it.plan[0].At < len(it.base.Calls)/3 {
				// the later files repeat what one file gives
				from = len(r.Calls) / 2
			}
		}
		for _, k := range places(r.Calls) {
			if k < from || chk.Stop() {
				continue
			}
			c := r.Calls[k]
			if c.Path == "<stderr>" || c.Path == "<stdout>" && k != from {
				continue
			}
			for _, h := range c.deaths(len(it.plan) == 0 || chk.Thorough()) {
				if len(it.plan) > 0 && !chk.Thorough() && (h.Act == "after" || h.Act == "torn" && h.Arg != 1) {
					continue
				}
				h.At = k
				plan := append(append([]hit{}, it.plan...), h)
				chk.Begin(w, nil)
				x := runFaults(sc.fresh(w, it.j.Before), it.j.Stdin, plan, it.j.Args...)
				chk.States.Add(1)
				chk.Transitions.Add(int64(len(x.Calls)))
				chk.Validated.Add(1)
				if !x.Killed {
					// the run went another way: judge what it left
					outs[w]["not reached"]++
				} else {
					outs[w]["killed "+h.Act+" "+c.Op]++
				}
				verdict(it.j, it.base, plan, x)
				kept := "file"
				for _, f := range it.j.Files {
					f = filepath.Clean(f)
					if o, ok := it.j.Before[f]; ok && x.After[f].Data != o.Data {
						kept = "backup"
					}
				}
				outs[w]["original kept in "+kept]++
			}
		}
	})
	for i := range outs {
		chk.AddOutcomes(outs[i])
	}
	for _, it := range items {
		perJob[it.j.Name]++
	}
	for n, k := range perJob {
		chk.Family(n, int64(k))
	}
	for i, j := range js {
		if i < 4 {
			chk.Sample(strings.Join(j.Args, " "))
		}
	}
	chk.Bound("killed before, after and within every file system call of every run; writes cut at", "every byte up to 64, ends and block edges beyond")
	chk.Bound("faults before the kill", 1)
	chk.Bound("files in a request", 3)
	chk.Assume("the process is killed, the machine is not: what was written stays", "system calls are observed and replaced inside the Go standard library")
}
