//go:build sched

// Command conc decides the property about concurrent requests: it runs pairs
// and triples of requests on the real code under a controlled scheduler, with
// the race detector watching every schedule.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	vs "github.com/dhamidi/texted/verifsched"
	"verifmc/rep"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "shard" {
		shard(os.Args[2])
		return
	}
	rep.Main("P23", "model_checking", runP23)
}

// piece is a part of the exploration, done in a process of its own.
type piece struct {
	Phase  string
	A, B   int
	Ks     []int // where A is preempted; 0 is not at all
	Ls     []int // where B is preempted
	C      int
	Want   []string
	Tag    string
	Rounds int
}

// report is what a piece found.
type report struct {
	Schedules, Switches int64
	Outcomes            map[string]int64
	Trace               []int32
	Result              string
	Viol                *rep.Violation
}

// world of the sites
var sites struct {
	Sites []struct {
		At     string
		Shared bool
	}
	Spawns bool
}

func loadSites() {
	b, err := os.ReadFile(os.Getenv("VERIF_SITES"))
	must(err)
	must(json.Unmarshal(b, &sites))
}

func siteName(s int32) string {
	if s < 0 {
		return "lock"
	}
	return sites.Sites[s].At
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

// together runs requests under a plan.
func together(rs []request, plan []vs.Step, record bool) []string {
	out := make([]string, len(rs))
	var wg sync.WaitGroup
	wg.Add(len(rs))
	vs.Begin(len(rs), plan, record)
	for i := range rs {
		go func() {
			defer wg.Done()
			vs.Enter(i)
			defer vs.Exit(i)
			defer func() {
				if p := recover(); p != nil {
					out[i] = fmt.Sprint("panic: ", p)
				}
			}()
			out[i] = rs[i].do(i)
		}()
	}
	wg.Wait()
	return out
}

var current []byte // the schedule being run, shared with the parent

func note(s string) {
	n := copy(current[8:], s)
	current[0], current[1] = byte(n), byte(n>>8)
}

// shard does one piece and prints its report.
func shard(spec string) {
	var p piece
	must(json.Unmarshal([]byte(spec), &p))
	loadSites()
	f, err := os.OpenFile(os.Getenv("VERIF_NOTE"), os.O_RDWR, 0)
	must(err)
	current, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	root := os.Getenv("VERIF_SCRATCH")
	must(os.Chdir(root))
	rs := requests(root)
	r := report{Outcomes: map[string]int64{}}
	try := func(idx []int, plan ...vs.Step) bool {
		var q []request
		var names []string
		for slot, i := range idx {
			q = append(q, rs[i].at(slot))
			names = append(names, rs[i].name)
		}
		note(fmt.Sprintf("%s, preempted %v", strings.Join(names, " | "), plan))
		for _, x := range q {
			x.prepare()
		}
		got := together(q, plan, false)
		r.Schedules++
		r.Switches += int64(vs.Taken)
		for i := range q {
			got[i] += q[i].after()
		}
		for i := range q {
			if got[i] != p.Want[i] {
				r.Viol = &rep.Violation{What: "a request gives something else when another is served at the same time",
					Repro:    map[string]any{"requests": names, "switches (thread, at its n-th statement, to)": plan, "phase": p.Phase, "where": where(q, plan), "request": names[i]},
					Expected: p.Want[i], Actual: got[i]}
				return false
			}
		}
		return true
	}
	switch p.Phase {
	case "alone": // first and second time
		for n := 0; n < 2; n++ {
			q := rs[p.A].at(0)
			q.prepare()
			note(q.name + " alone")
			got := together([]request{q}, nil, true)
			res := got[0] + q.after()
			if n == 0 {
				r.Result = res
			}
			r.Trace = append(r.Trace, vs.Trace()...)
			if n == 0 {
				r.Trace = append(r.Trace, -2)
			}
			r.Schedules++
		}
	case "cold":
		// one schedule only: the process is fresh
		var plan []vs.Step
		if p.Ks[0] > 0 {
			plan = append(plan, vs.Step{Thread: 0, At: p.Ks[0], To: 1})
		}
		try([]int{p.A, p.B}, plan...)
	case "pair":
		for _, k := range p.Ks {
			if k == 0 && !try([]int{p.A, p.B}) || k > 0 && !try([]int{p.A, p.B}, vs.Step{Thread: 0, At: k, To: 1}) {
				break
			}
		}
	case "pair2": // A to k, B to l, A to the end or for a while, B
	outer:
		for _, k := range p.Ks {
			for _, l := range p.Ls {
				if !try([]int{p.A, p.B}, vs.Step{Thread: 0, At: k, To: 1}, vs.Step{Thread: 1, At: l, To: 0}) {
					break outer
				}
			}
		}
	case "triple": // A to k, B to l, C to its end, then B, then A
	outer3:
		for _, k := range p.Ks {
			for _, l := range p.Ls {
				if !try([]int{p.A, p.B, p.C}, vs.Step{Thread: 0, At: k, To: 1}, vs.Step{Thread: 1, At: l, To: 2}) {
					break outer3
				}
			}
		}
	}
	r.Outcomes[p.Phase] += r.Schedules
	b, err := json.Marshal(r)
	must(err)
	os.Stdout.Write(b)
}

// where names the statements before which threads are preempted.
func where(q []request, plan []vs.Step) []string {
	var r []string
	for _, s := range plan {
		x := q[s.Thread]
		x.prepare()
		together([]request{x}, nil, true)
		if t := vs.Trace(); s.At <= len(t) {
			r = append(r, siteName(t[s.At-1]))
		}
	}
	return r
}

type runner struct {
	c    *rep.Check
	self string
	mu   sync.Mutex
}

// do runs a piece in a process of its own.
func (x *runner) do(w int, p piece) *report {
	root, err := os.MkdirTemp("/dev/shm", "texted-verif-")
	must(err)
	defer os.RemoveAll(root)
	nf := filepath.Join(root, "note")
	must(os.WriteFile(nf, make([]byte, 4096), 0o644))
	must(os.Mkdir(filepath.Join(root, "w"), 0o755))
	spec, _ := json.Marshal(p)
	var out, errs strings.Builder
	cmd := exec.Command(x.self, "shard", string(spec))
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GOMAXPROCS=1", "VERIF_NOTE="+nf, "VERIF_SCRATCH="+filepath.Join(root, "w"), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	cmd.Stdout, cmd.Stderr = &out, &errs
	must(cmd.Start())
	killed := false
	t := time.AfterFunc(5*time.Minute, func() { killed = true; cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	b, _ := os.ReadFile(nf)
	at := string(b[8 : 8+int(b[0])+int(b[1])<<8])
	code := cmd.ProcessState.ExitCode()
	v := &rep.Violation{Repro: map[string]any{"schedule": at, "phase": p.Phase}}
	switch {
	case code == 0:
		var r report
		must(json.Unmarshal([]byte(out.String()), &r))
		return &r
	case strings.Contains(errs.String(), "panic: harness:"):
		panic("harness: shard: " + errs.String())
	case code == 66:
		v.What, v.Actual = "two requests access the same data in conflict (data race)", clip(errs.String())
	case killed:
		v.What = "requests served at the same time do not end"
	default:
		v.What, v.Actual = "the process died serving requests: exit "+strconv.Itoa(code), clip(errs.String())
	}
	x.c.Fail(v)
	return nil
}

func clip(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func runP23(c *rep.Check) {
	self, err := os.Executable()
	must(err)
	x := &runner{c: c, self: self}
	loadSites()
	rs := requests("/dev/shm/none")
	n := len(rs)
	alone := make([]*report, n)
	c.Bound("requests", n)
	c.Bound("statements that can be preempted", len(sites.Sites))
	take := func(r *report) {
		if r == nil {
			return
		}
		c.States.Add(r.Schedules)
		c.Transitions.Add(r.Switches)
		c.Validated.Add(r.Schedules)
		for k, v := range r.Outcomes {
			c.AddOutcomes(map[string]int64{k: v})
			c.Family(k, v)
		}
		if r.Viol != nil {
			c.Fail(r.Viol)
		}
	}
	c.Parallel(n, func(w, i int) {
		alone[i] = x.do(w, piece{Phase: "alone", A: i})
		take(alone[i])
	})
	c.Lap("alone")
	if c.Violated() {
		return
	}
	if sites.Spawns {
		// The scheduler does not control goroutines or channels of the code
		// under test; only whole requests are interleaved.
		c.Assume("the code under test starts goroutines or uses channels: requests are only run one after the other under the race detector")
	}
	type req struct {
		cold, warm []int32
		ks         []int // every preemption point of the second run
		first      []int // first two visits of each site
		shared     []int // first three visits of each site that may touch shared data
		lazy       []int // points of the first run at sites it visits more often than the second
	}
	qs := make([]req, n)
	total := 0
	for i := range rs {
		t := alone[i].Trace
		for j, s := range t {
			if s == -2 {
				qs[i].cold, qs[i].warm = t[:j], t[j+1:]
			}
		}
		total += len(qs[i].warm)
		seen := map[int32]int{}
		for j, s := range qs[i].warm {
			seen[s]++
			if c.Thorough() || seen[s] <= 6 {
				qs[i].ks = append(qs[i].ks, j+1)
			}
			if seen[s] <= 2 {
				qs[i].first = append(qs[i].first, j+1)
			}
			if seen[s] <= 3 && (s < 0 || sites.Sites[s].Shared) {
				qs[i].shared = append(qs[i].shared, j+1)
			}
		}
		in := map[int32]int{}
		lead := map[int32]bool{}
		for _, s := range qs[i].cold {
			in[s]++
		}
		for j, s := range qs[i].cold {
			if in[s] > seen[s] && len(qs[i].lazy) < 300 {
				qs[i].lazy = append(qs[i].lazy, j+1)
				lead[s] = true
			} else if j > 0 && lead[qs[i].cold[j-1]] && len(qs[i].lazy) < 300 {
				qs[i].lazy = append(qs[i].lazy, j+1)
			}
		}
		if i < 4 {
			c.Sample(map[string]any{"request": rs[i].name, "statements": len(qs[i].warm), "result": clip(alone[i].Result)})
		}
	}
	c.Bound("statements executed by the requests, alone", total)
	want := func(is ...int) []string {
		var r []string
		for _, i := range is {
			r = append(r, alone[i].Result)
		}
		return r
	}
	var ps []piece
	// fresh processes
	for a := range rs {
		for b := range rs {
			if rs[a].key != "" && rs[b].key != "" || a == b || c.Thorough() {
				for _, k := range append([]int{0}, qs[a].lazy...) {
					if k > 0 && sites.Spawns {
						continue
					}
					ps = append(ps, piece{Phase: "cold", A: a, B: b, Ks: []int{k}, Want: want(a, b)})
				}
			}
		}
	}
	c.Bound("fresh processes", len(ps))
	// every preemption of every request by every other
	for a := range rs {
		for b := range rs {
			ks := append([]int{0}, qs[a].ks...)
			if sites.Spawns {
				ks = ks[:1]
			}
			ps = append(ps, piece{Phase: "pair", A: a, B: b, Ks: ks, Want: want(a, b)})
		}
	}
	if !sites.Spawns {
		for a := range rs {
			for b := range rs {
				p := piece{Phase: "pair2", A: a, B: b, Ks: qs[a].shared, Ls: qs[b].shared, Want: want(a, b)}
				if c.Thorough() {
					p.Ks, p.Ls = qs[a].first, qs[b].first
				}
				if len(p.Ks) > 0 && len(p.Ls) > 0 {
					ps = append(ps, p)
				}
				if rs[a].key == "" || rs[b].key == "" {
					continue
				}
				for d := range rs {
					if rs[d].key != "" && len(qs[a].shared) > 0 && len(qs[b].shared) > 0 {
						ks, ls := qs[a].shared, qs[b].shared
						if !c.Thorough() {
							ks, ls = ks[:min(len(ks), 6)], ls[:min(len(ls), 6)]
						}
						ps = append(ps, piece{Phase: "triple", A: a, B: b, C: d, Ks: ks, Ls: ls, Want: want(a, b, d)})
					}
				}
			}
		}
	}
	c.Parallel(len(ps), func(w, i int) {
		if !c.Stop() {
			take(x.do(w, ps[i]))
		}
	})
	c.Lap("together")
	c.Bound("preemptions of two requests", "1 at every statement executed"+map[bool]string{false: " (6 visits of each statement); 2 at statements that may touch shared data", true: "; 2 at the first two visits of every statement"}[c.Thorough()])
	c.Bound("preemptions of three requests", "2 at statements that may touch shared data")
	c.Assume("preemption happens between statements; conflicting accesses within one are reported by the race detector, to which hand-overs are invisible",
		"package sync is replaced in the code under test by one whose waiting is a scheduling point; sync.Pool gives back what was put last",
		"libraries are not preempted")
}
