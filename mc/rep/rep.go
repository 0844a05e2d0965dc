// Package rep is the shared reporting layer of all checks: it counts what was
// explored, records the first violation as a replayable artefact, applies the
// known-findings file, writes the evidence file and sets the exit status.
package rep

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Dir is the verification directory (/verif unless VERIF_DIR overrides it).
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Check is one run of one property check.
type Check struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Kind     string // model_checking | exploration | fault_enumeration
	Rule     string // exploration: what counts as distinct and non-trivial
	Start    time.Time
	Deadline time.Time

	States      atomic.Int64
	Transitions atomic.Int64
	Validated   atomic.Int64
	Evaluations atomic.Int64
	Capped      atomic.Bool

	mu       sync.Mutex
	samples  []any
	assume   []string
	outcomes map[string]int64
	bounds   map[string]any
	families map[string]int64
	known    map[string]string
	hitKnown map[string]bool
	nviol    atomic.Int64
	lap      time.Time
	viol     *Violation
	slots    []slot
}

type slot struct {
	start atomic.Int64
	desc  atomic.Value
}

// Violation is the replay artefact.
type Violation struct {
	Property string   `json:"property"`
	What     string   `json:"what"`
	Key      string   `json:"key,omitempty"`
	Repro    any      `json:"repro"`
	Expected string   `json:"expected,omitempty"`
	Actual   string   `json:"actual,omitempty"`
	HowTo    []string `json:"how_to_replay,omitempty"`
}

// HangLimit is how long a single unit of work may run before it is a hang.
var HangLimit = 90 * time.Second

// Main runs a check body for one property. The body runs in a child process, so
// that a fatal runtime error of the code under test (stack exhaustion,
// concurrent map access, memory exhaustion) is a verdict and not a lost run.
func Main(id, kind string, body func(c *Check)) {
	tier := "quick"
	for _, a := range os.Args[1:] {
		if a == "thorough" || a == "quick" {
			tier = a
		}
	}
	if os.Getenv("VERIF_CHILD") == "" {
		os.Exit(parent(id))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Check{ID: id, Tier: tier, Seed: seed, Kind: kind, Start: time.Now(),
		outcomes: map[string]int64{}, bounds: map[string]any{}, families: map[string]int64{}, hitKnown: map[string]bool{}}
	c.Level = kind
	budget := 420 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			budget = time.Duration(n) * time.Second
		}
	}
	c.Deadline = c.Start.Add(budget)
	c.loadKnown()
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	c.slots = make([]slot, 64)
	go c.watchdog()
	body(c)
	c.Finish()
}

func parent(id string) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(self, os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "GOTRACEBACK=all")
	tail := &tailWriter{max: 1 << 20}
	cmd.Stdout = os.Stdout
	cmd.Stderr = tail
	err = cmd.Run()
	out := tail.String()
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		os.Stderr.WriteString(out)
		return code
	}
	// Abnormal end: it is a violation only if the code under test was running.
	if strings.Contains(out, "github.com/dhamidi/texted") && !strings.Contains(out, "panic: harness:") {
		if len(out) > 20000 {
			out = out[:20000]
		}
		v := &Violation{Property: id, What: "the process died while running texted code (fatal runtime error)", Repro: out}
		path := writeReplay(v)
		fmt.Printf("fatal: %s\n", firstLines(out, 6))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	os.Stderr.WriteString(out)
	return 2
}

type tailWriter struct {
	buf []byte
	max int
}

func (t *tailWriter) Write(p []byte) (int, error) {
	if len(t.buf) < t.max {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}
func (t *tailWriter) String() string { return string(t.buf) }

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (c *Check) loadKnown() {
	c.known = map[string]string{}
	data, err := os.ReadFile(filepath.Join(Dir(), "known_findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []struct{ Property, Key, What string }
	}
	if json.Unmarshal(data, &f) == nil {
		for _, e := range f.Findings {
			if e.Property == c.ID {
				c.known[e.Key] = e.What
			}
		}
	}
}

// Known reports whether key is a listed finding of this property, and says so
// on standard output the first time it is hit.
func (c *Check) Known(key string) bool {
	what, ok := c.known[key]
	if !ok || key == "" {
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.hitKnown[key] {
		c.hitKnown[key] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
	}
	return true
}

func writeReplay(v *Violation) string {
	dir := filepath.Join(Dir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, v.Property+".json")
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		data = []byte(fmt.Sprintf("%+v", v))
	}
	os.WriteFile(path, data, 0o644)
	return path
}

// Fail records a violation, unless it is a known finding; the first one wins.
func (c *Check) Fail(v *Violation) {
	if v.Key != "" && c.Known(v.Key) {
		return
	}
	if os.Getenv("VERIF_LISTKEYS") != "" && v.Key != "" {
		fmt.Println("KEY", v.Key, "expected", v.Expected, "actual", v.Actual)
		return
	}
	c.nviol.Add(1)
	c.mu.Lock()
	defer c.mu.Unlock()
	v.Property = c.ID
	if os.Getenv("VERIF_FIRST") != "" { // campaigns of mutants: the first one is enough
		fmt.Println("FIRST", v.Expected, v.Actual)
		os.Exit(1)
	}
	if c.viol == nil || size(v) < size(c.viol) {
		c.viol = v
	}
}

func size(v *Violation) int {
	b, _ := json.Marshal(v.Repro)
	return len(b)
}

// Stop reports whether exploration should end early (enough violations, or the
// internal deadline; the latter makes the run non-exhaustive, never a failure).
func (c *Check) Stop() bool {
	if c.nviol.Load() >= 20 {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.Capped.Store(true)
		return true
	}
	return false
}

func (c *Check) Violated() bool { return c.nviol.Load() > 0 }
func (c *Check) Thorough() bool { return c.Tier == "thorough" }
func (c *Check) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Check) Outcome(k string) {
	c.mu.Lock()
	c.outcomes[k]++
	c.mu.Unlock()
}

func (c *Check) AddOutcomes(m map[string]int64) {
	c.mu.Lock()
	for k, n := range m {
		c.outcomes[k] += n
	}
	c.mu.Unlock()
}

func (c *Check) Family(k string, n int64) {
	c.mu.Lock()
	c.families[k] += n
	c.mu.Unlock()
}

func (c *Check) Bound(k string, v any) {
	c.mu.Lock()
	c.bounds[k] = v
	c.mu.Unlock()
}

func (c *Check) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Check) Assume(s ...string) { c.assume = append(c.assume, s...) }

func (c *Check) watchdog() {
	var ms runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for i := range c.slots {
			st := c.slots[i].start.Load()
			if st != 0 && now-st > int64(HangLimit) {
				d := c.slots[i].text()
				c.die("a single step did not finish within "+HangLimit.String(), d)
			}
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 20<<30 {
			d := ""
			for i := range c.slots {
				if c.slots[i].start.Load() != 0 {
					d += c.slots[i].text() + "\n"
				}
			}
			c.die("memory use without bound", d)
		}
	}
}

func (c *Check) die(what, repro string) {
	v := &Violation{Property: c.ID, What: what, Repro: repro}
	path := writeReplay(v)
	fmt.Printf("%s: %s\n", what, repro)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	c.evidence(1)
	os.Exit(1)
}

// Parallel runs f(worker, i) for i in [0,n) on all cores.
func (c *Check) Parallel(n int, f func(w, i int)) {
	workers := runtime.NumCPU()
	if workers > 16 {
		workers = 16
	}
	if n < workers {
		workers = n
	}
	var next, done atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.Stop() {
					return
				}
				f(w, i)
				done.Add(1)
			}
		}(w)
	}
	wg.Wait()
	if int(done.Load()) < n {
		c.Finish() // stopped early: what follows may need all results
	}
}

var onExit []func()

// OnExit has f run before the check ends, wherever it ends.
func OnExit(f func()) { onExit = append(onExit, f) }

// Begin and End bracket one unit of work of the code under test for the watchdog.
func (c *Check) Begin(w int, desc func() string) {
	s := &c.slots[w%len(c.slots)]
	if desc != nil {
		s.desc.Store(desc)
	}
	s.start.Store(time.Now().UnixNano())
}

func (s *slot) text() string {
	if f, ok := s.desc.Load().(func() string); ok {
		return f()
	}
	return ""
}

func (c *Check) End(w int) { c.slots[w%len(c.slots)].start.Store(0) }

func (c *Check) evidence(viol int64) {
	exhaustive := !c.Capped.Load()
	outcomes := len(c.outcomes)
	cov := map[string]any{"exhaustive": exhaustive, "samples": c.samples, "bounds": c.bounds,
		"families": c.families, "distinct_outcomes": outcomes, "outcomes": top(c.outcomes, 40)}
	switch c.Kind {
	case "model_checking":
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Transitions.Load()
		cov["traces_validated_against_impl"] = c.Validated.Load()
	default:
		cov["evaluations"] = c.Evaluations.Load()
		cov["distinct_nontrivial"] = int64(outcomes)
		cov["rule"] = c.Rule
		if c.States.Load() > 0 {
			cov["states"] = c.States.Load()
			cov["transitions"] = c.Transitions.Load()
		}
	}
	if c.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": viol,
		"assumptions": append([]string{}, c.assume...),
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(Dir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(Dir(), "evidence", c.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

func top(m map[string]int64, n int) map[string]int64 {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if m[keys[i]] != m[keys[j]] {
			return m[keys[i]] > m[keys[j]]
		}
		return keys[i] < keys[j]
	})
	if len(keys) > n {
		keys = keys[:n]
	}
	r := map[string]int64{}
	for _, k := range keys {
		r[k] = m[k]
	}
	return r
}

// Finish writes the evidence and exits.
func (c *Check) Finish() {
	for _, f := range onExit {
		f()
	}
	n := c.nviol.Load()
	c.evidence(n)
	fmt.Printf("%s %s: states=%d transitions=%d validated=%d evaluations=%d outcomes=%d exhaustive=%v violations=%d wall=%.1fs\n",
		c.ID, c.Tier, c.States.Load(), c.Transitions.Load(), c.Validated.Load(), c.Evaluations.Load(), len(c.outcomes), !c.Capped.Load(), n, time.Since(c.Start).Seconds())
	if c.viol != nil {
		path := writeReplay(c.viol)
		b, _ := json.Marshal(c.viol.Repro)
		if len(b) > 600 {
			b = append(b[:600], "..."...)
		}
		fmt.Printf("%s\n repro: %s\n expected: %s\n actual:   %s\n", c.viol.What, b, clip(c.viol.Expected), clip(c.viol.Actual))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		os.Exit(1)
	}
	os.Exit(0)
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

var _ io.Writer = (*tailWriter)(nil)

// Texted is the texted binary built from the tree under test.
func Texted() string {
	p := os.Getenv("VERIF_TEXTED")
	if _, err := os.Stat(p); err != nil {
		panic("harness: no texted binary: " + err.Error())
	}
	return p
}

// Lap prints how long a part took, for tuning.
func (c *Check) Lap(what string) {
	if os.Getenv("VERIF_LAPS") != "" {
		if c.lap.IsZero() {
			c.lap = c.Start
		}
		fmt.Fprintf(os.Stderr, "%-30s %s\n", what, time.Since(c.lap).Round(time.Millisecond))
		c.lap = time.Now()
	}
}
