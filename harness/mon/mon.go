// Package mon is the runtime-monitoring framework: seeded workloads, a parallel
// case runner, verdicts with replayable witnesses, and evidence of what was observed.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Config of one run of one property's check.
type Config struct {
	Prop    string
	Tier    string
	Seed    uint64
	Repo    string
	OutDir  string // evidence directory
	Scratch string // private scratch directory, removed by the caller
	Workers int

	// Replay of a single recorded case
	ReplayPhase string
	ReplayIndex int
	Replaying   bool
}

// Thorough tells whether this is the thorough tier.
func (c *Config) Thorough() bool { return c.Tier == "thorough" }

// Violation is a witness.
type Violation struct {
	Property string            `json:"property"`
	Tier     string            `json:"tier"`
	Seed     uint64            `json:"seed"`
	Phase    string            `json:"phase"`
	Index    int               `json:"index"`
	What     string            `json:"what"`
	Detail   map[string]string `json:"detail,omitempty"`
}

// Run is the state of one check.
type Run struct {
	Config
	start time.Time

	mu       sync.Mutex
	counters map[string]*int64
	samples  []any
	viols    []Violation
	seenViol map[string]bool
	findings []string
	rules    []string
	assume   []string
	phases   []string

	evals    int64
	distinct [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	maxViol int32
	nviol   int32
	errs    []string
	active  sync.Map
}

// NewRun starts a check.
func NewRun(c Config) *Run {
	if c.Workers == 0 {
		c.Workers = runtime.GOMAXPROCS(0)
	}
	r := &Run{Config: c, start: time.Now(), counters: map[string]*int64{}, seenViol: map[string]bool{}, maxViol: 10}
	for i := range r.distinct {
		r.distinct[i].m = map[uint64]struct{}{}
	}
	return r
}

// Scale picks the workload size per tier.
func (r *Run) Scale(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Cases picks the number of sampled cases per tier; quick checks take seconds, and can afford a few more.
func (r *Run) Cases(quick, thorough int) int {
	return r.Scale(3*quick, thorough)
}

// Rule documents how cases are made and which ones count as non-trivial.
func (r *Run) Rule(s string) { r.mu.Lock(); r.rules = append(r.rules, s); r.mu.Unlock() }

// Assume documents an assumption.
func (r *Run) Assume(s string) { r.mu.Lock(); r.assume = append(r.assume, s); r.mu.Unlock() }

// Count adds to a named event counter.
func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	p := r.counters[name]
	if p == nil {
		p = new(int64)
		r.counters[name] = p
	}
	r.mu.Unlock()
	atomic.AddInt64(p, int64(n))
}

// Max raises a named gauge.
func (r *Run) Max(name string, n int) {
	r.mu.Lock()
	p := r.counters[name]
	if p == nil {
		p = new(int64)
		r.counters[name] = p
	}
	if *p < int64(n) {
		*p = int64(n)
	}
	r.mu.Unlock()
}

// Finding prints a known finding.
func (r *Run) Finding(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.findings = append(r.findings, what)
	fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
}

// Internal records an error of the check itself: no verdict.
func (r *Run) Internal(format string, args ...any) {
	r.mu.Lock()
	r.errs = append(r.errs, fmt.Sprintf(format, args...))
	r.mu.Unlock()
}

// Case is one evaluation.
type Case struct {
	*Run
	Phase  string
	Index  int
	Rng    *rand.Rand
	local  map[string]int
	note   map[string]string
	failed bool
	units  int
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff, 0x00})
	}
	return h.Sum64()
}

// NewRng derives a deterministic generator.
func NewRng(seed uint64, parts ...string) *rand.Rand {
	return rand.New(rand.NewPCG(seed, hash64(parts...)))
}

// See counts an event locally (flushed when the case ends).
func (c *Case) See(name string, n int) { c.local[name] += n }

// Note attaches context which is written to the witness should the case fail.
func (c *Case) Note(k, v string) {
	if len(v) > 4000 {
		v = v[:4000] + fmt.Sprintf("...(%d bytes)", len(v))
	}
	c.note[k] = v
}

// NoteQ is Note with a quoted value.
func (c *Case) NoteQ(k, v string) {
	if len(v) > 3000 {
		c.Note(k, fmt.Sprintf("%q...(%d bytes)", v[:3000], len(v)))
		return
	}
	c.Note(k, fmt.Sprintf("%q", v))
}

// Distinct marks the case as non-trivial, with key identifying it.
func (c *Case) Distinct(parts ...string) {
	c.units++
	h := hash64(append([]string{c.Phase}, parts...)...)
	s := &c.distinct[h%64]
	s.Lock()
	s.m[h] = struct{}{}
	s.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (c *Case) Sample(v any) {
	if c.Index > 2 {
		return
	}
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, map[string]any{"phase": c.Phase, "index": c.Index, "case": v})
	}
	c.mu.Unlock()
}

// Fail reports a violation.
func (c *Case) Fail(format string, args ...any) {
	c.failed = true
	c.Run.fail(c.Phase, c.Index, c.note, fmt.Sprintf(format, args...))
}

// Failed tells whether this case has failed.
func (c *Case) Failed() bool { return c.failed }

func (r *Run) fail(phase string, index int, note map[string]string, what string) {
	if len(what) > 6000 {
		what = what[:6000] + "..."
	}
	v := Violation{Property: r.Prop, Tier: r.Tier, Seed: r.Seed, Phase: phase, Index: index, What: what, Detail: map[string]string{}}
	for k, s := range note {
		v.Detail[k] = s
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	key := phase + "/" + fmt.Sprint(index)
	if r.seenViol[key] {
		return
	}
	r.seenViol[key] = true
	atomic.AddInt32(&r.nviol, 1)
	if len(r.viols) < int(r.maxViol) {
		r.viols = append(r.viols, v)
	}
}

// Violate reports a violation outside any case.
func (r *Run) Violate(phase string, format string, args ...any) {
	r.fail(phase, -1, nil, fmt.Sprintf(format, args...))
}

// Violated tells whether any violation was seen.
func (r *Run) Violated() bool { return atomic.LoadInt32(&r.nviol) > 0 }

// HangLimit is the (very generous) time after which a single case counts as not terminating.
var HangLimit = 240 * time.Second

// Each runs n cases of a phase in parallel. Every case's random choices depend only on
// the seed, the property, the phase and its index.
func (r *Run) Each(phase string, n int, f func(c *Case)) {
	r.each(phase, n, r.Workers, f)
}

// EachN is Each with a given number of workers.
func (r *Run) EachN(phase string, n, workers int, f func(c *Case)) { r.each(phase, n, workers, f) }

// Serial is Each with one worker.
func (r *Run) Serial(phase string, n int, f func(c *Case)) { r.each(phase, n, 1, f) }

func (r *Run) each(phase string, n, workers int, f func(c *Case)) {
	if r.Replaying {
		if phase != r.ReplayPhase {
			return
		}
		r.one(phase, r.ReplayIndex, f)
		return
	}
	r.mu.Lock()
	r.phases = append(r.phases, fmt.Sprintf("%s:%d", phase, n))
	r.mu.Unlock()

	begun := time.Now()
	var next int64 = -1
	var wg sync.WaitGroup
	type slot struct {
		index int64
		start int64
	}
	slots := make([]slot, workers)
	for i := range slots {
		atomic.StoreInt64(&slots[i].start, 0)
	}
	limit := HangLimit
	if r.Tier == "thorough" {
		limit *= 2
	}
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(2 * time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				now := time.Now().UnixNano()
				for i := range slots {
					s := atomic.LoadInt64(&slots[i].start)
					if s != 0 && time.Duration(now-s) > limit {
						idx := int(atomic.LoadInt64(&slots[i].index))
						r.fail(phase, idx, nil, fmt.Sprintf("case did not terminate within %s", limit))
						os.Exit(r.Finish())
					}
				}
			}
		}
	}()
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(n) {
					return
				}
				if atomic.LoadInt32(&r.nviol) >= r.maxViol {
					return
				}
				atomic.StoreInt64(&slots[w].index, i)
				atomic.StoreInt64(&slots[w].start, time.Now().UnixNano())
				r.one(phase, int(i), f)
				atomic.StoreInt64(&slots[w].start, 0)
			}
		}(w)
	}
	wg.Wait()
	close(done)
	if os.Getenv("VMON_TIMES") != "" {
		fmt.Fprintf(os.Stderr, "phase %s: %.1fs\n", phase, time.Since(begun).Seconds())
	}
}

// stop is the panic value used to abandon a case after its failure was recorded.
type stop struct{}

// Abort abandons the case (after Fail).
func (c *Case) Abort() { panic(stop{}) }

func (r *Run) one(phase string, i int, f func(c *Case)) {
	c := &Case{
		Run: r, Phase: phase, Index: i,
		Rng:   NewRng(r.Seed, r.Prop, phase, fmt.Sprint(i)),
		local: map[string]int{}, note: map[string]string{},
	}
	r.active.Store(where{phase, i}, true)
	defer func() {
		r.active.Delete(where{phase, i})
		if e := recover(); e != nil {
			if _, ok := e.(stop); !ok {
				st := string(debug.Stack())
				if fromSubject(st) {
					c.Note("stack", st)
					c.Fail("panic: %v", e)
				} else {
					r.Internal("harness panic in %s/%d: %v\n%s", phase, i, e, st)
				}
			}
		}
		// a case may hold many evaluations: each fault position, each input of a batch
		atomic.AddInt64(&r.evals, int64(max(1, c.units)))
		for k, n := range c.local {
			r.Count(k, n)
		}
	}()
	f(c)
}

// fromSubject tells whether the code under test is on the stack of a panic, above
// the harness: the first frame after the runtime's own which is neither runtime nor
// standard library decides.
func fromSubject(stack string) bool {
	lines := strings.Split(stack, "\n")
	// skip up to and including the last "panic(" frame
	at := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			at = i + 2
		}
	}
	for _, l := range lines[at:] {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.Contains(l, "clipperhouse/jargon") {
			return true
		}
		if strings.HasPrefix(l, "verif/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// Level is the kind of assurance claimed for a property.
func Level(prop string) string {
	if prop == "C05" || prop == "C22" {
		return "fault_enumeration"
	}
	return "exploration"
}

// GuardMemory reports a violation when the process's live memory exceeds limit: the code under
// test accumulates without bound (the monitors' own needs are two orders of magnitude smaller).
func (r *Run) GuardMemory(limit uint64) (stop func()) {
	done := make(chan struct{})
	go func() {
		tick := time.NewTicker(300 * time.Millisecond)
		defer tick.Stop()
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
		for {
			select {
			case <-done:
				return
			case <-tick.C:
				metrics.Read(sample)
				n := sample[0].Value.Uint64() + sample[1].Value.Uint64()
				if n > limit {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					running := r.running()
					phase, index := "memory", -1
					if len(running) == 1 {
						phase, index = running[0].phase, running[0].index
					}
					r.fail(phase, index, map[string]string{"running": fmt.Sprint(running), "stacks": string(buf)}, fmt.Sprintf("memory grew beyond %d bytes", limit))
					os.Exit(r.Finish())
				}
			}
		}
	}()
	return func() { close(done) }
}

type where struct {
	phase string
	index int
}

func (r *Run) running() (out []where) {
	r.active.Range(func(k, v any) bool { out = append(out, k.(where)); return true })
	return
}

// Finish writes the evidence and the witnesses and returns the exit code.
func (r *Run) Finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()

	distinct := 0
	for i := range r.distinct {
		r.distinct[i].Lock()
		distinct += len(r.distinct[i].m)
		r.distinct[i].Unlock()
	}
	observed := map[string]int64{}
	for k, p := range r.counters {
		observed[k] = atomic.LoadInt64(p)
	}
	samples := r.samples
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         atomic.LoadInt64(&r.evals),
		"distinct_nontrivial": distinct,
		"rule":                strings.Join(r.rules, " "),
		"samples":             samples,
		"observed":            observed,
		"phases":              r.phases,
	}
	if len(r.findings) > 0 {
		cov["known_findings"] = r.findings
	}
	ev := map[string]any{
		"property":   r.Prop,
		"tier":       r.Tier,
		"seed":       r.Seed,
		"level":      Level(r.Prop),
		"coverage":   cov,
		"wall_s":     time.Since(r.start).Seconds(),
		"violations": atomic.LoadInt32(&r.nviol),
	}
	if len(r.assume) > 0 {
		ev["assumptions"] = r.assume
	}
	if !r.Replaying {
		os.MkdirAll(r.OutDir, 0o755)
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(filepath.Join(r.OutDir, r.Prop+".json"), append(b, '\n'), 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 2
		}
	}

	if len(r.viols) > 0 {
		sort.Slice(r.viols, func(i, j int) bool {
			if r.viols[i].Phase != r.viols[j].Phase {
				return r.viols[i].Phase < r.viols[j].Phase
			}
			return r.viols[i].Index < r.viols[j].Index
		})
		dir := filepath.Join(r.OutDir, "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range r.viols {
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.Prop, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
			what := v.What
			if len(what) > 1500 {
				what = what[:1500] + "..."
			}
			fmt.Printf("  %s/%d: %s\n", v.Phase, v.Index, what)
			keys := []string{}
			for k := range v.Detail {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				s := v.Detail[k]
				if len(s) > 600 {
					s = s[:600] + "..."
				}
				fmt.Printf("    %s: %s\n", k, s)
			}
			if i >= 3 {
				break
			}
		}
		return 1
	}
	if len(r.errs) > 0 {
		for i, e := range r.errs {
			if i > 3 {
				break
			}
			fmt.Fprintln(os.Stderr, "internal error:", e)
		}
		return 2
	}
	if !r.Replaying && atomic.LoadInt64(&r.evals) == 0 {
		fmt.Fprintln(os.Stderr, "inconclusive: nothing was observed")
		return 2
	}
	fmt.Printf("held property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", r.Prop, atomic.LoadInt64(&r.evals), distinct, time.Since(r.start).Seconds())
	keys := []string{}
	for k := range observed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  observed %s=%d\n", k, observed[k])
	}
	return 0
}
