// vmon runs the monitor of one property against the code in /repo, which is compiled into
// this binary (and, for the command line and web properties, into binaries given by flags).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mon"
)

type check struct {
	id  string
	run func(r *mon.Run, g *mon.Gen)
}

var checks = []check{
	{"C01", checkLossless},
	{"C02", checkBoundaries},
	{"C03", checkClassification},
	{"C04", checkHTML},
	{"C05", checkErrors},
	{"C06", checkStreaming},
	{"C07", checkConsumption},
	{"C08", checkViews},
	{"C09", checkSynonyms},
	{"C10", checkSynonymBuild},
	{"C11", checkConcurrent},
	{"C12", checkStackOverflow},
	{"C13", checkNBA},
	{"C14", checkContractions},
	{"C15", checkASCII},
	{"C16", checkStemmers},
	{"C17", checkNorm},
	{"C18", checkStopwords},
	{"C19", checkTwitter},
	{"C20", checkMapper},
	{"C21", checkCLI},
	{"C22", checkCLIFaults},
	{"C23", checkWeb},
	{"C24", checkQueue},
	{"C25", checkChains},
	{"C26", checkIndependence},
	{"C27", checkTotality},
	{"C28", checkContractionsGenerator},
	{"C29", checkTagsGenerator},
	{"C30", checkPlayersGenerator},
	{"C31", checkTrie},
	{"C32", checkCost},
}

// paths of the other binaries built from /repo
var bin struct {
	dir, race string
}

var verifDir string

func main() {
	if len(os.Args) > 3 && os.Args[1] == "-limitfsize" {
		limitFsize(os.Args[2], os.Args[3:])
	}
	var c mon.Config
	var seed uint64
	var replay string
	flag.StringVar(&c.Prop, "prop", "", "property")
	flag.StringVar(&c.Tier, "tier", "quick", "tier")
	flag.Uint64Var(&seed, "seed", 1, "seed")
	flag.StringVar(&c.Repo, "repo", "/repo", "repository")
	flag.StringVar(&c.OutDir, "out", "/verif/evidence", "evidence")
	flag.StringVar(&c.Scratch, "scratch", "", "scratch directory")
	flag.StringVar(&bin.dir, "bin", "", "binaries")
	flag.StringVar(&verifDir, "verif", "/verif", "")
	flag.StringVar(&replay, "replay", "", "replay a recorded violation")
	child := flag.Bool("child", false, "")
	raceChild := flag.Int("racechild", -1, "")
	flag.Parse()
	c.Seed = seed

	if *raceChild >= 0 {
		os.Exit(raceMain(c, *raceChild))
	}
	if !*child {
		os.Exit(supervise(c))
	}

	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v mon.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.Prop, c.Tier, c.Seed = v.Property, v.Tier, v.Seed
		if v.Index >= 0 && v.Property != "C23" {
			c.Replaying, c.ReplayPhase, c.ReplayIndex = true, v.Phase, v.Index
		}
	}
	for _, k := range checks {
		if k.id != c.Prop {
			continue
		}
		r := mon.NewRun(c)
		stop := r.GuardMemory(10 << 30)
		k.run(r, mon.NewGen(c.Repo, terms()))
		stop()
		os.Exit(r.Finish())
	}
	fmt.Fprintln(os.Stderr, "no such property:", c.Prop)
	os.Exit(2)
}

// terms are the domain terms which spice the generated texts.
func terms() []string {
	so, _ := synonymsOf(soTable)
	nba, _ := synonymsOf(nbaTable)
	var out []string
	for i, s := range so {
		if i%3 == 0 {
			out = append(out, s)
		}
	}
	for i, s := range nba {
		if i%5 == 0 {
			out = append(out, s)
		}
	}
	for k := range contractionsBase {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// tail keeps the head and the tail of a stream of bytes.
type tail struct {
	mu   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if room := 1<<20 - t.head.Len(); room > 0 {
		k := min(room, len(p))
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 1<<18 {
		t.last = t.last[len(t.last)-1<<17:]
	}
	return n, nil
}

func (t *tail) String() string { return t.head.String() + string(t.last) }

var subjectFrame = regexp.MustCompile(`(?m)^(github\.com/clipperhouse/jargon\S*)\(`)

// supervise runs the monitor in a child process, so that a fatal error of the code under
// test (stack exhaustion, concurrent map access, out of memory) is a verdict and not a lost run.
func supervise(c mon.Config) int {
	start := time.Now()
	args := append([]string{"-child"}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdin = nil
	errs := &tail{}
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(errs, limited(os.Stderr, 20000))
	err := cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if err == nil || code == 1 && !crashed(errs.String()) {
		return code
	}
	log := errs.String()
	if crashed(log) {
		// which goroutine died? the first one printed
		trace := log
		if i := strings.Index(trace, "fatal error:"); i >= 0 {
			trace = trace[i:]
		} else if i := strings.Index(trace, "panic:"); i >= 0 {
			trace = trace[i:]
		}
		first := trace
		if i := strings.Index(trace, "\ngoroutine "); i >= 0 {
			rest := trace[i+1:]
			if j := strings.Index(rest, "\n\n"); j >= 0 {
				rest = rest[:j]
			}
			first = rest
		}
		if subjectFrame.MatchString(first) {
			dir := filepath.Join(c.OutDir, "replay")
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, c.Prop+"-crash.log")
			os.WriteFile(p, []byte(strings.Join(args, " ")+"\n\n"+trace), 0o644)
			writeCrashEvidence(c, start, trace)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
			fmt.Printf("  the process died in the code under test: %.600s\n", trace)
			return 1
		}
	}
	fmt.Fprintf(os.Stderr, "inconclusive: the monitor ended with %v\n", cmd.ProcessState)
	return 2
}

func crashed(log string) bool {
	return strings.Contains(log, "fatal error:") || strings.Contains(log, "\npanic:") || strings.HasPrefix(log, "panic:") || strings.Contains(log, "goroutine stack exceeds")
}

func writeCrashEvidence(c mon.Config, start time.Time, what string) {
	os.MkdirAll(c.OutDir, 0o755)
	b, _ := json.MarshalIndent(map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": mon.Level(c.Prop),
		"coverage": map[string]any{"evaluations": 1, "distinct_nontrivial": 1, "rule": "the monitored process died", "samples": []string{fmt.Sprintf("%.2000s", what)}},
		"wall_s":   time.Since(start).Seconds(), "violations": 1,
	}, "", " ")
	os.WriteFile(filepath.Join(c.OutDir, c.Prop+".json"), append(b, '\n'), 0o644)
}

type limitedWriter struct {
	w io.Writer
	n int
}

func limited(w io.Writer, n int) io.Writer { return &limitedWriter{w, n} }

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		k := min(l.n, len(p))
		l.w.Write(p[:k])
		l.n -= k
	}
	return len(p), nil
}

// exe finds a binary which run.sh built from the repository.
func exe(r *mon.Run, name string) string {
	p := filepath.Join(bin.dir, name)
	if _, err := os.Stat(p); err != nil {
		r.Internal("missing binary %s: %v", name, err)
		return ""
	}
	return p
}

var _ = runtime.NumCPU
