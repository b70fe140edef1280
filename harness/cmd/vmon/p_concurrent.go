package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"verif/mon"
)

//
// C11: shared filters under concurrency
//

// raceReport is what a child process tells its parent.
type raceReport struct {
	Streams      int
	Tokens       int
	FirstUses    int
	Interleaving []uint64 // signatures of the observed orders of events
	Mismatch     []string
}

// job is one stream of one goroutine.
type job struct {
	name  string
	run   func(jitter func()) ([]tok, error)
	want  []tok
	fails bool // an error is the expected result
	err   string
}

// jittery makes a stream which yields at random between tokens.
func jittery(s *jargon.TokenStream, jitter func()) *jargon.TokenStream {
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		jitter()
		return s.Next()
	})
}

// together runs the goroutines' jobs from a common start, and compares the results.
func together(rep *raceReport, r *rand.Rand, jobs [][]job) {
	n := len(jobs)
	var barrier, ready sync.WaitGroup
	barrier.Add(1)
	ready.Add(n)
	var seq int64
	order := make([]int32, 1<<14)
	seeds := make([]uint64, n)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rr := rand.New(rand.NewPCG(seeds[g], 7))
			jitter := func() {
				switch k := rr.IntN(64); {
				case k == 0:
					time.Sleep(time.Duration(rr.IntN(50)) * time.Microsecond)
				case k < 8:
					runtime.Gosched()
				}
			}
			got := make([][]tok, len(jobs[g]))
			errs := make([]error, len(jobs[g]))
			ready.Done()
			barrier.Wait()
			for i, j := range jobs[g] {
				// the order in which the goroutines get here is the observed interleaving
				if k := atomic.AddInt64(&seq, 1) - 1; k < int64(len(order)) {
					atomic.StoreInt32(&order[k], int32(g)+1)
				}
				got[i], errs[i] = j.run(jitter)
			}
			mu.Lock()
			defer mu.Unlock()
			for i, j := range jobs[g] {
				rep.Streams++
				rep.Tokens += len(got[i])
				bad := ""
				switch {
				case j.fails && errString(errs[i]) != j.err:
					bad = fmt.Sprintf("want error %q, got %q", j.err, errString(errs[i]))
				case j.fails:
				case errs[i] != nil:
					bad = "unexpected error " + errs[i].Error()
				default:
					bad = diff(j.want, got[i])
				}
				if bad != "" && len(rep.Mismatch) < 5 {
					rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("goroutine %d of %d, job %s: %s", g, n, j.name, bad))
				}
			}
		}(g)
	}
	ready.Wait()
	barrier.Done()
	wg.Wait()
	h := fnv.New64a()
	for i := range order {
		v := atomic.LoadInt32(&order[i])
		if v == 0 {
			break
		}
		h.Write([]byte{byte(v)})
	}
	rep.Interleaving = append(rep.Interleaving, h.Sum64())
}

func drainErr(s *jargon.TokenStream, n int) ([]tok, error) {
	out, err, runaway := drain(s, tooLong(n))
	if runaway {
		return out, errors.New("runaway stream")
	}
	return out, err
}

// raceMain is the body of a child process.
func raceMain(c mon.Config, k int) int {
	r := mon.NewRng(c.Seed, "C11", c.Tier, fmt.Sprint(k))
	g := mon.NewGen(c.Repo, terms())
	rep := &raceReport{}

	text := func() string {
		var s string
		switch r.IntN(3) {
		case 0:
			s = g.Prose(r, 200)
		default:
			s = g.Text(r, 1+r.IntN(25))
		}
		if len(s) > 600 {
			s = s[:600]
		}
		// one of each, so that every filter has something to do
		return s + mon.Pick(r, []string{"", " Ruby on Rails developers don't manage cafés; @handle #tag LeBron James.", " node js, can't", " Nikola Jokić, ObjC @a #b"})
	}
	stageJob := func(st stage, text string) job {
		in := refText(text)
		return job{
			name: fmt.Sprintf("%s on %q", st.name, text),
			want: st.ref(in),
			run: func(jitter func()) ([]tok, error) {
				return drainErr(jittery(jargon.TokenizeString(text), jitter).Filter(st.filter), len(text))
			},
		}
	}
	sharedTokens := func(st stage, text string) func() job {
		// the very same tokens, read by every goroutine
		in := refText(text)
		ts := real(in)
		want := st.ref(in)
		return func() job {
			return job{name: fmt.Sprintf("%s on shared tokens of %q", st.name, text), want: want, run: func(jitter func()) ([]tok, error) {
				return drainErr(jittery(source(ts), jitter).Filter(st.filter), len(text))
			}}
		}
	}

	// 1. first use of everything which the packages ship
	workers := []int{2, 3, 4, 8, 16, 32}[k%6]
	focus := shipped()[k%len(shipped())]
	if k%3 == 0 {
		focus = []stage{soStage, nbaStage}[k/3%2]
	}
	jobs := make([][]job, workers)
	for i := range jobs {
		all := shipped()
		r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		if k%2 == 0 {
			all = append([]stage{focus}, all...)
		}
		all = all[:min(len(all), 3+r.IntN(14))]
		for _, st := range all {
			jobs[i] = append(jobs[i], stageJob(st, text()))
		}
		doc := "<p>" + strings.ReplaceAll(text(), "<", "&lt;") + "<script>x < y</script> Rails</p>"
		wantHTML, _ := refHTML(doc)
		jobs[i] = append(jobs[i], job{name: "html", want: wantHTML, run: func(jitter func()) ([]tok, error) {
			return drainErr(jargon.TokenizeHTML(strings.NewReader(doc)), len(doc))
		}})
		others := otherJobs(r, text(), mon.Pick(r, shipped()))
		jobs[i] = append(jobs[i], others[:min(len(others), 6)]...)
		s := text()
		jobs[i] = append(jobs[i], job{name: "fold", want: []tok{{V: refFold(s)}}, run: func(jitter func()) ([]tok, error) {
			out, _ := ascii.FoldString(s)
			return []tok{{V: out}}, nil
		}})
	}
	together(rep, r, jobs)
	rep.FirstUses += len(shipped())

	// 2. first use of filters which callers build and share
	rounds := 6
	if c.Thorough() {
		rounds = 20
	}
	for round := 0; round < rounds; round++ {
		workers := 2 + r.IntN(12)
		var made []func() job
		for i := 0; i < 4; i++ {
			m, ic, ig := randomSynonyms(r, g)
			model := newSynModel(m, ic, ig)
			if model.conflict {
				continue
			}
			for n := r.IntN(300); n > 0; n-- { // long enough to build that the others get in
				key := fmt.Sprintf("filler%d filler%d", n, n*7)
				m[key] = "fill"
			}
			model = newSynModel(m, ic, ig)
			st := stage{"synonyms", synonyms.NewFilter(m, ic, ig), func(in []tok) []tok { out, _ := model.apply(in); return out }}
			m2 := m
			made = append(made, func() job { return stageJob(st, synText(r, g, m2)+" filler3 Filler21") })
			made = append(made, sharedTokens(st, synText(r, g, m2)))
			rep.FirstUses++
		}
		{
			stop := []string{"the", "On", " ", "a", "ruby"}
			ic := r.IntN(2) == 0
			st := stage{"stopwords", stopwords.NewFilter(stop, ic), func(in []tok) []tok { return refStop(in, stop, ic) }}
			made = append(made, func() job { return stageJob(st, text()) }, sharedTokens(st, text()))
			st2 := stage{"mapper", mapper.NewFilter(upcase, suffix), refUpcaseSuffix}
			made = append(made, func() job { return stageJob(st2, text()) })
			st3 := stage{"sigil", sigil.NewFilter("+", refHashtag), func(in []tok) []tok { out, _ := refSigil(in, "+", refHashtag); return out }}
			made = append(made, func() job { return stageJob(st3, text()+" +a ++b + c +é") })
			rep.FirstUses += 3
		}
		{
			// chains which share a filter with themselves
			m := map[string]string{"ruby, rails on": "gem", "gem": "jewel"}
			model := newSynModel(m, true, nil)
			f := synonyms.NewFilter(m, true, nil)
			made = append(made, func() job {
				s := text() + " Ruby gem rails on"
				in := refText(s)
				want, _ := model.apply(in)
				want, _ = model.apply(want)
				return job{name: "twice", want: want, run: func(jitter func()) ([]tok, error) {
					return drainErr(jittery(jargon.TokenizeString(s), jitter).Filter(f, f), len(s))
				}}
			})
			rep.FirstUses++
		}
		if round%3 == 0 {
			// a filter which cannot be built fails for everyone
			long := strings.Repeat("a", 70000)
			_, err := jargon.TokenizeString(long).ToSlice()
			if err != nil {
				f := synonyms.NewFilter(map[string]string{"ruby": "gem", long: "x"}, true, nil)
				made = append(made, func() job {
					return job{name: "failing build", fails: true, err: err.Error(), run: func(jitter func()) ([]tok, error) {
						return drainErr(jittery(jargon.TokenizeString("a ruby b"), jitter).Filter(f), 10)
					}}
				})
				rep.FirstUses++
			}
		}
		jobs := make([][]job, workers)
		for i := range jobs {
			perm := r.Perm(len(made))
			if round%2 == 0 {
				perm = perm[:min(len(perm), 4)]
			}
			// everyone starts on the same filter half of the time
			if r.IntN(2) == 0 {
				perm[0] = round % len(made)
			}
			for _, p := range perm {
				jobs[i] = append(jobs[i], made[p]())
			}
			st := mon.Pick(r, shipped())
			jobs[i] = append(jobs[i], stageJob(st, text()))
			if round%2 == 1 {
				others := otherJobs(r, text(), st)
				jobs[i] = append(jobs[i], others[:5]...)
			}
		}
		if round%3 == 2 {
			// everyone the same way, at the same time
			all := otherJobs(r, text(), mon.Pick(r, shipped()))
			for i := range jobs {
				jobs[i] = append(all[:len(all):len(all)], jobs[i]...)
			}
		}
		together(rep, r, jobs)
	}
	json.NewEncoder(os.Stdout).Encode(rep)
	return 0
}

// raceReports splits race detector logs.
func raceReports(log string) (out []string) {
	for _, part := range strings.Split(log, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, strings.TrimSpace(part))
		}
	}
	return out
}

// spawn runs a child and collects what it says. dump is its goroutines if it had to be stopped.
func spawn(path string, args, env []string, limit time.Duration) (stdout, stderr string, code int, hung bool, err error) {
	return spawnIn("", path, args, append(os.Environ(), env...), limit)
}

// spawnIn is spawn in a directory with a whole environment.
func spawnIn(dir, path string, args, env []string, limit time.Duration) (stdout, stderr string, code int, hung bool, err error) {
	cmd := exec.Command(path, args...)
	cmd.Dir, cmd.Env = dir, env
	var out bytes.Buffer
	errs := &tail{}
	cmd.Stdout, cmd.Stderr = &out, errs
	if err := cmd.Start(); err != nil {
		return "", "", 0, false, err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		hung = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	return out.String(), errs.String(), cmd.ProcessState.ExitCode(), hung, nil
}

func checkConcurrent(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case is a fresh process, built with the race detector (or, every fourth, without, at full speed) in which many goroutines start together on first use of the shipped filters, then on first use of filters built by the caller, over private streams and over the very same tokens, with random yields and delays. Monitors: data race reports with a frame of the code under test, fatal errors, goroutines stuck in the code under test, and every stream's tokens and errors against the sequential reference. Non-trivial: every process; distinct by the observed order in which the goroutines reached their streams.")
	r.Assume("a child process which takes milliseconds to seconds is taken to hang after 180 s")
	race := exe(r, "vmon.race")
	plain := exe(r, "vmon")
	if race == "" || plain == "" {
		return
	}
	blocked(r, g)
	n := r.Scale(48, 600)
	r.Each("processes", n, func(c *mon.Case) {
		path := race
		if c.Index%4 == 3 {
			path = plain
		}
		if c.Violated() && !c.Replaying {
			return
		}
		procs := []int{8, 4, 2, 16}[c.Index/4%4]
		logs := filepath.Join(c.Scratch, fmt.Sprintf("race-%d", c.Index))
		args := []string{"-racechild", fmt.Sprint(c.Index), "-prop", c.Prop, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-repo", c.Repo}
		env := []string{fmt.Sprintf("GOMAXPROCS=%d", procs), "GORACE=log_path=" + logs + " halt_on_error=0 exitcode=0 history_size=3"}
		c.Note("command", path+" "+strings.Join(args, " "))
		c.Note("environment", strings.Join(env, " "))
		out, errs, code, hung, err := spawn(path, args, env, 180*time.Second)
		if err != nil {
			c.Internal("%v", err)
			return
		}
		var races []string
		files, _ := filepath.Glob(logs + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			races = append(races, raceReports(string(b))...)
			os.Remove(f)
		}
		for _, s := range races {
			if strings.Contains(s, "github.com/clipperhouse/jargon") {
				c.Note("race", s)
				c.Fail("data race: %.900s", s)
				return
			}
		}
		if len(races) > 0 {
			c.Internal("race in the harness: %s", races[0])
			return
		}
		if hung {
			if strings.Contains(errs, "github.com/clipperhouse/jargon") {
				c.Note("goroutines", errs)
				c.Fail("goroutines sharing filters do not finish")
			} else {
				c.Internal("child hung outside of the code under test: %.2000s", errs)
			}
			return
		}
		if code != 0 {
			if crashed(errs) && strings.Contains(errs, "github.com/clipperhouse/jargon") {
				c.Note("stderr", errs)
				c.Fail("the process died: %.600s", errs)
			} else {
				c.Internal("child exited %d: %.2000s", code, errs)
			}
			return
		}
		var rep raceReport
		if err := json.Unmarshal([]byte(out), &rep); err != nil {
			c.Internal("child said %.200q: %v", out, err)
			return
		}
		for _, m := range rep.Mismatch {
			c.Fail("%s", m)
		}
		c.See("streams", rep.Streams)
		c.See("tokens", rep.Tokens)
		c.See("concurrent_first_uses", rep.FirstUses)
		c.See("processes", 1)
		if path == race {
			c.See("processes_with_race_detector", 1)
		}
		for _, h := range rep.Interleaving {
			c.Distinct(fmt.Sprint(h))
		}
		c.Sample(map[string]any{"gomaxprocs": procs, "race_detector": path == race, "streams": rep.Streams, "tokens": rep.Tokens, "orders_observed": len(rep.Interleaving)})
	})
}

func discardLog() *log.Logger { return log.New(io.Discard, "", 0) }
