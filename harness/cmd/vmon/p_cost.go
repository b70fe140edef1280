package main

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/tokenqueue"
	"verif/mon"
)

//
// C32: the work is proportional to the input
//

// threadTime is the processor time this thread has used; its goroutine must be locked to it.
func threadTime() time.Duration {
	var ts syscall.Timespec
	const clock = 3 // CLOCK_THREAD_CPUTIME_ID
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, clock, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		return 0
	}
	return time.Duration(ts.Nano())
}

// meter measures one piece of work.
type meter struct {
	start, limit time.Duration
	over         bool
}

// stop tells whether the work has gone on for too long to be worth finishing.
func (m *meter) stop() bool {
	if m.limit > 0 && threadTime()-m.start > m.limit {
		m.over = true
	}
	return m.over
}

// growth compares the processor time per unit of the work for n units and for 32 n: about 1 if
// the work is proportional, about 32 if it is quadratic. n is made large enough to measure.
// work returns early when the meter says so. What looks disproportionate is measured again and
// again, keeping the smallest times: noise only ever adds, and would have to add to every one.
func growth(c *mon.Case, n int, work func(n int, m *meter)) {
	if c.Violated() {
		return // one witness is enough, and what is slow is slow to measure
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	measure := func(n int, limit time.Duration) time.Duration {
		m := &meter{start: threadTime(), limit: limit}
		work(n, m)
		return threadTime() - m.start
	}
	const times, suspect, enough = 32, 7, 1 * time.Millisecond
	small := measure(n, 0)
	for k := 0; small < enough && k < 6; k++ {
		n *= 2
		small = measure(n, 0)
	}
	if small < enough/8 {
		c.See("too_fast_to_measure", 1)
		return
	}
	var large time.Duration
	ratio := 0.0
	began := time.Now()
	for try := 0; try < 3 || try < 6 && time.Since(began) < 8*time.Second; try++ {
		if try > 0 {
			runtime.GC()
			if s := measure(n, 0); s < small {
				small = s
			}
		}
		l := measure(times*n, (suspect+1)*times*small)
		if try == 0 || l < large {
			large = l
		}
		ratio = float64(large) / float64(small) / times
		c.See("measurements", 2)
		if ratio < suspect {
			c.Max("largest_growth_percent", int(ratio*100))
			return
		}
	}
	c.Note("times", fmt.Sprintf("%d units: %v; %d units: at least %v", n, small, times*n, large))
	c.Fail("the processor time per unit grows %.0f-fold from %d units to %d", ratio, n, times*n)
}

// repeat is an input without end made of a unit, after a beginning.
func repeat(head, unit, sep string, n int) string {
	var b strings.Builder
	b.Grow(len(head) + n*(len(unit)+len(sep)))
	b.WriteString(head)
	before, after, numbered := strings.Cut(unit, "{i}")
	for i := 0; i < n; i++ {
		if numbered {
			b.WriteString(before)
			b.WriteString(strconv.Itoa(i))
			b.WriteString(after)
		} else {
			b.WriteString(unit)
		}
		b.WriteString(sep)
	}
	return b.String()
}

var costUnits = []string{" ", "\u00a0", "\n", "\t ", "\r\n", "\u3000", "\u2028", "a", "ab", "the", "ruby", "Ruby on", "on Rails", ".", ",", "...", "@", "#", "@a", "#b", "@@a", "#a#", "$", "-", "a-b", "a.b", "'", "don't", "gonna", "I’m", "é", "Ü", "日", "に", "ア", "\u0301", "a\u0301", "👍", "👩‍👩‍👧", "🇺🇸", "\xff", "\xc3", "1,0", "1", "_", "\u200d", "\u200b", "\u00ad", "&", "&amp", "&amp;", "&#x41;", "<", "</", "<b>", "</b>", "<b", "<p a=b>", "<!--", "-->", "<!", "<script>", "</script>", "<a href='", "\"", ">", "<x/>", "<![CDATA[", "<title>", "javascript", "node js", "Stephen Curry", "Ibaka", "running", "нация", "w{i} ", "#t{i} ", "@h{i} ", "<b id={i}>", "Ruby {i} ", "É{i}é ", "{i}, ", "a{i}a.js-", "&#{i};", "w{i}\u00a0"}

var costSeps = []string{"", "", " ", " ", "\n", "\u00a0", ", ", "."}

func costInput(r *rand.Rand, g *mon.Gen) (head, unit, sep string) {
	switch r.IntN(4) {
	case 0:
		unit = mon.Pick(r, costUnits)
	case 1:
		unit = mon.Pick(r, costUnits) + mon.Pick(r, costUnits)
	case 2:
		unit = mon.Pick(r, costUnits) + mon.Pick(r, costSeps) + mon.Pick(r, costUnits) + mon.Pick(r, costSeps) + mon.Pick(r, costUnits)
	default:
		unit = g.Word(r)
		if unit == "" || len(unit) > 60 {
			unit = "word"
		}
	}
	head = mon.Pick(r, []string{"", "", "a", "word", "ruby ", "ruby on ", "@", "#", "<p>", "Stephen ", "."})
	return head, unit, mon.Pick(r, costSeps)
}

type costUse struct {
	name string
	run  func(s *jargon.TokenStream, m *meter)
}

// untilOver ends a stream when the meter says so.
func untilOver(s *jargon.TokenStream, m *meter) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i++; i%512 == 0 && m.stop() {
			return nil, io.ErrShortBuffer
		}
		return s.Next()
	})
}

var costUses = []costUse{
	{"next", func(s *jargon.TokenStream, m *meter) {
		for {
			if t, err := s.Next(); t == nil || err != nil {
				return
			}
		}
	}},
	{"scan", func(s *jargon.TokenStream, m *meter) {
		for s.Scan() {
			s.Token()
		}
	}},
	{"slice", func(s *jargon.TokenStream, m *meter) { s.ToSlice() }},
	{"string", func(s *jargon.TokenStream, m *meter) { _, _ = s.String() }},
	{"writeto", func(s *jargon.TokenStream, m *meter) { s.WriteTo(&sink{}) }},
	{"count", func(s *jargon.TokenStream, m *meter) { s.Count() }},
	{"distinct", func(s *jargon.TokenStream, m *meter) { s.Distinct().Count() }},
	{"words", func(s *jargon.TokenStream, m *meter) { s.Words().Count() }},
	{"lemmas", func(s *jargon.TokenStream, m *meter) { s.Lemmas().Count() }},
}

func checkCost(r *mon.Run, g *mon.Gen) {
	r.Rule("The processor time of a piece of work is measured for n units of input and for 32 n (n some thousands): tokenizing, every filter and chains of filters, every consuming method, markup, long words, building filters from large tables, the queue. Per unit it may grow sevenfold (quadratic work grows up to 32-fold); what looks disproportionate is measured up to six times, keeping the smallest times, before it counts. Non-trivial: every case; distinct by the work.")
	r.Assume("time of the thread which does the work, so that other processes do not matter")

	workers := max(1, runtime.NumCPU()/2) // so that measurements do not crowd each other
	stages := append(streamable(), distinctStage, lemmasStage)
	base := r.Scale(2000, 6000)

	pass := func(head, unit, sep string, filters []jargon.Filter, html bool, use costUse) func(n int, m *meter) {
		return func(n int, m *meter) {
			text := repeat(head, unit, sep, n)
			var s *jargon.TokenStream
			if html {
				s = jargon.TokenizeHTML(strings.NewReader(text))
			} else {
				s = jargon.Tokenize(strings.NewReader(text))
			}
			for _, f := range filters {
				s = s.Filter(f)
			}
			use.run(untilOver(s, m), m)
		}
	}
	// the time it takes to do nothing much is taken out of the first measurement
	for _, st := range stages {
		drain(jargon.TokenizeString("warm up").Filter(st.filter), 1000)
	}

	// every filter on runs of each kind of token
	r.EachN("filters", len(stages)*r.Scale(12, 80), workers, func(c *mon.Case) {
		st := stages[c.Index%len(stages)]
		head, unit, sep := costInput(c.Rng, g)
		use := mon.Pick(c.Rng, costUses)
		c.Note("work", fmt.Sprintf("%s, %s: %q + n × %q + %q", st.name, use.name, head, unit, sep))
		n := base
		if len(unit)+len(sep) > 40 {
			n /= 4
		}
		growth(c, n, pass(head, unit, sep, []jargon.Filter{st.filter}, c.Rng.IntN(4) == 0, use))
		c.Distinct(st.name, use.name, head, unit, sep)
	})
	// every unit, alone and after a word, through the filters which look ahead
	lookers := []stage{soStage, nbaStage, handlesStage, contractionsStage}
	heads := []string{"", "word", "Stephen "}
	r.EachN("runs", len(costUnits)*len(lookers)*len(heads), workers, func(c *mon.Case) {
		unit := costUnits[c.Index/len(lookers)/len(heads)]
		st := lookers[c.Index/len(heads)%len(lookers)]
		head := heads[c.Index%len(heads)]
		c.Note("work", fmt.Sprintf("%s: %q + n × %q", st.name, head, unit))
		growth(c, base, pass(head, unit, "", []jargon.Filter{st.filter}, false, costUses[0]))
		c.Distinct(st.name, head, unit)
	})
	r.EachN("chains", r.Scale(60, 600), workers, func(c *mon.Case) {
		var names []string
		var filters []jargon.Filter
		for k := 2 + c.Rng.IntN(4); k > 0; k-- {
			st := mon.Pick(c.Rng, stages)
			names = append(names, st.name)
			filters = append(filters, st.filter)
		}
		head, unit, sep := costInput(c.Rng, g)
		use := mon.Pick(c.Rng, costUses)
		c.Note("work", fmt.Sprintf("%s, %s: %q + n × %q + %q", strings.Join(names, "|"), use.name, head, unit, sep))
		growth(c, base/2, pass(head, unit, sep, filters, c.Rng.IntN(4) == 0, use))
		c.Distinct(strings.Join(names, "|"), use.name, head, unit, sep)
	})
	r.EachN("markup", r.Scale(100, 1000), workers, func(c *mon.Case) {
		head, unit, sep := costInput(c.Rng, g)
		switch c.Rng.IntN(3) {
		case 0:
			unit = mon.Pick(c.Rng, []string{"<b>", "<div><p>", "<i>x", "</p>", "<p>x</p>", "<br/>", "<script>x</script>", "<style>a{}</style>", "<!-- c -->", "&lt;", "<a href=x>y", "<", "<a", "a=b ", "<x y='z'>", "<table><tr><td>", "]]>", "<title>x</title>", "<textarea>", "<b></i>", "x"})
		case 1:
			head = mon.Pick(c.Rng, []string{"<", "<a ", "<!--", "<script>", "<!", "<a href=\"", "<title>", "<textarea>", "&", "</", "<?", "<![CDATA["})
		}
		use := mon.Pick(c.Rng, costUses)
		c.Note("work", fmt.Sprintf("html, %s: %q + n × %q + %q", use.name, head, unit, sep))
		growth(c, base, pass(head, unit, sep, nil, true, use))
		c.Distinct(use.name, head, unit, sep)
	})
	// words as long as they can be
	r.EachN("long words", r.Scale(80, 800), workers, func(c *mon.Case) {
		st := mon.Pick(c.Rng, stages)
		for strings.HasPrefix(st.name, "stem-") {
			st = mon.Pick(c.Rng, stages) // the algorithm is someone else's
		}
		unit := mon.Pick(c.Rng, []string{"a", "é", "Ü", "ア", "1", "_", "don't", "a.b", "\u0301", "x’", "ß", "İ"})
		c.Note("work", fmt.Sprintf("%s: up to 200 words of n × %q", st.name, unit))
		words := 200
		growth(c, 3000/len(unit), func(n int, m *meter) {
			t := jargon.NewToken(strings.Repeat(unit, n), false)
			i := 0
			s := jargon.NewTokenStream(func() (*jargon.Token, error) {
				if i++; i > words || m.stop() {
					return nil, nil
				}
				if m.limit == 0 && i < words && i >= 8 && threadTime()-m.start > 20*time.Millisecond {
					words = i // slow enough to measure
				}
				return t, nil
			})
			s.Filter(st.filter).Count()
		})
		c.Distinct(st.name, unit)
	})
	// large tables, and inputs against them
	r.EachN("tables", r.Scale(48, 300), workers, func(c *mon.Case) {
		shape := c.Index % 9
		ic := c.Rng.IntN(2) == 0
		c.Note("work", fmt.Sprintf("a table of n entries, shape %d, ignoring case %v, then n words", shape, ic))
		units := 300
		if shape == 5 || shape == 6 {
			units = 1200
		}
		growth(c, units, func(n int, m *meter) {
			var text strings.Builder
			if shape == 4 {
				var stop []string
				for i := 0; i < n*4; i++ {
					stop = append(stop, fmt.Sprintf("Word%d", i))
					fmt.Fprintf(&text, "word%d ", i)
				}
				f := stopwords.NewFilter(stop, ic)
				untilOver(jargon.TokenizeString(text.String()).Filter(f), m).Count()
				return
			}
			table := map[string]string{}
			var list []string
			for i := 0; i < n; i++ {
				key := fmt.Sprintf("Entry%d", i)
				switch shape {
				case 1:
					key = fmt.Sprintf("entry %d of many", i)
				case 2:
					key = fmt.Sprintf("%d-Entry.x", i)
				case 3, 7:
					list = append(list, key)
				case 5:
					// a different first character each, tens of thousands of them
					key = string(rune(0x20000 + i%42000))
				case 6:
					// which differ in the middle only
					key = "common" + string(rune(0x20000+i%42000)) + "end"
				case 8:
					// each a beginning of the next, in stretches
					key = strings.Repeat("x", i%50) + strconv.Itoa(i/50) + "y"
				}
				if shape == 7 {
					key = fmt.Sprintf("Entry %d of %d", i, i)
					list[len(list)-1] = key
				}
				if shape != 3 && shape != 7 {
					table[key] = fmt.Sprint("canonical", i%7)
				}
				text.WriteString(key + " ")
			}
			if shape == 3 || shape == 7 {
				table[strings.Join(list, ", ")] = "canonical"
			}
			f := synonyms.NewFilter(table, ic, []rune{' ', '-', '.'})
			untilOver(jargon.TokenizeString(text.String()).Filter(f), m).Count()
		})
		c.Distinct(fmt.Sprint(shape, ic))
	})
	// different words throughout, through everything that may remember them
	r.EachN("different", len(stages)*len(costUses), workers, func(c *mon.Case) {
		st := stages[c.Index%len(stages)]
		use := costUses[c.Index/len(stages)]
		unit := mon.Pick(c.Rng, []string{"w{i}", "Walking{i}", "É{i}", "#t{i}", "@t{i}"})
		c.Note("work", fmt.Sprintf("%s, %s: n × %q", st.name, use.name, unit))
		growth(c, base/2, pass("", unit, " ", []jargon.Filter{st.filter}, c.Rng.IntN(8) == 0, use))
		c.Distinct(st.name, use.name, unit)
	})
	// the command
	r.EachN("command", r.Scale(16, 100), workers, func(c *mon.Case) {
		path := exe(r, "jargon")
		if path == "" || c.Violated() {
			return
		}
		args := mon.Pick(c.Rng, [][]string{{}, {"-lines"}, {"-count"}, {"-html"}, {"-stack"}, {"-stem", "-lines"}, {"-distinct"}, {"-stack", "-lemmas", "-distinct", "-lines"}, {"-html", "-stack", "-count"}, {"-contractions", "-ascii"}})
		_, unit, sep := costInput(c.Rng, g)
		if c.Index%3 == 0 {
			unit, sep = mon.Pick(c.Rng, []string{"some more words", "word{i}", "<b>x</b>", "a, b. c"}), " "
		}
		c.Note("work", fmt.Sprintf("jargon %q: n × %q + %q", args, unit, sep))
		dir := scratch(c)
		defer os.RemoveAll(dir)
		// the smaller one is large enough for the start of the process not to matter
		spent := func(n int, limit time.Duration) time.Duration {
			file := filepath.Join(dir, "in")
			if err := os.WriteFile(file, []byte(repeat("", unit, sep, n)), 0o644); err != nil {
				r.Internal("%v", err)
				return 0
			}
			in, err := os.Open(file)
			if err != nil {
				r.Internal("%v", err)
				return 0
			}
			defer in.Close()
			ctx, cancel := context.WithTimeout(context.Background(), limit)
			defer cancel()
			cmd := exec.CommandContext(ctx, path, args...)
			cmd.Stdin = in
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			cmd.Run()
			if cmd.ProcessState == nil {
				return 0
			}
			return cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
		}
		// the start of the process does not count
		start := spent(0, time.Minute)
		for k := 0; k < 2; k++ {
			start = min(start, spent(0, time.Minute))
		}
		const times, suspect, enough = 32, 7, 30 * time.Millisecond
		n := 1 + 20000/(len(unit)+len(sep))
		small := spent(n, time.Minute) - start
		for k := 0; k < 8 && small < enough; k++ {
			n *= 2
			small = spent(n, time.Minute) - start
		}
		if small < enough/4 {
			c.See("too_fast_to_measure", 1)
			return
		}
		var large time.Duration
		for try := 0; try < 4; try++ {
			if try > 0 {
				small = min(small, spent(n, time.Minute)-start)
				if small < enough/4 {
					c.See("too_fast_to_measure", 1)
					return
				}
			}
			if l := spent(times*n, 2*suspect*times*small) - start; try == 0 || l < large {
				large = l
			}
			c.See("measurements", 2)
			if large < suspect*times*small {
				c.Max("largest_growth_percent_command", int(100*large/small/times))
				c.Distinct("command", strings.Join(args, " "), unit, sep)
				return
			}
		}
		c.Note("times", fmt.Sprintf("%d units: %v; %d units: at least %v", n, small, times*n, large))
		c.Fail("the processor time per unit grows %.0f-fold from %d units to %d", float64(large)/float64(small)/times, n, times*n)
	})
	r.EachN("queue", r.Scale(24, 100), workers, func(c *mon.Case) {
		how := c.Rng.IntN(4)
		keep := mon.Pick(c.Rng, []int{0, 1, 7, 100})
		c.Note("work", fmt.Sprintf("queue: 30 rounds of n pushed, then way %d, keeping %d", how, keep))
		t := jargon.NewToken("x", false)
		growth(c, 4000, func(n int, m *meter) {
			for round := 0; round < 30; round++ {
				q, other := tokenqueue.New(), tokenqueue.New()
				for i := 0; i < keep+n; i++ {
					q.Push(t)
				}
				for i := 0; q.Len() > keep; i++ {
					if i%512 == 0 && m.stop() {
						return
					}
					switch how {
					case 0:
						q.Pop()
					case 1:
						q.PopTo(other)
					case 2:
						q.Drop(1)
					case 3:
						q.Pop()
						if i%2 == 0 {
							q.Push(t)
						}
					}
				}
			}
		})
		c.Distinct("queue", fmt.Sprint(how, keep))
	})
}
