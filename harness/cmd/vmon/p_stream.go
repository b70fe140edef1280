package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"verif/mon"
)

//
// C06: streaming
//

// endless delivers size bytes of generated text without ever holding them, counting what was read.
type endless struct {
	size    int
	unit    func(i int) string
	i       int
	pending string
	read    int
	chunk   int
	onRead  func()
}

func (e *endless) Read(p []byte) (int, error) {
	if e.onRead != nil {
		e.onRead()
	}
	if e.chunk > 0 && len(p) > e.chunk {
		p = p[:e.chunk]
	}
	n := 0
	for n < len(p) {
		if e.pending == "" {
			if e.read+n >= e.size {
				break
			}
			e.pending = e.unit(e.i)
			e.i++
		}
		k := copy(p[n:], e.pending)
		e.pending = e.pending[k:]
		n += k
	}
	e.read += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func liveHeap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc + m.StackInuse)
}

// distinctWords never repeats, so that anything remembered per word shows.
func distinctWords(i int) string {
	// letters rather than digits, so that every filter has something to change
	w := ""
	for k := i + 1; k > 0; k /= 21 {
		w += string("bcdfghjklmnpqrstvwxyz"[k%21])
	}
	switch i % 3 {
	case 0:
		return fmt.Sprintf("%sings word%d Ünïc%d don't Ruby on Rails #tag%d @h%d, %sing.\n", w, i, i, i, i%1000000, w)
	case 1:
		return fmt.Sprintf("e\u0301%d e\u0301%s ﬁ%d Å%s %s's %sées %sность %sando Å%s\n", i, w, i, w, w, w, w, w, w)
	default:
		return fmt.Sprintf("react %s js #%s @%d_ ruby-%s on%d ½%s %s.js %s'll ½%d\n", w, w, i%1000000, w, i, w, w, w, i)
	}
}

func htmlUnits(i int) string {
	return fmt.Sprintf("<p id=%d>word%d <b>Ruby</b> on Rails &amp; more%d</p><script>x%d</script>\n", i, i, i, i)
}

type sink struct {
	n       int
	onWrite func()
}

func (s *sink) Write(p []byte) (int, error) {
	s.n += len(p)
	if s.onWrite != nil {
		s.onWrite()
	}
	return len(p), nil
}

// streamable are all the filters and views which must work in constant memory.
func streamable() []stage {
	out := append(shipped(), wordsStage)
	out = append(out,
		stage{"mapper", mapper.NewFilter(upcase), nil},
		stage{"stopwords", stopwords.NewFilter([]string{"on", "more", "the"}, true), nil},
		stage{"sigil", sigil.NewFilter("$", func(s string) bool { return true }), nil},
		stage{"synonyms", synonyms.NewFilter(map[string]string{"ruby on rails, ruby": "ror", "don't walking, of the and a b c": "x"}, true, []rune{' ', '-'}), nil},
		stage{"where", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return len(t.String()) != 3 })
		}, nil},
	)
	return out
}

func checkStreaming(r *mon.Run, g *mon.Gen) {
	r.Rule("Instrumented sources count what a pipeline pulls, instrumented consumers what it delivers: constructing a pipeline reads nothing; over multi-megabyte inputs the input read minus the output delivered stays below 128 KiB (readers) or 600 tokens (filters); the live heap and stacks do not grow with the input (distinct words throughout) nor with the number of streams. Non-trivial: every case observes a pipeline over a long input; distinct by pipeline, source and size.")
	r.Assume("bounds are two orders of magnitude above what the code needs; Distinct inherently remembers the distinct values, HTML tokenizing one node at a time")
	const maxLag = 128 << 10

	size := r.Scale(3<<20, 12<<20)
	stages := streamable()

	r.Each("construction", r.Cases(400, 4000), func(c *mon.Case) {
		e := &endless{size: 1 << 20, unit: distinctWords}
		var s *jargon.TokenStream
		if c.Rng.IntN(3) == 0 {
			s = jargon.TokenizeHTML(e)
		} else {
			s = jargon.Tokenize(e)
		}
		names, filters, _ := chain(c.Rng, g, 4)
		pulled := 0
		c.Note("filters", strings.Join(names, " | "))
		s = tapped(s, &pulled).Filter(filters...)
		if e.read != 0 || pulled != 0 {
			c.Fail("constructing the pipeline read %d bytes and %d tokens", e.read, pulled)
		}
		_ = s
		c.Distinct(strings.Join(names, "|"))
		c.See("constructions", 1)
	})
	// how far does the tokenizer read ahead of what it delivers?
	r.Each("read-ahead", r.Cases(32, 96), func(c *mon.Case) {
		unit := []func(int) string{
			distinctWords,
			func(i int) string { return "\u200b" + "- " },
			func(i int) string { return "." },
			func(i int) string { return "é\u0301 " },
			func(i int) string { return g.Text(rand.New(rand.NewPCG(uint64(i), 7)), 4) },
			htmlUnits,
			func(i int) string { return "\n" },
			func(i int) string { return strings.Repeat("long", i%3000) + " " },
		}[c.Index%8]
		e := &endless{size: size / 2, unit: unit, chunk: []int{0, 1000, 4096, 1 << 20}[c.Index/8%4]}
		if c.Index%8 < 2 || c.Index%8 == 6 {
			e.size /= 4
		}
		html := c.Rng.IntN(2) == 0 && c.Index%8 == 5
		var s *jargon.TokenStream
		if html {
			s = jargon.TokenizeHTML(e)
		} else {
			s = jargon.Tokenize(e)
		}
		c.Note("case", fmt.Sprintf("unit %d chunk %d html %v", c.Index%8, e.chunk, html))
		emitted, n := 0, 0
		for {
			t, err := s.Next()
			if err != nil {
				c.Fail("unexpected error %v", err)
				return
			}
			if t == nil {
				break
			}
			n++
			emitted += len(t.String())
			if lag := e.read - emitted; lag > maxLag {
				c.Fail("after %d tokens, %d bytes are read but not delivered", n, lag)
				return
			} else {
				c.Max("max_lag_bytes", lag)
			}
		}
		if emitted != e.read {
			c.Fail("read %d bytes, delivered %d", e.read, emitted)
		}
		c.See("tokens", n)
		c.See("bytes", e.read)
		c.Distinct(fmt.Sprint(c.Index))
		c.Sample(map[string]any{"bytes": e.read, "tokens": n, "html": html})
	})
	// WriteTo writes as it goes
	r.Each("write", r.Cases(12, 48), func(c *mon.Case) {
		e := &endless{size: size / 2, unit: distinctWords}
		s := jargon.Tokenize(e)
		if c.Index%3 == 1 {
			e.unit = htmlUnits
			s = jargon.TokenizeHTML(e)
		}
		if c.Index%2 == 1 {
			s = s.Filter(asciiStage.filter) // shortens or lengthens by little
		}
		w := &sink{}
		w.onWrite = func() {
			// ascii folding shortens the text by at most a third
			if lag := e.read*2/3 - w.n; lag > maxLag && !c.Failed() {
				c.Fail("WriteTo: %d bytes read, only %d written", e.read, w.n)
			}
		}
		e.onRead = w.onWrite
		n, err := s.WriteTo(w)
		if err != nil || int(n) != w.n {
			c.Fail("WriteTo: %d bytes, %d reported, %v", w.n, n, err)
		}
		c.See("bytes", e.read)
		c.Distinct(fmt.Sprint(c.Index))
	})
	// how far does a filter pull ahead of what it delivers? A source with a period: the reference output per period is known.
	periods := []string{
		"plain words which nothing changes and so on. ", "Ruby on Rails and React JS, don't @walk #x été ", "zzz ", ". ", "a,b,c,", "Ruby ", "Ruby on ", "# # @ @ ", "LeBron James, ", "don't can't ", "\n", "été ", "walking ", "one two three four five six seven eight nine ten eleven twelve ",
	}
	r.Each("filter-lag", len(stages)*len(periods), func(c *mon.Case) {
		st := stages[c.Index%len(stages)]
		period := periods[c.Index/len(stages)]
		c.Note("filter", st.name)
		c.NoteQ("period", period)
		ts := real(refText(period))
		n := r.Scale(60000, 300000)
		// outputs per period, measured on the filter itself over a long finite run (its steady state)
		reps := 40
		var finite []*jargon.Token
		for i := 0; i < reps; i++ {
			finite = append(finite, ts...)
		}
		k, err := source(finite).Filter(st.filter).Count()
		if err != nil {
			c.Fail("unexpected error %v", err)
			return
		}
		if k < reps/2 {
			c.See("filters_dropping_everything", 1)
			return
		}
		pulled := 0
		s := jargon.NewTokenStream(func() (*jargon.Token, error) {
			if pulled >= n {
				return nil, nil
			}
			pulled++
			return ts[(pulled-1)%len(ts)], nil
		})
		out := s.Filter(st.filter)
		m := 0
		for {
			t, err := out.Next()
			if err != nil {
				c.Fail("unexpected error %v", err)
				return
			}
			if t == nil {
				break
			}
			m++
			// m outputs need about m/k*reps periods
			need := float64(m) / float64(k) * float64(reps*len(ts))
			lag := int(float64(pulled) - need)
			c.Max("max_lag_tokens", lag)
			if lag > 600+n/40 || m == 1 && pulled > 600 {
				c.Fail("after %d outputs %d tokens were pulled; about %.0f are needed", m, pulled, need)
				return
			}
		}
		c.See("tokens", pulled)
		c.Distinct(st.name, period)
	})
	// memory
	r.Serial("memory", len(stages)+8, func(c *mon.Case) {
		runtime.GC()
		total := size
		var mk func() (*endless, *jargon.TokenStream)
		name := ""
		switch {
		case c.Index < len(stages):
			st := stages[c.Index]
			name = st.name
			mk = func() (*endless, *jargon.TokenStream) {
				e := &endless{size: total, unit: distinctWords}
				return e, jargon.Tokenize(e).Filter(st.filter)
			}
		case c.Index < len(stages)+2:
			name = "html"
			mk = func() (*endless, *jargon.TokenStream) {
				e := &endless{size: total, unit: htmlUnits}
				return e, jargon.TokenizeHTML(e).Filter(stages[0].filter)
			}
		case c.Index < len(stages)+4:
			name = "plain"
			mk = func() (*endless, *jargon.TokenStream) {
				e := &endless{size: total, unit: distinctWords}
				return e, jargon.Tokenize(e)
			}
		default:
			var fs []jargon.Filter
			for i := 0; i < 4; i++ {
				st := mon.Pick(c.Rng, stages)
				name += st.name + " "
				fs = append(fs, st.filter)
			}
			mk = func() (*endless, *jargon.TokenStream) {
				e := &endless{size: total, unit: distinctWords}
				return e, jargon.Tokenize(e).Filter(fs...)
			}
		}
		c.Note("pipeline", name)
		e, s := mk()
		base, peak, next := -1, 0, total/8
		how := c.Index % 3
		step := func() bool {
			if e.read >= next {
				next += total / 4
				h := liveHeap()
				if base < 0 {
					base = h
				}
				peak = max(peak, h-base)
				c.See("heap_samples", 1)
				if h-base > 3<<19 {
					c.Fail("live memory grew by %d bytes while reading %d bytes", h-base, e.read)
					return false
				}
			}
			return true
		}
		switch how {
		case 0:
			for s.Scan() {
				if !step() {
					return
				}
			}
			if s.Err() != nil {
				c.Fail("unexpected error %v", s.Err())
			}
		case 1:
			w := &sink{}
			w.onWrite = func() { step() }
			if _, err := s.WriteTo(w); err != nil {
				c.Fail("unexpected error %v", err)
			}
		case 2:
			e.onRead = func() { step() }
			if _, err := s.Count(); err != nil {
				c.Fail("unexpected error %v", err)
			}
		}
		runtime.KeepAlive(s)
		c.Max("max_heap_growth", peak)
		c.See("bytes", e.read)
		c.Distinct(name, fmt.Sprint(how))
	})
	// long runs of tokens which a view skips must cost no memory either
	r.Serial("skipping", 5, func(c *mon.Case) {
		views := []struct {
			name string
			f    jargon.Filter
			v    string
			l    bool
		}{
			{"words over spaces", (*jargon.TokenStream).Words, " ", false},
			{"lemmas over words", (*jargon.TokenStream).Lemmas, "word", false},
			{"distinct", (*jargon.TokenStream).Distinct, "same", false},
			{"stopwords", stopwords.NewFilter([]string{"stop"}, true), "stop", false},
			{"synonyms removing", synonyms.NewFilter(map[string]string{"gone": ""}, false, nil), "gone", false},
		}
		v := views[c.Index]
		c.Note("view", v.name)
		t := jargon.NewToken(v.v, v.l)
		n := r.Scale(2000000, 6000000)
		pulled, base := 0, -1
		s := jargon.NewTokenStream(func() (*jargon.Token, error) {
			if pulled >= n {
				return nil, nil
			}
			pulled++
			if pulled%(n/6) == 0 {
				h := liveHeap()
				if base < 0 {
					base = h
				}
				c.Max("max_growth_skipping", h-base)
				if h-base > 16<<20 {
					c.Fail("memory grew by %d bytes while skipping %d tokens", h-base, pulled)
					c.Abort()
				}
			}
			return t, nil
		})
		k, err := v.f(s).Count()
		if err != nil {
			c.Fail("unexpected error %v", err)
		}
		c.See("tokens", pulled)
		c.Note("count", fmt.Sprint(k))
		c.Distinct(v.name)
	})
	r.Serial("streams", r.Scale(6, 12), func(c *mon.Case) {
		n := r.Scale(4000, 10000)
		text := "Ruby on Rails don't @x #y été walking"
		run := func(k int) {
			for i := 0; i < k; i++ {
				s := jargon.TokenizeString(fmt.Sprintf("%s w%d", text, i))
				if c.Index%2 == 1 {
					s = jargon.TokenizeHTML(strings.NewReader(fmt.Sprintf("<p>%s w%d</p>", text, i)))
				}
				for _, st := range stages[:6] {
					s = st.filter(s)
				}
				switch c.Index % 3 {
				case 0:
					s.Count()
				case 1:
					s.Next() // abandoned
				case 2:
					s.Distinct().ToSlice()
				}
			}
		}
		run(500)
		base := liveHeap()
		run(n)
		h := liveHeap() - base
		c.Max("max_heap_growth_streams", h)
		if h > 1<<20 {
			c.Fail("live memory grew by %d bytes over %d streams", h, n)
		}
		c.See("streams", n+500)
		c.Distinct(fmt.Sprint(c.Index))
	})
	denseMemory(r, stages)
	cliMemory(r)
}

//
// C07: consumption
//

// anyPipeline makes a pipeline over a text; call make several times for identical streams.
func anyPipeline(c *mon.Case, g *mon.Gen) (name string, mk func() *jargon.TokenStream, n int) {
	r := c.Rng
	text := g.Any(r)
	name = fmt.Sprintf("%.300q", text)
	var src func() *jargon.TokenStream
	switch r.IntN(4) {
	case 0:
		doc := genHTML(r, g, 1+r.IntN(6))
		name = fmt.Sprintf("html %.300q", doc)
		text = doc
		src = func() *jargon.TokenStream { return jargon.TokenizeHTML(strings.NewReader(doc)) }
	case 1:
		ts := real(refText(text))
		for i := range ts {
			if r.IntN(4) == 0 {
				ts[i] = jargon.NewToken(ts[i].String(), true)
			}
		}
		src = func() *jargon.TokenStream { return source(ts) }
	default:
		chunks := []int{1 + r.IntN(50)}
		src = func() *jargon.TokenStream { return jargon.Tokenize(&mon.Feeder{Data: text, Chunks: chunks}) }
	}
	if r.IntN(4) == 0 {
		return name, src, len(text)
	}
	names, filters, _ := chain(r, g, 4)
	name += " | " + strings.Join(names, " | ")
	switch r.IntN(3) {
	case 0:
		return name, func() *jargon.TokenStream { return src().Filter(filters...) }, len(text)
	case 1:
		return name, func() *jargon.TokenStream {
			s := src()
			for _, f := range filters {
				s = s.Filter(f)
			}
			return s
		}, len(text)
	default:
		return name, func() *jargon.TokenStream {
			s := src()
			for _, f := range filters {
				s = f(s)
			}
			return s.Filter()
		}, len(text)
	}
}

// limitedSink takes a number of bytes and then fails, forever or once.
type limitedSink struct {
	limit int
	b     strings.Builder
	err   error
	once  bool
	after int // writes from the failure on
}

func (l *limitedSink) Write(p []byte) (int, error) {
	if l.after > 0 {
		l.after++
		if l.once {
			l.b.Write(p)
			return len(p), nil
		}
		return 0, l.err
	}
	if l.b.Len()+len(p) > l.limit {
		k := l.limit - l.b.Len()
		l.b.Write(p[:k])
		l.after++
		return k, l.err
	}
	l.b.Write(p)
	return len(p), nil
}

func (l *limitedSink) text() string  { return l.b.String() }
func (l *limitedSink) failures() int { return l.after }

// the other things which writers can do
type stringSink struct{ limitedSink }

func (l *stringSink) WriteString(s string) (int, error) { return l.Write([]byte(s)) }

type byteSink struct{ stringSink }

func (l *byteSink) WriteByte(b byte) error {
	_, err := l.Write([]byte{b})
	return err
}

func (l *byteSink) WriteRune(r rune) (int, error) { return l.Write([]byte(string(r))) }

type readerFromSink struct{ stringSink }

func (l *readerFromSink) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 100)
	for {
		k, err := r.Read(buf)
		w, werr := l.Write(buf[:k])
		n += int64(w)
		if werr != nil {
			return n, werr
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// flushSink and closeSink must be left alone but for writing.
type flushSink struct {
	stringSink
	flushed int
}

func (l *flushSink) Flush() error { l.flushed++; return nil }
func (l *flushSink) Close() error { l.flushed++; return nil }

type anyWriter interface {
	io.Writer
	text() string
	failures() int
}

// anySink is a writer of one of the kinds which exist.
func anySink(r *rand.Rand, limit int, err error) anyWriter {
	l := limitedSink{limit: limit, err: err, once: r.IntN(2) == 0}
	switch r.IntN(5) {
	case 0:
		return &stringSink{l}
	case 1:
		return &byteSink{stringSink{l}}
	case 2:
		return &readerFromSink{stringSink{l}}
	case 3:
		return &flushSink{stringSink: stringSink{l}}
	}
	return &l
}

var errNoSpace = errors.New("injected: no space left")

func checkConsumption(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case builds the same pipeline several times: once drained by Next alone (the history), then consumed by random sequences of Next, Scan, Token and Err, and finished by each terminal method from a random position. An online model of the stream position judges every return value, and ten further calls after the end. Also: filters composed in one call, step by step, or by direct application; writers failing at every byte. Non-trivial: at least two tokens; distinct by pipeline and operation sequence.")

	// millions of tokens, of one or two bytes: every position is somewhere between tokens
	r.EachN("long", r.Cases(14, 140), 4, func(c *mon.Case) {
		n := 1<<20 + c.Rng.IntN(3<<20)
		few := []tok{classify("a", false), classify(" ", false), classify(".", false), classify("é", true), classify("\n", false)}
		few = few[:2+c.Rng.IntN(len(few)-1)]
		toks := real(few)
		in := make([]*jargon.Token, n)
		var text strings.Builder
		for i := range in {
			in[i] = toks[c.Rng.IntN(len(toks))]
			text.WriteString(in[i].String())
		}
		s := source(in)
		for k := c.Rng.IntN(3); k > 0; k-- {
			s = s.Filter(func(s *jargon.TokenStream) *jargon.TokenStream {
				return s.Where(func(*jargon.Token) bool { return true })
			})
		}
		o := consumeWith(c, c.Index%consumers, s, n+10)
		c.Note("consumer", o.how)
		switch {
		case o.err != nil:
			c.Fail("%d tokens of %d bytes, %s: %v", n, text.Len(), o.how, o.err)
		case o.isText && o.text != text.String():
			c.Fail("%d tokens, %s: %s", n, o.how, textDiff(text.String(), o.text))
		case !o.isText && !o.none:
			if d := diff(seeAll(in), o.tokens); d != "" {
				c.Fail("%d tokens, %s: %s", n, o.how, d)
			}
		case o.how == "Count":
			if got, err := source(in).Count(); err != nil || got != n {
				c.Fail("Count is %d, %v; want %d", got, err, n)
			}
		}
		c.See("tokens", n)
		c.Distinct(o.how, fmt.Sprint(n))
	})
	r.Each("mixed", r.Cases(30000, 400000), func(c *mon.Case) {
		name, mk, n := anyPipeline(c, g)
		c.Note("pipeline", name)
		want := mustDrain(c, mk(), n)
		s := mk()
		pos := 0
		var ops []string
		steps := c.Rng.IntN(2*len(want) + 12)
		scanOnly := c.Rng.IntN(4) == 0
		for i := 0; i < steps && !c.Failed(); i++ {
			switch c.Rng.IntN(4) {
			case 0:
				if scanOnly {
					continue
				}
				ops = append(ops, "Next")
				c.Note("ops", strings.Join(ops, " "))
				t, err := s.Next()
				switch {
				case err != nil:
					c.Fail("unexpected error %v", err)
				case pos < len(want) && t == nil:
					c.Fail("Next: end after %d of %d tokens", pos, len(want))
				case pos < len(want) && see(t) != want[pos]:
					c.Fail("Next: token %d is %s, want %s", pos, see(t), want[pos])
				case pos >= len(want) && t != nil:
					c.Fail("Next: token %s after the end", see(t))
				}
				if t != nil && s.Token() != t || s.Err() != nil {
					c.Fail("Next returned a token, but Token is %v, Err is %v", s.Token(), s.Err())
				}
				pos = min(pos+1, len(want))
			case 1, 2:
				ops = append(ops, "Scan")
				c.Note("ops", strings.Join(ops, " "))
				ok := s.Scan()
				switch {
				case s.Err() != nil:
					c.Fail("unexpected error %v", s.Err())
				case ok != (pos < len(want)):
					c.Fail("Scan is %v at %d of %d tokens", ok, pos, len(want))
				case ok && s.Token() == nil:
					c.Fail("Scan is true but there is no token")
				case ok && see(s.Token()) != want[pos]:
					c.Fail("Scan: token %d is %s, want %s", pos, see(s.Token()), want[pos])
				}
				pos = min(pos+1, len(want))
			case 3:
				// looking does not move
				for k := c.Rng.IntN(3); k >= 0; k-- {
					t, err := s.Token(), s.Err()
					if err != nil {
						c.Fail("Err is %v", err)
					}
					if pos > 0 && pos < len(want) && (t == nil || see(t) != want[pos-1]) {
						c.Fail("Token changed without Scan or Next")
					}
				}
			}
			c.See("operations", 1)
		}
		if c.Failed() {
			return
		}
		// finish
		rest := want[pos:]
		switch c.Rng.IntN(6) {
		case 0:
			ops = append(ops, "ToSlice")
			c.Note("ops", strings.Join(ops, " "))
			ts, err := s.ToSlice()
			if err != nil {
				c.Fail("ToSlice: %v", err)
			} else if d := diff(rest, seeAll(ts)); d != "" {
				c.Fail("ToSlice: %s", d)
			}
		case 1:
			ops = append(ops, "String")
			c.Note("ops", strings.Join(ops, " "))
			text, err := s.String()
			if err != nil || text != concat(rest) {
				c.Fail("String: %v, %s", err, textDiff(concat(rest), text))
			}
		case 2:
			ops = append(ops, "WriteTo")
			c.Note("ops", strings.Join(ops, " "))
			var b strings.Builder
			n, err := s.WriteTo(&b)
			if err != nil || b.String() != concat(rest) {
				c.Fail("WriteTo: %v, %s", err, textDiff(concat(rest), b.String()))
			} else if n != int64(b.Len()) {
				c.Fail("WriteTo reports %d bytes, wrote %d", n, b.Len())
			}
		case 3:
			ops = append(ops, "Count")
			c.Note("ops", strings.Join(ops, " "))
			n, err := s.Count()
			if err != nil || n != len(rest) {
				c.Fail("Count: %d, %v; want %d", n, err, len(rest))
			}
		case 4:
			ops = append(ops, "Where")
			c.Note("ops", strings.Join(ops, " "))
			got := mustDrain(c, s.Where(func(*jargon.Token) bool { return true }), n)
			if d := diff(rest, got); d != "" {
				c.Fail("the rest: %s", d)
			}
		case 5:
			ops = append(ops, "drain")
			c.Note("ops", strings.Join(ops, " "))
			if d := diff(rest, mustDrain(c, s, n)); d != "" {
				c.Fail("the rest: %s", d)
			}
		}
		// the end is the end
		for k := 0; k < 5 && !c.Failed(); k++ {
			if t, err := s.Next(); t != nil || err != nil {
				c.Fail("Next after the end: %v, %v", t, err)
			}
			if s.Scan() || s.Err() != nil {
				c.Fail("Scan after the end: %v, %v", s.Token(), s.Err())
			}
		}
		if ts, err := s.ToSlice(); len(ts) != 0 || err != nil {
			c.Fail("ToSlice after the end: %v, %v", ts, err)
		}
		if k, err := s.Count(); k != 0 || err != nil {
			c.Fail("Count after the end: %v, %v", k, err)
		}
		if len(want) > 1 {
			c.Distinct(name, strings.Join(ops, " "))
		}
		c.See("tokens", len(want))
		c.Sample(map[string]string{"pipeline": name, "ops": fmt.Sprintf("%.200s", strings.Join(ops, " "))})
	})
	taking(r, g)
	r.Each("terminal", r.Cases(6000, 80000), func(c *mon.Case) {
		name, mk, n := anyPipeline(c, g)
		c.Note("pipeline", name)
		want := mustDrain(c, mk(), n)
		for k := 0; k < consumers; k++ {
			o := consumeWith(c, k, mk(), tooLong(n))
			if o.err != nil {
				c.Fail("%s: unexpected error %v", o.how, o.err)
			} else if o.isText && o.text != concat(want) {
				c.Fail("%s: %s", o.how, textDiff(concat(want), o.text))
			} else if !o.isText && !o.none {
				if d := diff(want, o.tokens); d != "" {
					c.Fail("%s: %s", o.how, d)
				}
			}
			c.See("terminals", 1)
		}
		if k, err := mk().Count(); k != len(want) || err != nil {
			c.Fail("Count: %d, %v; want %d", k, err, len(want))
		}
		if len(want) > 1 {
			c.Distinct(name)
		}
	})
	r.Each("composition", r.Cases(6000, 80000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		c.NoteQ("input", text)
		names, filters, _ := chain(c.Rng, g, 5)
		c.Note("filters", strings.Join(names, " | "))
		var order []int
		marked := make([]jargon.Filter, len(filters))
		for i, f := range filters {
			marked[i] = func(s *jargon.TokenStream) *jargon.TokenStream { order = append(order, i); return f(s) }
		}
		a := mustDrain(c, jargon.TokenizeString(text).Filter(marked...), len(text))
		for i := range order {
			if order[i] != i || len(order) != len(filters) {
				c.Fail("filters applied in order %v", order)
			}
		}
		s := jargon.TokenizeString(text)
		for _, f := range filters {
			s = f(s)
		}
		b := mustDrain(c, s, len(text))
		if d := diff(b, a); d != "" {
			c.Fail("Filter(f, g, ...) is not ...g(f(stream)): %s", d)
		}
		cut := c.Rng.IntN(len(filters) + 1)
		d := mustDrain(c, jargon.TokenizeString(text).Filter(filters[:cut]...).Filter(filters[cut:]...), len(text))
		if d := diff(b, d); d != "" {
			c.Fail("Filter in two calls differs: %s", d)
		}
		c.Distinct(text, strings.Join(names, "|"))
	})
	r.Each("writers", r.Cases(2500, 30000), func(c *mon.Case) {
		name, mk, n := anyPipeline(c, g)
		if n > 200 {
			return
		}
		c.Note("pipeline", name)
		want := concat(mustDrain(c, mk(), n))
		for limit := 0; limit < len(want); limit++ {
			fault := errNoSpace
			if limit%2 == 1 {
				fault = mon.Pick(c.Rng, faults)
			}
			w := anySink(c.Rng, limit, fault)
			c.Note("writer", fmt.Sprintf("%T %#v failing after %d bytes with %q", w, w, limit, fault))
			n, err := mk().WriteTo(w)
			if !errors.Is(err, fault) {
				c.Fail("writer fails after %d bytes with %q; WriteTo reports %v", limit, fault, err)
			}
			if w.failures() > 1 {
				c.Fail("WriteTo writes after the writer failed")
			}
			if n != int64(len(w.text())) {
				c.Fail("writer took %d bytes; WriteTo reports %d", len(w.text()), n)
			}
			if !strings.HasPrefix(want, w.text()) {
				c.Fail("writer got %q", w.text())
			}
			c.See("writer_faults", 1)
			if c.Failed() {
				return
			}
		}
		if len(want) > 1 {
			c.Distinct(name)
		}
	})
	// a stream over a caller's own function
	r.Each("own", r.Cases(3000, 30000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		c.NoteQ("input", text)
		ts := real(refText(text))
		calls := 0
		s := jargon.NewTokenStream(func() (*jargon.Token, error) {
			calls++
			if calls > len(ts) {
				return nil, nil
			}
			return ts[calls-1], nil
		})
		for i, t := range ts {
			if calls != i {
				c.Fail("%d tokens delivered, %d asked for", i, calls)
			}
			var got *jargon.Token
			if c.Rng.IntN(2) == 0 {
				got, _ = s.Next()
			} else if s.Scan() {
				got = s.Token()
			}
			if got != t {
				c.Fail("token %d is not the one which was supplied", i)
				return
			}
		}
		c.Distinct(text)
	})
}

//
// C08: views
//

func checkViews(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case applies Where (arbitrary predicates, whose calls are recorded), Words, Lemmas, Distinct and stacks of them to a token sequence (plain, HTML, filtered, or with arbitrary lemma marks), and compares the observed subsequence with the specification computed over the recorded input. Long cases use several hundred thousand distinct values. Non-trivial: at least two tokens; distinct by input and view.")

	r.Each("views", r.Cases(40000, 500000), func(c *mon.Case) {
		name, mk, n := anyPipeline(c, g)
		c.Note("input", name)
		in := mustDrain(c, mk(), n)
		var want, got []tok
		view := ""
		switch c.Rng.IntN(6) {
		case 0:
			view = "Words"
			want = wordsStage.ref(in)
			got = mustDrain(c, mk().Words(), n)
		case 1:
			view = "Lemmas"
			want = lemmasStage.ref(in)
			got = mustDrain(c, mk().Lemmas(), n)
		case 2:
			view = "Distinct"
			want = distinctStage.ref(in)
			got = mustDrain(c, mk().Distinct(), n)
		case 3, 4:
			salt := c.Rng.IntN(1000)
			kind := c.Rng.IntN(5)
			view = fmt.Sprintf("Where(%d,%d)", kind, salt)
			i := 0
			keep := func(t tok, i int) bool {
				switch kind {
				case 0:
					return false
				case 1:
					return true
				case 2:
					return (len(t.V)*7+salt)%3 == 0
				case 3:
					return (i*31+salt)%4 != 0
				default:
					return t.Punct || t.Lemma
				}
			}
			for j, t := range in {
				if keep(t, j) {
					want = append(want, t)
				}
			}
			var calls []tok
			got = mustDrain(c, mk().Where(func(t *jargon.Token) bool {
				calls = append(calls, see(t))
				i++
				return keep(see(t), i-1)
			}), n)
			if d := diff(in, calls); d != "" {
				c.Fail("the predicate is not asked exactly once per token, in order: %s", d)
			}
		case 5:
			view = "stack"
			want = in
			s := mk()
			for k := 1 + c.Rng.IntN(4); k > 0; k-- {
				st := mon.Pick(c.Rng, []stage{wordsStage, lemmasStage, distinctStage})
				view += " " + st.name
				want = st.ref(want)
				s = st.filter(s)
			}
			got = mustDrain(c, s, n)
		}
		c.Note("view", view)
		if d := diff(want, got); d != "" {
			c.Fail("%s: %s", view, d)
		}
		c.See("tokens_in", len(in))
		c.See("tokens_out", len(got))
		if len(in) > 1 {
			c.Distinct(name, view)
		}
		c.Sample(map[string]any{"input": name, "view": view, "in": len(in), "out": len(got)})
	})
	taking(r, g)
	// arbitrary sequences: repeated values with different marks, near-identical values
	values := []string{"a", "A", "a ", "á", "a\u0301", "b", " ", "\n", ".", "ab", "aa", "\xff", "\xfe", "ß", "ss", "0", "00", strings.Repeat("x", 300), strings.Repeat("x", 301)}
	r.Each("sequences", r.Cases(20000, 300000), func(c *mon.Case) {
		var in []tok
		values := values
		if c.Rng.IntN(3) == 0 {
			values = mon.Alphabet(c.Rng)
			for _, v := range values {
				values = append(values, v+values[0], "x"+v)
			}
		}
		for k := c.Rng.IntN(60); k > 0; k-- {
			in = append(in, classify(mon.Pick(c.Rng, values), c.Rng.IntN(3) == 0))
		}
		for _, st := range []stage{wordsStage, lemmasStage, distinctStage} {
			got := mustDrain(c, st.filter(source(real(in))), 100)
			c.Note("input", fmt.Sprint(in))
			if d := diff(st.ref(in), got); d != "" {
				c.Fail("%s: %s", st.name, d)
			}
			c.See("tokens_out", len(got))
		}
		c.Distinct(fmt.Sprint(in))
	})
	manyWords(r, "", wordsStage, lemmasStage, distinctStage)
	longRuns(r, func(rng *rand.Rand) stage {
		for {
			if st := anyStage(rng, g); rng.IntN(2) == 0 {
				return mon.Pick(rng, []stage{wordsStage, lemmasStage, distinctStage})
			} else if st.name == "where" {
				return st
			}
		}
	}, "a", "b", "A", ".", "é", "\t")
	r.Each("many", r.Cases(6, 24), func(c *mon.Case) {
		n := 100000 + c.Rng.IntN(r.Scale(300000, 1200000))
		var random []string
		if c.Index%3 == 2 {
			random = vocabulary(c.Rng, n)
		}
		want := make([]tok, 0, n)
		var in []*jargon.Token
		for i := 0; i < n; i++ {
			v := fmt.Sprintf("v%dx%d", i, c.Index)
			if c.Index%2 == 1 {
				v = fmt.Sprintf("%c%d", rune(0x4e00+i%2000), i/2000)
			}
			if random != nil {
				v = random[i]
			}
			t := jargon.NewToken(v, i%5 == 0)
			in = append(in, t)
			want = append(want, see(t))
			if i%3 == 0 {
				in = append(in, in[c.Rng.IntN(len(in))])
			}
		}
		in = append(in, in...)
		got := mustDrain(c, source(in).Distinct(), len(in))
		if d := diff(want, got); d != "" {
			c.Fail("Distinct over %d values: %s", n, d)
		}
		c.See("tokens_in", len(in))
		c.See("tokens_out", len(got))
		c.Distinct(fmt.Sprint(n, c.Index))
	})
}

//
// C26: independence
//

func checkIndependence(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case opens several streams over the same filter values (shipped and built) and steps them in a random interleaving, abandoning some midway and feeding one stream's tokens to another; each stream's observed history must equal the one it has alone. Every token object handed out or fed in is re-read at the end and must be unchanged. Non-trivial: at least two interleaved streams with tokens; distinct by inputs and schedule.")

	r.Each("interleaved", r.Cases(9000, 120000), func(c *mon.Case) {
		names, filters, ref := chain(c.Rng, g, 3)
		c.Note("filters", strings.Join(names, " | "))
		k := 2 + c.Rng.IntN(4)
		type st struct {
			text  string
			want  []tok
			s     *jargon.TokenStream
			got   []tok
			held  []*jargon.Token
			in    []*jargon.Token
			inWas []tok
			done  bool
			quit  int
		}
		var ss []*st
		var schedule []string
		same := c.Rng.IntN(3) == 0
		for i := 0; i < k; i++ {
			x := &st{text: g.Any(c.Rng), quit: -1}
			if same && i > 0 {
				x.text = ss[0].text
			}
			toks := refText(x.text)
			x.want = ref(toks)
			if c.Rng.IntN(5) == 0 {
				x.quit = c.Rng.IntN(len(x.want) + 1)
			}
			c.NoteQ(fmt.Sprintf("input %d", i), x.text)
			ss = append(ss, x)
		}
		open := func(x *st) {
			toks := refText(x.text)
			if c.Rng.IntN(2) == 0 {
				x.in = real(toks)
				x.inWas = seeAll(x.in)
				x.s = source(x.in).Filter(filters...)
			} else if c.Rng.IntN(3) == 0 {
				x.s = jargon.TokenizeString(x.text).Filter(filters...)
			} else {
				x.s = jargon.Tokenize(mon.RandomFeeder(c.Rng, g, x.text)).Filter(filters...)
			}
		}
		live := k
		for live > 0 && !c.Failed() {
			i := c.Rng.IntN(k)
			x := ss[i]
			if x.done {
				if x.s != nil && x.quit < 0 && c.Rng.IntN(2) == 0 {
					// asking again after the end
					schedule = append(schedule, fmt.Sprint(i, "!"))
					if t, err := x.s.Next(); t != nil || err != nil {
						c.Fail("stream %d: after the end, Next gives %s, %v", i, see(t), err)
					}
					c.See("asked_after_end", 1)
				}
				continue
			}
			schedule = append(schedule, fmt.Sprint(i))
			if x.s == nil {
				open(x)
				continue
			}
			for n := 1 + c.Rng.IntN(4); n > 0 && !x.done; n-- {
				if x.quit == len(x.got) {
					x.done = true
					live--
					c.See("abandoned", 1)
					break
				}
				t, err := x.s.Next()
				if err != nil {
					c.Fail("stream %d: %v", i, err)
					return
				}
				if t == nil {
					x.done = true
					live--
					break
				}
				x.held = append(x.held, t)
				x.got = append(x.got, see(t))
				c.See("tokens", 1)
				if len(x.got) > len(x.want) {
					break
				}
			}
			if len(x.got) > len(x.want) {
				break
			}
		}
		for i, x := range ss {
			if x.quit >= 0 && len(x.got) == x.quit {
				if !isPrefix(x.got, x.want) {
					c.Fail("stream %d: %s", i, diff(x.want[:min(len(x.got), len(x.want))], x.got))
				}
			} else if d := diff(x.want, x.got); d != "" {
				c.Fail("stream %d of %d interleaved ones differs from the same stream alone: %s", i, k, d)
			}
			if d := diff(x.got, seeAll(x.held)); d != "" {
				c.Fail("a token changed after it was handed out: %s", d)
			}
			if d := diff(x.inWas, seeAll(x.in)); d != "" {
				c.Fail("a filter changed its input: %s", d)
			}
			c.See("streams", 1)
		}
		c.Note("schedule", strings.Join(schedule, ""))
		c.Distinct(strings.Join(names, "|"), strings.Join(schedule, ""), ss[0].text)
		c.Sample(map[string]any{"filters": strings.Join(names, " | "), "streams": k, "schedule": fmt.Sprintf("%.100s", strings.Join(schedule, ""))})
	})
	// what callers do with their own data later on
	r.Each("callers", r.Cases(6000, 80000), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		ig = append([]rune(nil), ig...)
		model := newSynModel(m, ic, ig)
		if model.conflict {
			return
		}
		text := synText(c.Rng, g, m)
		c.Note("table", fmt.Sprintf("%q", m))
		c.NoteQ("input", text)
		want, _ := model.apply(refText(text))
		buf := []byte(text)
		s := jargon.Tokenize(bytes.NewReader(buf)).Filter(synonyms.NewFilter(m, ic, ig))
		var got []*jargon.Token
		for k := 1 + c.Rng.IntN(4); k > 0; k-- {
			if t, err := s.Next(); t != nil && err == nil {
				got = append(got, t)
			}
		}
		for _, k := range sortedKeys(m) {
			if c.Rng.IntN(2) == 0 {
				delete(m, k)
			} else {
				m[k] = "changed later"
			}
		}
		m["the"], m["a"] = "added later", "added later"
		for i := range ig {
			ig[i] = 'e'
		}
		rest, err := s.ToSlice()
		if err != nil {
			c.Fail("%v", err)
			return
		}
		got = append(got, rest...)
		was := seeAll(got)
		for i := range buf {
			buf[i] = '!'
		}
		for i := range rest {
			rest[i] = nil
		}
		if d := diff(want, was); d != "" {
			c.Fail("with the table changed after the stream was made: %s", d)
		}
		if d := diff(was, seeAll(got)); d != "" {
			c.Fail("tokens changed with the caller's buffer: %s", d)
		}
		c.See("tokens", len(got))
		if len(got) > 1 {
			c.Distinct(text)
		}
	})
	// the same filter value over and over, after successes, failures and abandoned streams
	r.Each("repeated", r.Cases(1500, 20000), func(c *mon.Case) {
		st := anyStage(c.Rng, g)
		c.Note("filter", st.name)
		n := 3 + c.Rng.IntN(12)
		var history []string
		for i := 0; i < n; i++ {
			text := g.Any(c.Rng)
			toks := refText(text)
			switch c.Rng.IntN(4) {
			case 0:
				// abandon
				s := source(real(toks)).Filter(st.filter)
				for k := c.Rng.IntN(len(toks) + 1); k > 0; k-- {
					s.Next()
				}
				history = append(history, "abandon")
			case 1:
				// fail
				_, err := faultySource(real(toks), c.Rng.IntN(len(toks)+1), errInjected, c.Rng.IntN(2) == 0).Filter(st.filter).Count()
				if !errors.Is(err, errInjected) {
					c.Fail("the injected failure is reported as %v", err)
				}
				history = append(history, "fail")
			default:
				c.NoteQ("input", text)
				got := mustDrain(c, source(real(toks)).Filter(st.filter), len(text))
				if d := diff(st.ref(toks), got); d != "" {
					c.Note("history", strings.Join(history, " "))
					c.Fail("use %d of the filter: %s", i, d)
					return
				}
				history = append(history, "use")
				c.See("streams", 1)
			}
		}
		c.Distinct(st.name, strings.Join(history, " "), fmt.Sprint(c.Index))
	})
	reentrant(r, g)
	kept(r, g)
	// a great many streams alive at once; earlier ones are finished after later ones were made
	r.Each("crowd", r.Cases(60, 700), func(c *mon.Case) {
		n := []int{40, 130, 300, 700, 1500, 3000, 5000}[c.Rng.IntN(7)]
		st := anyStage(c.Rng, g)
		how := c.Rng.IntN(5)
		if how == 4 {
			// tokenizers alone, which are cheaper
			n = []int{300, 3000, 9000, 20000, 70000}[c.Rng.IntN(5)]
		}
		c.Note("filter", st.name)
		c.Note("streams", fmt.Sprint(n, " source ", how))
		type text struct {
			text string
			toks []tok
			want []tok
		}
		var texts []text
		for i := 0; i < 7; i++ {
			t := g.Any(c.Rng)
			if len(t) > 400 {
				t = string([]rune(t)[:min(100, len([]rune(t)))])
			}
			x := text{text: t, toks: refText(t)}
			x.want = st.ref(x.toks)
			if how == 4 {
				x.want = x.toks
			}
			texts = append(texts, x)
		}
		type live struct {
			x    *text
			s    *jargon.TokenStream
			got  []tok
			held []*jargon.Token
			done bool
		}
		step := func(i int, l *live, k int) bool {
			for ; k > 0 && !l.done; k-- {
				t, err := l.s.Next()
				if err != nil {
					c.Fail("stream %d of %d: %v", i, n, err)
					return false
				}
				if t == nil {
					l.done = true
					break
				}
				l.got = append(l.got, see(t))
				l.held = append(l.held, t)
				if len(l.got) > len(l.x.want) {
					break
				}
			}
			if len(l.got) > len(l.x.want) {
				c.Fail("stream %d of %d gives more than the same stream alone: %s", i, n, diff(l.x.want, l.got))
				return false
			}
			return true
		}
		all := make([]*live, 0, n)
		for i := 0; i < n; i++ {
			x := &texts[c.Rng.IntN(len(texts))]
			l := &live{x: x}
			switch {
			case how == 4 && c.Rng.IntN(2) == 0:
				l.s = jargon.TokenizeString(x.text)
			case how == 4:
				l.s = jargon.Tokenize(strings.NewReader(x.text))
			case how == 0:
				l.s = jargon.TokenizeString(x.text).Filter(st.filter)
			default:
				l.s = source(real(x.toks)).Filter(st.filter)
			}
			all = append(all, l)
			if !step(i, l, c.Rng.IntN(3)) {
				return
			}
			if c.Rng.IntN(40) == 0 {
				j := c.Rng.IntN(len(all))
				if !step(j, all[j], 1+c.Rng.IntN(6)) {
					return
				}
			}
		}
		for _, i := range c.Rng.Perm(n) {
			l := all[i]
			if !step(i, l, len(l.x.want)+2) {
				return
			}
			if c.Rng.IntN(4) == 0 {
				if t, err := l.s.Next(); t != nil || err != nil {
					c.Fail("stream %d of %d: after the end, Next gives %s, %v", i, n, see(t), err)
					return
				}
			}
		}
		for i, l := range all {
			if d := diff(l.x.want, l.got); d != "" {
				c.NoteQ("input", l.x.text)
				c.Fail("stream %d of %d alive at once differs from the same stream alone: %s", i, n, d)
				return
			}
			if d := diff(l.got, seeAll(l.held)); d != "" {
				c.Fail("a token changed after it was handed out: %s", d)
				return
			}
		}
		c.See("streams", n)
		c.See("crowds", 1)
		c.Distinct(st.name, fmt.Sprint(n, how, c.Index))
	})
	// tokenizers side by side
	r.Each("tokenizers", r.Cases(3000, 30000), func(c *mon.Case) {
		k := 2 + c.Rng.IntN(3)
		var texts []string
		var ss []*jargon.TokenStream
		var want, got [][]tok
		for i := 0; i < k; i++ {
			if c.Rng.IntN(3) == 0 {
				doc := genHTML(c.Rng, g, 1+c.Rng.IntN(5))
				a := mustDrain(c, jargon.TokenizeHTML(strings.NewReader(doc)), len(doc))
				texts, want = append(texts, doc), append(want, a)
				ss = append(ss, jargon.TokenizeHTML(mon.RandomFeeder(c.Rng, g, doc)))
			} else {
				text := g.Any(c.Rng)
				texts, want = append(texts, text), append(want, refText(text))
				if c.Rng.IntN(3) == 0 {
					ss = append(ss, jargon.TokenizeString(text))
				} else {
					ss = append(ss, jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text)))
				}
			}
			c.NoteQ(fmt.Sprintf("input %d", i), texts[i])
		}
		got = make([][]tok, k)
		held := make([][]*jargon.Token, k)
		done := make([]bool, k)
		for left := k; left > 0; {
			i := c.Rng.IntN(k)
			if done[i] {
				// asking again after the end
				if t, err := ss[i].Next(); t != nil && err == nil && len(got[i]) <= len(want[i]) {
					c.Fail("tokenizer %d: after the end, Next gives %s", i, see(t))
				}
				continue
			}
			t, err := ss[i].Next()
			if err != nil || t == nil || len(got[i]) > len(want[i]) {
				done[i] = true
				left--
				continue
			}
			got[i] = append(got[i], see(t))
			held[i] = append(held[i], t)
		}
		for i := range got {
			if d := diff(want[i], got[i]); d != "" {
				c.Fail("tokenizer %d of %d: %s", i, k, d)
			}
			if d := diff(got[i], seeAll(held[i])); d != "" {
				c.Fail("a token changed after it was handed out: %s", d)
			}
			c.See("streams", 1)
		}
		c.Distinct(texts...)
	})
}

//
// C27: totality
//

func checkTotality(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case pushes a hostile input (raw bytes, mutated text and markup, pathological repetitions, every code point, very long words, very long runs of tokens) through a tokenizer and a random chain of filters to the end; panics, fatal errors of the process, runaway streams, empty or nil tokens, and failure to finish are violations. Non-trivial: non-empty input; distinct by input and pipeline.")
	r.Assume("termination is judged by a 240 s watchdog per case (cases take milliseconds) and by the number of tokens")

	run := func(c *mon.Case, text string, html bool, most int) {
		names, filters, _ := chain(c.Rng, g, most)
		c.NoteQ("input", text)
		c.Note("filters", strings.Join(names, " | "))
		c.Note("html", fmt.Sprint(html))
		f := mon.RandomFeeder(c.Rng, g, text)
		if len(text) > 3000 {
			coarse(f, min(longestWord(text), 70000))
		}
		var s *jargon.TokenStream
		if html {
			s = jargon.TokenizeHTML(f)
		} else {
			s = jargon.Tokenize(f)
		}
		s = s.Filter(filters...)
		limit := tooLong(len(text))
		n := 0
		for {
			t, err := s.Next()
			if err != nil {
				c.See("errors", 1)
				if longestWord(text) < wordLimit {
					c.Fail("an input without long words is refused: %v", err)
				}
				break
			}
			if t == nil {
				break
			}
			if t.String() == "" {
				c.Fail("empty token")
			}
			if n++; n > limit {
				c.Fail("runaway stream: %d tokens for %d bytes", n, len(text))
				break
			}
		}
		c.See("tokens", n)
		if text != "" {
			c.Distinct(text, strings.Join(names, "|"), fmt.Sprint(html))
		}
	}
	r.Each("texts", r.Cases(30000, 600000), func(c *mon.Case) {
		run(c, g.Any(c.Rng), c.Rng.IntN(4) == 0, 5)
		c.Sample("text")
	})
	r.Each("bytes", r.Cases(10000, 200000), func(c *mon.Case) {
		b := make([]byte, c.Rng.IntN(120))
		for i := range b {
			b[i] = byte(c.Rng.IntN(256))
		}
		run(c, string(b), c.Rng.IntN(2) == 0, 4)
	})
	r.Each("markup", r.Cases(10000, 200000), func(c *mon.Case) {
		run(c, g.Mutate(c.Rng, genHTML(c.Rng, g, 1+c.Rng.IntN(10))), c.Rng.IntN(4) != 0, 4)
	})
	r.Each("short", shortCount(r.Scale(2, 3)), func(c *mon.Case) {
		for k := 0; k < 8; k++ {
			run(c, shortText(c.Index), k%4 == 0, 2)
		}
	})
	all := append(shipped(), wordsStage, lemmasStage, distinctStage)
	blocks := assignedBlocks(r)
	r.Each("codepoints", len(blocks), func(c *mon.Case) {
		text := runeBlock(blocks[c.Index] * 3)
		c.NoteQ("input", text)
		for _, st := range all {
			c.Note("filter", st.name)
			mustDrain(c, jargon.TokenizeString(text).Filter(st.filter), len(text))
			c.See("tokens", 256)
		}
		c.Distinct(text)
	})
	r.Each("repetition", r.Cases(1500, 12000), func(c *mon.Case) {
		unit := mon.Pick(c.Rng, []string{"a", " ", ".", "@", "#", "'", "\u0301", "\u200d", "🇺", "<", "<a ", "&", "<!--", "</", "Ruby ", "on ", "don't", "@a", "#a ", "@@ ", "# # ", ", ", "ruby-on-", "a.", "\r", "\r\n", "\x00", "\xff", "é", "ß", "ейш", "s", "'s", "’", "<script>", "</script>", g.Word(c.Rng)})
		n := g.Len(c.Rng, 70000)
		if c.Rng.IntN(4) == 0 {
			n = 70000 + c.Rng.IntN(r.Scale(80000, 400000))
		}
		if most := r.Scale(120000, 2000000); len(unit)*n > most {
			n = most / len(unit)
		}
		run(c, strings.Repeat(unit, n)+mon.Pick(c.Rng, []string{"", "x", " end."}), c.Rng.IntN(3) == 0, 2)
	})
	// Stemmers and folders on long and odd words: the libraries beneath must not be driven into a panic
	r.Each("words", r.Cases(20000, 300000), func(c *mon.Case) {
		w := g.Word(c.Rng)
		if c.Rng.IntN(3) == 0 {
			w = mon.Recase(c.Rng, w) + g.Word(c.Rng)
		}
		if w == "" {
			return
		}
		c.NoteQ("word", w)
		in := []*jargon.Token{jargon.NewToken(w, c.Rng.IntN(2) == 0)}
		for _, st := range all {
			c.Note("filter", st.name)
			mustDrain(c, source(in).Filter(st.filter), len(w))
			c.See("tokens", 1)
		}
		c.Distinct(w)
	})
	// very long runs, which a recursive implementation does not survive: a goroutine may use no more than 16 MB of stack
	debug.SetMaxStack(16 << 20)
	units := [][]string{{" "}, {"zzz"}, {"."}, {"@"}, {"#"}, {"don't"}, {"ruby"}, {"Stephen", " "}, {"é"}, {"\n", "the"}, {"running", " "}, {"a", "b"}}
	long := append([]stage{}, all...)
	for _, ic := range []bool{false, true} {
		long = append(long, stage{"stopwords", stopwords.NewFilter([]string{" ", "zzz", ".", "the", "a", "\n"}, ic), nil},
			stage{"erasing synonyms", synonyms.NewFilter(map[string]string{"zzz, ruby, the": "", "a": ""}, ic, []rune{' '}), nil})
	}
	long = append(long, stage{"nothing", func(s *jargon.TokenStream) *jargon.TokenStream {
		return s.Where(func(*jargon.Token) bool { return false })
	}, nil}, stage{"mapper", mapper.NewFilter(upcase, suffix), nil})
	ways := []func(s *jargon.TokenStream) (int, error){
		(*jargon.TokenStream).Count,
		func(s *jargon.TokenStream) (int, error) { ts, err := s.ToSlice(); return len(ts), err },
		func(s *jargon.TokenStream) (int, error) { b, err := s.String(); return len(b), err },
		func(s *jargon.TokenStream) (int, error) { n, err := s.WriteTo(io.Discard); return int(n), err },
		func(s *jargon.TokenStream) (int, error) {
			for n := 0; ; n++ {
				if t, err := s.Next(); t == nil || err != nil {
					return n, err
				}
			}
		},
	}
	r.Each("runs", len(long)*len(units), func(c *mon.Case) {
		st := long[c.Index/len(units)]
		unit := units[c.Index%len(units)]
		c.Note("filter", st.name)
		c.Note("tokens", fmt.Sprintf("%q", unit))
		n := r.Scale(300000, 3000000)
		ts := make([]*jargon.Token, len(unit))
		for i, v := range unit {
			ts[i] = jargon.NewToken(v, c.Rng.IntN(4) == 0)
		}
		i := 0
		k, err := ways[c.Index%len(ways)](jargon.NewTokenStream(func() (*jargon.Token, error) {
			if i >= n {
				return nil, nil
			}
			i++
			return ts[i%len(ts)], nil
		}).Filter(st.filter))
		if err != nil || k > 20*n {
			c.Fail("%d from %d tokens, %v", k, n, err)
		}
		c.See("tokens", n)
		c.Distinct(st.name, strings.Join(unit, "|"))
	})
	// the same of markup
	markup := []string{"<p>", "</p>", "<!-- -->", "<br/>", "&amp;", "<script></script>", "<style>x</style>", "x", " ", "<p></p>", "</script>", "<!>", "<", "<script>", "<title></title>"}
	r.Each("markup runs", len(markup), func(c *mon.Case) {
		unit := markup[c.Index]
		c.NoteQ("markup", unit)
		n := r.Scale(300000, 2000000)
		if len(unit) == 1 {
			n = 60000
		}
		got, err := jargon.TokenizeHTML(strings.NewReader(strings.Repeat(unit, n))).Count()
		if err != nil || got > 3*n {
			c.Fail("%d tokens from %d units, %v", got, n, err)
		}
		c.See("tokens", got)
		c.Distinct("markup", unit)
	})
}
