package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"strings"
	"syscall"

	"github.com/clipperhouse/jargon"
	"golang.org/x/net/html"
	"verif/mon"
)

var errInjected = errors.New("injected: disk on fire")

type timeoutError struct{}

func (timeoutError) Error() string   { return "injected: i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var faults = []error{errInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, timeoutError{}, context.Canceled, bufio.ErrTooLong, io.ErrNoProgress, &wrapped{errInjected}, bufio.ErrFinalToken,
	// an end of file which is not io.EOF itself is a failure: the io package requires EOF unwrapped
	&wrapped{io.EOF}, &fs.PathError{Op: "read", Path: "x", Err: syscall.EIO},
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, syscall.EPIPE, syscall.EAGAIN, syscall.EINTR,
	os.ErrClosed, net.ErrClosed, os.ErrDeadlineExceeded, context.DeadlineExceeded, io.ErrShortWrite, io.ErrShortBuffer,
	http.ErrBodyReadAfterClose, http.ErrHandlerTimeout, html.ErrBufferExceeded, errEmpty, bufio.ErrNegativeAdvance, bufio.ErrAdvanceTooFar, bufio.ErrBadReadCount, os.ErrNotExist,
}

var errEmpty = errors.New("")

type wrapped struct{ err error }

func (w *wrapped) Error() string { return "wrapped: " + w.err.Error() }
func (w *wrapped) Unwrap() error { return w.err }

// outcome is everything which a consumer reports.
type outcome struct {
	how    string
	tokens []tok  // if the consumer exposes tokens
	text   string // if it exposes text only
	isText bool
	none   bool // exposes neither
	err    error
}

const consumers = 7

// consumeWith drains a stream in the given way.
func consumeWith(c *mon.Case, k int, s *jargon.TokenStream, limit int) (o outcome) {
	switch k {
	case 0:
		o.how = "Next"
		var runaway bool
		o.tokens, o.err, runaway = drain(s, limit)
		if runaway {
			c.Fail("stream does not end")
			c.Abort()
		}
	case 1:
		o.how = "Scan"
		for s.Scan() {
			if s.Err() != nil {
				c.Fail("Scan succeeds, but Err is %v", s.Err())
			}
			o.tokens = append(o.tokens, see(s.Token()))
			if len(o.tokens) > limit {
				c.Fail("stream does not end")
				c.Abort()
			}
		}
		o.err = s.Err()
		if o.err == nil && s.Scan() {
			c.Fail("Scan succeeds after the end")
		}
	case 2:
		o.how = "ToSlice"
		ts, err := s.ToSlice()
		o.err = err
		if err == nil {
			o.tokens = seeAll(ts)
		} else {
			o.none = true
		}
	case 3:
		o.how = "String"
		text, err := s.String()
		o.err, o.text, o.isText = err, text, true
		if err != nil {
			o.none = true
		}
	case 4:
		o.how = "WriteTo"
		w := anySink(c.Rng, 1<<40, nil)
		n, err := s.WriteTo(w)
		o.err, o.text, o.isText = err, w.text(), true
		if n != int64(len(o.text)) {
			c.Fail("WriteTo reports %d bytes, wrote %d", n, len(o.text))
		}
	case 5:
		o.how = "Count"
		_, o.err = s.Count()
		o.none = true
	case 6:
		o.how = "Where"
		o.tokens, o.err, _ = drain(s.Where(func(*jargon.Token) bool { return true }), limit)
	}
	return o
}

func isPrefix(p, s []tok) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if p[i] != s[i] {
			return false
		}
	}
	return true
}

// judge decides an outcome of a run in which fault was injected. Any of the sequences in full
// (the output without the fault, the output of what was delivered) must start with what was observed.
func judge(c *mon.Case, o outcome, fault error, full ...[]tok) {
	c.Note("consumer", o.how)
	c.See("faults_"+o.how, 1)
	if o.err == nil {
		c.Fail("the failure %q is reported as a clean end", fault)
		return
	}
	if !errors.Is(o.err, fault) {
		c.Fail("the failure is %q, the stream reports %q", fault, o.err)
		return
	}
	if o.none {
		return
	}
	for _, f := range full {
		if o.isText && strings.HasPrefix(concat(f), o.text) || !o.isText && isPrefix(o.tokens, f) {
			return
		}
	}
	if o.isText {
		c.Fail("output before the failure is not a prefix: %s", textDiff(concat(full[0]), o.text))
	} else {
		c.Fail("output before the failure is not a prefix: %s", diff(full[0][:min(len(full[0]), len(o.tokens))], o.tokens))
	}
}

// onceReader delivers its error once, and then a clean end.
type onceReader struct {
	*mon.Feeder
}

func (o onceReader) Read(p []byte) (int, error) {
	if o.Feeder.Ended > 0 {
		return 0, io.EOF
	}
	return o.Feeder.Read(p)
}

func checkErrors(r *mon.Run, g *mon.Gen) {
	r.Rule("Fault enumeration: for each generated text, the reader fails at every byte offset (with and without data in the failing read, persistently or once), and for each filter, view and chain the incoming stream fails at every token position; every consuming method is applied. The oracle requires the injected error itself at the end and, before it, only a prefix of the fault-free output; the plain tokenizer must first deliver everything that was read. Non-trivial: every case injects a fault; distinct by input, position, pipeline and consumer.")

	faulty := func(c *mon.Case, data string, at int) (io.Reader, *mon.Feeder, error) {
		fault := mon.Pick(c.Rng, faults)
		for fault == bufio.ErrFinalToken || fault == bufio.ErrTooLong {
			fault = mon.Pick(c.Rng, faults)
		}
		f := mon.RandomFeeder(c.Rng, g, data[:at])
		f.Final = fault
		f.WithData = c.Rng.IntN(2) == 0
		c.Note("reader", f.Chunking())
		if c.Rng.IntN(4) == 0 {
			return onceReader{f}, f, fault
		}
		switch c.Rng.IntN(10) {
		case 0, 1:
			return &talkative{f, mon.Pick(c.Rng, []string{"", "gone"})}, f, fault
		case 2:
			return io.TeeReader(f, io.Discard), f, fault
		case 3:
			return io.MultiReader(strings.NewReader(""), f), f, fault
		case 4:
			return bufio.NewReaderSize(f, 16<<c.Rng.IntN(13)), f, fault
		}
		return f, f, fault
	}
	plain := func(c *mon.Case, text string, at int, k int) {
		c.NoteQ("input", text)
		c.Note("fails at", fmt.Sprint(at))
		rd, f, fault := faulty(c, text, at)
		o := consumeWith(c, k, jargon.Tokenize(rd), tooLong(len(text)))
		delivered := refText(text[:f.Delivered()])
		judge(c, o, fault, delivered)
		if !o.none && !c.Failed() {
			got := o.text
			if !o.isText {
				got = concat(o.tokens)
			}
			if got != text[:f.Delivered()] {
				c.Fail("bytes delivered before the failure are lost: %s", textDiff(text[:f.Delivered()], got))
			}
		}
		c.Distinct(text, fmt.Sprint(at), o.how, f.Chunking())
	}
	r.Each("reader", r.Cases(3000, 40000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		if len(text) > 100 {
			text = text[:100]
		}
		for at := 0; at <= len(text); at++ {
			plain(c, text, at, c.Rng.IntN(consumers))
			if c.Failed() {
				return
			}
		}
		c.Sample(map[string]any{"text": fmt.Sprintf("%q", text), "offsets": len(text) + 1})
	})
	r.Each("reader-big", r.Cases(400, 4000), func(c *mon.Case) {
		text := g.Big(c.Rng, 1000+c.Rng.IntN(200000))
		if longestWord(text) > wordLimit {
			return
		}
		at := c.Rng.IntN(len(text) + 1)
		if c.Rng.IntN(2) == 0 {
			at = min(len(text), 4096*(1+c.Rng.IntN(20))+c.Rng.IntN(3)-1)
		}
		plain(c, text, at, c.Rng.IntN(consumers))
	})
	markup := func(c *mon.Case, doc string, at int, k int) {
		c.NoteQ("input", doc)
		c.Note("fails at", fmt.Sprint(at))
		rd, f, fault := faulty(c, doc, at)
		o := consumeWith(c, k, jargon.TokenizeHTML(rd), tooLong(len(doc)))
		delivered, alt := refHTML(doc[:f.Delivered()])
		full, fullAlt := refHTML(doc)
		judge(c, o, fault, delivered, alt, full, fullAlt)
		c.Distinct(doc, fmt.Sprint(at), o.how, f.Chunking())
	}
	r.Each("html", r.Cases(2500, 30000), func(c *mon.Case) {
		doc := genHTML(c.Rng, g, 1+c.Rng.IntN(5))
		if len(doc) > 120 {
			doc = doc[:120]
		}
		for at := 0; at <= len(doc); at++ {
			markup(c, doc, at, c.Rng.IntN(consumers))
			if c.Failed() {
				return
			}
		}
	})
	r.Each("html-big", r.Cases(300, 3000), func(c *mon.Case) {
		doc := genHTML(c.Rng, g, 200)
		if longestWord(doc) > wordLimit || len(doc) > 200000 {
			return
		}
		markup(c, doc, c.Rng.IntN(len(doc)+1), c.Rng.IntN(consumers))
	})

	// every filter and view, failing at every token
	singles := append(shipped(), wordsStage, lemmasStage, distinctStage)
	r.Each("filters", r.Cases(6000, 80000), func(c *mon.Case) {
		var names []string
		var filters []jargon.Filter
		var ref func([]tok) []tok
		var text string
		switch k := c.Rng.IntN(8); {
		case k < 4:
			s := singles[c.Index%len(singles)]
			names, filters, ref = []string{s.name}, []jargon.Filter{s.filter}, s.ref
			text = g.Any(c.Rng)
		case k < 6:
			m, ic, ig := randomSynonyms(c.Rng, g)
			s := built(c.Rng, g)
			if model := newSynModel(m, ic, ig); !model.conflict {
				s = synStage(m, ic, ig, model)
				text = synText(c.Rng, g, m)
			} else {
				text = g.Any(c.Rng)
			}
			names, filters, ref = []string{s.name}, []jargon.Filter{s.filter}, s.ref
		default:
			names, filters, ref = chain(c.Rng, g, 3)
			text = g.Any(c.Rng)
		}
		if len(text) > 200 {
			text = text[:200]
		}
		ts := refText(text)
		if c.Rng.IntN(3) == 0 {
			for i := range ts {
				ts[i].Lemma = c.Rng.IntN(3) == 0
			}
		}
		if len(ts) > 60 {
			ts = ts[:60]
		}
		in := real(ts)
		full := ref(ts)
		c.NoteQ("input", concat(ts))
		c.Note("filters", strings.Join(names, " | "))
		for at := 0; at <= len(ts); at++ {
			fault := mon.Pick(c.Rng, faults)
			c.Note("fails at token", fmt.Sprint(at))
			c.Note("fault", fault.Error())
			once := c.Rng.IntN(2) == 0
			c.Note("once", fmt.Sprint(once))
			k := c.Rng.IntN(consumers)
			o := consumeWith(c, k, faultySource(in, at, fault, once).Filter(filters...), tooLong(len(text)))
			judge(c, o, fault, full, ref(ts[:at]))
			c.Distinct(text, fmt.Sprint(at), strings.Join(names, "|"), o.how)
			if c.Failed() {
				return
			}
		}
		c.Sample(map[string]any{"tokens": len(ts), "filters": strings.Join(names, " | ")})
	})
	// reader failure seen through filters
	r.Each("pipelines", r.Cases(6000, 60000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		names, filters, ref := chain(c.Rng, g, 3)
		at := c.Rng.IntN(len(text) + 1)
		c.NoteQ("input", text)
		c.Note("filters", strings.Join(names, " | "))
		c.Note("fails at", fmt.Sprint(at))
		rd, f, fault := faulty(c, text, at)
		o := consumeWith(c, c.Rng.IntN(consumers), jargon.Tokenize(rd).Filter(filters...), tooLong(len(text)))
		in := refText(text[:f.Delivered()])
		judge(c, o, fault, ref(in))
		c.Distinct(text, fmt.Sprint(at), strings.Join(names, "|"), o.how)
	})
	// a word which is too long is an error of the stream, not a truncated text, through any filter
	r.Each("too-long", r.Cases(300, 3000), func(c *mon.Case) {
		names, filters, _ := chain(c.Rng, g, 2)
		c.Note("filters", strings.Join(names, " | "))
		n := 70000 + c.Rng.IntN(100000)
		text := g.Text(c.Rng, c.Rng.IntN(20)) + " " + strings.Repeat("a", n) + " " + g.Text(c.Rng, c.Rng.IntN(20))
		f := mon.RandomFeeder(c.Rng, g, text)
		coarse(f, n)
		s := jargon.Tokenize(f)
		if c.Rng.IntN(3) == 0 {
			s = jargon.TokenizeHTML(strings.NewReader("<p>" + text + "</p>"))
		}
		raw := c.Rng.IntN(3) == 0
		if !raw {
			s = s.Filter(filters...)
		}
		o := consumeWith(c, c.Rng.IntN(consumers), s, tooLong(len(text)))
		c.Note("consumer", o.how)
		// either refused, or handled in full: never a silent loss
		if o.err == nil && raw && !o.none {
			got := o.text
			if !o.isText {
				got = concat(o.tokens)
			}
			if strings.Count(got, "a") < n {
				c.Fail("a word of %d bytes is neither tokenized nor refused", n)
			}
		}
		if o.err != nil {
			c.See("refused", 1)
		}
		c.Distinct(text, o.how)
	})
}
