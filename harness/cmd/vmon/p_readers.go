package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"testing/iotest"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"verif/mon"
)

//
// Readers, and callbacks, of all kinds.
//

// talkative is a reader which has every method that invites a shortcut. All of them are right in
// their own terms: Len and Buffered tell what is at hand without waiting, Size includes what is gone.
type talkative struct {
	*mon.Feeder
	gone string
}

func (t *talkative) Len() int      { return len(t.next()) }
func (t *talkative) Buffered() int { return len(t.next()) }
func (t *talkative) Size() int64   { return int64(len(t.gone) + len(t.Data)) }
func (t *talkative) String() string {
	return t.gone + t.Data
}
func (t *talkative) next() string {
	rest := t.Data[t.Delivered():]
	return rest[:min(len(rest), 10)]
}
func (t *talkative) Seek(offset int64, whence int) (int64, error) {
	return 0, errors.New("this reader does not seek")
}
func (t *talkative) ReadAt(p []byte, at int64) (int, error) {
	all := t.gone + t.Data
	if at >= int64(len(all)) {
		return 0, io.EOF
	}
	n := copy(p, all[at:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (t *talkative) Close() error { return nil }

// anyReader is a reader of some kind which delivers the text. after is to be called when done with it.
func anyReader(c *mon.Case, g *mon.Gen, text string) (r io.Reader, kind string, after func()) {
	rng := c.Rng
	after = func() {}
	pre := mon.Pick(rng, []string{"", "x", "a b ", "<p>", "\xff", strings.Repeat("read already ", 1+rng.IntN(500))})
	feeder := func(s string) *mon.Feeder {
		f := mon.RandomFeeder(rng, g, s)
		coarse(f, len(s)/50)
		return f
	}
	skip := func(r io.Reader) {
		// by reading
		if _, err := io.ReadFull(r, make([]byte, len(pre))); err != nil {
			c.Internal("%v", err)
		}
	}
	switch k := rng.IntN(17); k {
	case 0, 1:
		s := strings.NewReader(pre + text)
		if rng.IntN(2) == 0 {
			s.Seek(int64(len(pre)), io.SeekStart)
		} else {
			skip(s)
		}
		return s, "strings.Reader", after
	case 2:
		b := bytes.NewReader([]byte(pre + text))
		skip(b)
		return b, "bytes.Reader", after
	case 3:
		b := bytes.NewBufferString(pre + text)
		skip(b)
		return b, "bytes.Buffer", after
	case 4, 5:
		b := bufio.NewReaderSize(feeder(pre+text), 16<<rng.IntN(14))
		skip(b)
		if rng.IntN(2) == 0 {
			b.Peek(rng.IntN(200))
		}
		return b, "bufio.Reader", after
	case 6:
		p := filepath.Join(scratch(c), "text")
		if err := os.WriteFile(p, []byte(pre+text), 0o644); err != nil {
			c.Internal("%v", err)
			return feeder(text), "feeder", after
		}
		f, err := os.Open(p)
		if err != nil {
			c.Internal("%v", err)
			return feeder(text), "feeder", after
		}
		skip(f)
		return f, "os.File", func() { f.Close(); os.RemoveAll(filepath.Dir(p)) }
	case 7:
		post := mon.Pick(rng, []string{"", "more", " b"})
		return io.NewSectionReader(strings.NewReader(pre+text+post), int64(len(pre)), int64(len(text))), "io.SectionReader", after
	case 8:
		return io.LimitReader(feeder(text+"and more"), int64(len(text))), "io.LimitedReader", after
	case 9:
		var rs []io.Reader
		for rest := text; ; {
			n := rng.IntN(len(rest) + 1)
			if len(rs) > 5 {
				n = len(rest)
			}
			rs = append(rs, strings.NewReader(rest[:n]))
			if rest = rest[n:]; rest == "" {
				break
			}
		}
		return io.MultiReader(rs...), fmt.Sprintf("io.MultiReader of %d", len(rs)), after
	case 10:
		return io.TeeReader(feeder(text), io.Discard), "io.TeeReader", after
	case 11:
		pr, pw := io.Pipe()
		sizes := []int{1 + rng.IntN(1+max(10, len(text)/20)), 1 + rng.IntN(1+max(10, len(text)/20))}
		go func() {
			rest := text
			for i := 0; rest != ""; i++ {
				n := min(len(rest), sizes[i%2])
				if _, err := io.WriteString(pw, rest[:n]); err != nil {
					return
				}
				rest = rest[n:]
			}
			pw.Close()
		}()
		return pr, "io.PipeReader", func() { pr.Close() }
	case 12:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		io.WriteString(z, text)
		z.Close()
		zr, err := gzip.NewReader(&b)
		if err != nil {
			c.Internal("%v", err)
			return feeder(text), "feeder", after
		}
		return zr, "gzip.Reader", after
	case 13:
		wrap := mon.Pick(rng, []func(io.Reader) io.Reader{iotest.OneByteReader, iotest.HalfReader, iotest.DataErrReader})
		return wrap(strings.NewReader(text)), "iotest", after
	case 14:
		a, b := net.Pipe()
		go func() {
			io.WriteString(a, text)
			a.Close()
		}()
		return b, "net.Conn", func() { a.Close(); b.Close() }
	default:
		return &talkative{feeder(text), pre}, "a reader with many methods", after
	}
}

// readerKinds compares what comes of texts through readers of all kinds. ref is nil if more than one result is right.
func readerKinds(r *mon.Run, g *mon.Gen, tokenize func(io.Reader) *jargon.TokenStream, text func(c *mon.Case) string, ref func(string) []tok) {
	r.Each("readers", r.Cases(6000, 80000), func(c *mon.Case) {
		text := text(c)
		if longestWord(text) > 60000 {
			return
		}
		want := ref(text)
		if want == nil && text != "" {
			return
		}
		rd, kind, after := anyReader(c, g, text)
		defer after()
		c.Note("reader", kind)
		c.NoteQ("input", text)
		got, err, runaway := drain(tokenize(rd), tooLong(len(text)))
		if err != nil || runaway {
			c.Fail("%s: %d tokens, then %v", kind, len(got), err)
			return
		}
		if d := diff(want, got); d != "" {
			c.Fail("%s: %s", kind, d)
		}
		c.See("readers", 1)
		c.Distinct(kind, text)
	})
	// a buffer to which more is added after the stream was made, and before it is used
	r.Each("growing", r.Cases(300, 4000), func(c *mon.Case) {
		a, b := text(c), text(c)
		b = strings.Repeat(b+" ", 1+c.Rng.IntN(1+20000/(len(b)+1)))
		if longestWord(a+b) > 60000 {
			return
		}
		want := ref(a + b)
		if want == nil {
			return
		}
		c.NoteQ("at first", a)
		c.NoteQ("added", b)
		buf := bytes.NewBufferString(a)
		s := tokenize(buf)
		buf.WriteString(b)
		got := mustDrain(c, s, len(a)+len(b))
		if d := diff(want, got); d != "" {
			c.Fail("a bytes.Buffer which has grown from %d to %d bytes: %s", len(a), len(a)+len(b), d)
		}
		c.See("readers", 1)
		c.Distinct(a, b)
	})
}

// callbackStages are filters which call functions of their maker; each call goes through hook.
func callbackStages(hook *func()) []stage {
	call := func() {
		if f := *hook; f != nil {
			f()
		}
	}
	return []stage{
		{"mapper of functions", mapper.NewFilter(func(t *jargon.Token) *jargon.Token { call(); return upcase(t) }, func(t *jargon.Token) *jargon.Token { call(); return suffix(t) }), refUpcaseSuffix},
		{"mapper of a function", mapper.NewFilter(func(t *jargon.Token) *jargon.Token { call(); return upcase(t) }), func(in []tok) []tok {
			out, _ := refMap(in, func(t tok) string { return strings.ToUpper(t.V) })
			return out
		}},
		{"sigil with a function", sigil.NewFilter("@", func(s string) bool { call(); return refHandle(s) }), func(in []tok) []tok { out, _ := refSigil(in, "@", refHandle); return out }},
		{"where with a function", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { call(); return !t.IsPunct() })
		}, func(in []tok) []tok { return select_(in, func(t tok) bool { return !t.Punct }) }},
	}
}

// hung is set by the first thing which didn't end; the rest of a phase would only take long.
type hung struct{ atomic.Bool }

// within runs f, which must come to an end, in a goroutine of its own; what it returns is a complaint.
func (h *hung) within(f func() string) string {
	if h.Load() {
		return ""
	}
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v", e)
			}
		}()
		done <- f()
	}()
	select {
	case s := <-done:
		return s
	case <-time.After(40 * time.Second):
		h.Store(true)
		return "nothing happens for 40 s"
	}
}

const sigilled = "@bob said: don't @ me, @alice! Ruby on Rails is running. Luka Dončić café "

// reentrant uses a filter within itself: from its upstream, and from functions it calls. And it panics
// in such places, after which other streams of the filter have to work.
func reentrant(r *mon.Run, g *mon.Gen) {
	var h hung
	r.Each("reentrant", r.Cases(3000, 40000), func(c *mon.Case) {
		if h.Load() {
			return
		}
		var hook func()
		var st stage
		called := false
		if c.Rng.IntN(2) == 0 {
			st = mon.Pick(c.Rng, callbackStages(&hook))
			called = true
		} else {
			st = anyStage(c.Rng, g)
		}
		c.Note("filter", st.name)
		outer, inner := g.Any(c.Rng), g.Any(c.Rng)
		outer, inner = sigilled+outer[:min(len(outer), 300)], sigilled+inner[:min(len(inner), 100)]
		toks, innerToks := refText(outer), refText(inner)
		want, innerWant := st.ref(toks), st.ref(innerToks)
		at := c.Rng.IntN(len(toks))
		if c.Rng.IntN(2) == 0 {
			at = c.Rng.IntN(min(len(toks), 4))
		}
		fromCallback := called && c.Rng.IntN(3) > 0
		asText := c.Rng.IntN(3) == 0
		again := 1 + c.Rng.IntN(3)
		use := func() string {
			in := source(real(innerToks))
			if asText {
				in = jargon.TokenizeString(inner)
			}
			got, err, runaway := drain(in.Filter(st.filter), tooLong(len(inner)))
			if err != nil || runaway {
				return fmt.Sprint(len(got), " tokens, then ", err)
			}
			return diff(innerWant, got)
		}
		run := func(event func() string) (complaint string, got []tok, err error) {
			n := 0
			in := real(toks)
			maybe := func() {
				n++
				if n-1 >= at && n-1 < at+again {
					was := hook
					hook = nil
					defer func() { hook = was }()
					if s := event(); s != "" && complaint == "" {
						complaint = s
					}
				}
			}
			i := 0
			s := jargon.NewTokenStream(func() (*jargon.Token, error) {
				if !fromCallback {
					maybe()
				}
				if i == len(in) {
					return nil, nil
				}
				i++
				return in[i-1], nil
			}).Filter(st.filter)
			if fromCallback {
				hook = maybe
			}
			got, err, _ = drain(s, tooLong(len(toks)))
			hook = nil
			return
		}
		if c.Rng.IntN(2) == 0 {
			c.Note("what", "used within itself")
			if s := h.within(func() string {
				complaint, got, err := run(use)
				if complaint != "" {
					return "the inner stream: " + complaint
				}
				if err != nil {
					return err.Error()
				}
				if d := diff(want, got); d != "" {
					return "the outer stream: " + d
				}
				return ""
			}); s != "" {
				c.NoteQ("input", outer)
				c.Fail("%s, used within itself (by a function: %v): %s", st.name, fromCallback, s)
			}
			c.See("reentrant_uses", 1)
		} else {
			c.Note("what", "used after a panic")
			if s := h.within(func() string {
				func() {
					defer func() { recover() }()
					run(func() string { panic("injected") })
				}()
				hook = nil
				for i := 0; i < 2; i++ {
					if s := use(); s != "" {
						return s
					}
				}
				return ""
			}); s != "" {
				c.NoteQ("input", inner)
				c.Fail("%s, after a panic in its upstream or a function (%v): %s", st.name, fromCallback, s)
			}
			c.See("panics", 1)
		}
		c.Distinct(st.name, outer, inner, fmt.Sprint(at, fromCallback))
	})
}

// blocked lets one goroutine wait in the middle of its stream (in the reader, the upstream, a function
// which the filter calls, or the writer), while others use the same filter and tokenizer to the end.
func blocked(r *mon.Run, g *mon.Gen) {
	var h hung
	r.Each("blocked", r.Cases(2000, 20000), func(c *mon.Case) {
		if h.Load() {
			return
		}
		var hook atomic.Pointer[func()]
		call := func() {
			if f := hook.Load(); f != nil {
				(*f)()
			}
		}
		var st stage
		where := mon.Pick(c.Rng, []string{"reader", "reader", "upstream", "upstream", "function", "writer", "html"})
		if where == "function" {
			st = mon.Pick(c.Rng, callbackStages(&call))
		} else {
			st = anyStage(c.Rng, g)
		}
		c.Note("filter", st.name)
		c.Note("waiting in", where)
		outer, inner := g.Any(c.Rng), g.Any(c.Rng)
		outer, inner = sigilled+outer[:min(len(outer), 300)], sigilled+inner[:min(len(inner), 100)]
		toks, innerToks := refText(outer), refText(inner)
		want, innerWant := st.ref(toks), st.ref(innerToks)
		if _, alt := refHTML(inner + outer); alt != nil {
			return // more than one result is right
		}
		if where == "html" {
			toks, _ = refHTML(outer)
			want = st.ref(toks)
		}
		reached, release := make(chan bool, 1), make(chan bool)
		var n atomic.Int64
		at := int64(c.Rng.IntN(5))
		wait := func() {
			if n.Add(1)-1 == at {
				reached <- true
				<-release
			}
		}
		type result struct {
			got  []tok
			text string
			err  error
		}
		finished := make(chan result, 1)
		sizes := []int{1 + c.Rng.IntN(20), 1 + c.Rng.IntN(200)}
		go func() {
			var s *jargon.TokenStream
			reader := func() io.Reader { return &waiting{&mon.Feeder{Data: outer, Chunks: sizes}, wait} }
			switch where {
			case "reader":
				s = jargon.Tokenize(reader())
			case "html":
				s = jargon.TokenizeHTML(reader())
			case "upstream":
				in := source(real(toks))
				s = jargon.NewTokenStream(func() (*jargon.Token, error) {
					wait()
					return in.Next()
				})
			default:
				s = source(real(toks))
			}
			if where == "function" {
				hook.Store(&wait)
			}
			s = s.Filter(st.filter)
			var res result
			if where == "writer" {
				var b strings.Builder
				_, res.err = s.WriteTo(writerFunc(func(p []byte) (int, error) {
					wait()
					return b.Write(p)
				}))
				res.text = b.String()
			} else {
				res.got, res.err, _ = drain(s, tooLong(len(toks)))
			}
			finished <- res
		}()
		var res result
		ended := false
		select {
		case <-reached:
		case res = <-finished:
			// it never waited
			ended = true
		case <-time.After(60 * time.Second):
			h.Store(true)
			c.Fail("%s: a stream makes no progress", st.name)
			close(release)
			return
		}
		if !ended {
			if s := h.within(func() string {
				for i := 0; i < 3; i++ {
					var s *jargon.TokenStream
					want := innerWant
					switch i {
					case 0:
						s = source(real(innerToks))
					case 1:
						s = jargon.TokenizeString(inner)
					case 2:
						toks, _ := refHTML(inner)
						want = st.ref(toks)
						s = jargon.TokenizeHTML(strings.NewReader(inner))
					}
					got, err, runaway := drain(s.Filter(st.filter), tooLong(len(inner)))
					if err != nil || runaway {
						return fmt.Sprint(len(got), " tokens, then ", err)
					}
					if d := diff(want, got); d != "" {
						return d
					}
				}
				return ""
			}); s != "" {
				c.NoteQ("input", inner)
				c.Fail("%s, while another stream waits in its %s: %s", st.name, where, s)
			}
			c.See("waited", 1)
			close(release)
			select {
			case res = <-finished:
			case <-time.After(60 * time.Second):
				h.Store(true)
				c.Fail("%s: a stream does not go on after waiting in its %s", st.name, where)
				return
			}
		}
		if res.err != nil {
			c.Fail("%s: %v", st.name, res.err)
		} else if where == "writer" {
			if res.text != concat(want) {
				c.Fail("%s: %s", st.name, textDiff(concat(want), res.text))
			}
		} else if d := diff(want, res.got); d != "" {
			c.NoteQ("input", outer)
			c.Fail("%s, which waited in its %s: %s", st.name, where, d)
		}
		c.See("streams", 2)
		c.Distinct(st.name, where, outer, inner, fmt.Sprint(at))
	})
}

// waiting calls wait before each read.
type waiting struct {
	r    io.Reader
	wait func()
}

func (w *waiting) Read(p []byte) (int, error) {
	w.wait()
	return w.r.Read(p)
}

type writerFunc func(p []byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }
