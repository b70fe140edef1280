package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"testing/iotest"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"verif/mon"
)

//
// C06: what adds up over many tokens, or over many streams
//

// dense are inputs of a great many short tokens, of which any kind may be what something is remembered about.
var dense = []func(i int) string{
	func(i int) string { return "\n" },
	func(i int) string { return "a\n" },
	func(i int) string { return "don't @a #b, Ruby. é\r\n" },
	func(i int) string { return ". \t" },
	func(i int) string { return "été runs nfs " },
}

var denseHTML = []func(i int) string{
	func(i int) string { return "<b>" },
	func(i int) string { return "\n<p>a" },
	func(i int) string { return "<!-- --><script>x</script>&amp;" },
}

func denseMemory(r *mon.Run, stages []stage) {
	size := r.Scale(3<<20, 10<<20)
	r.Serial("dense", 2*len(dense)+len(denseHTML)+len(stages), func(c *mon.Case) {
		e := &endless{size: size}
		var s *jargon.TokenStream
		name := "plain"
		switch i := c.Index; {
		case i < len(dense):
			e.unit = dense[i]
			s = jargon.Tokenize(e)
		case i < 2*len(dense):
			// with everything a caller may do in between
			e.unit = dense[i-len(dense)]
			s = jargon.Tokenize(e).Where(func(t *jargon.Token) bool { return len(t.String()) > 0 }).Words()
			name = "words"
		case i < 2*len(dense)+len(denseHTML):
			e.unit = denseHTML[i-2*len(dense)]
			s = jargon.TokenizeHTML(e)
			name = "html"
		default:
			st := stages[i-2*len(dense)-len(denseHTML)]
			e.size /= 2
			e.unit = func(i int) string { return dense[i%len(dense)](i) }
			s = jargon.Tokenize(e).Filter(st.filter)
			name = st.name
		}
		c.Note("pipeline", name)
		base, n, next := -1, 0, e.size/16
		for s.Scan() {
			n++
			if e.read < next {
				continue
			}
			next += e.size / 4
			h := liveHeap()
			if base < 0 {
				base = h
			}
			c.Max("max_heap_growth_dense", h-base)
			if h-base > 640<<10 {
				c.Fail("live memory grew by %d bytes over %d tokens", h-base, n)
				return
			}
		}
		if s.Err() != nil {
			c.Fail("unexpected error %v", s.Err())
		}
		runtime.KeepAlive(s)
		c.See("tokens", n)
		c.Distinct("dense", name, fmt.Sprint(c.Index))
	})
	// streams, finished or not, leave nothing behind: no memory, and nobody running
	r.Serial("left", len(stages)+2, func(c *mon.Case) {
		text := "Ruby on Rails don't @x #y été walking"
		n := r.Scale(1500, 6000)
		name := "tokenizer"
		var f jargon.Filter
		if c.Index < len(stages) {
			name, f = stages[c.Index].name, stages[c.Index].filter
		}
		c.Note("filter", name)
		run := func(k int) {
			for i := 0; i < k; i++ {
				var s *jargon.TokenStream
				switch i % 3 {
				case 0:
					s = jargon.TokenizeString(text + strconv.Itoa(i))
				case 1:
					s = jargon.Tokenize(strings.NewReader(text + strconv.Itoa(i)))
				default:
					s = jargon.TokenizeHTML(strings.NewReader("<p>" + text + strconv.Itoa(i)))
				}
				if i%7 == 3 {
					s = jargon.Tokenize(iotest.TimeoutReader(strings.NewReader(text)))
				}
				if f != nil {
					s = s.Filter(f)
				}
				switch i / 3 % 5 {
				case 0:
					s.Count()
				case 1:
					s.Next() // abandoned
				case 2:
					s.Next()
					s.Next()
					s.Next()
				case 3:
					s.Words().Next()
				case 4: // never used
				}
			}
		}
		run(200)
		base, threads := liveHeap(), runtime.NumGoroutine()
		run(n)
		var h, g int
		for try := 0; try < 5; try++ {
			h, g = liveHeap()-base, runtime.NumGoroutine()-threads
			if h <= 512<<10 && g < 20 {
				break
			}
			time.Sleep(200 * time.Millisecond) // something may be winding up
		}
		c.Max("max_heap_growth_streams", h)
		c.Max("max_goroutines_left", g)
		if g >= n/50 {
			c.Fail("%d goroutines are left over by %d streams", g, n)
		}
		if h > 512<<10 {
			c.Fail("live memory grew by %d bytes over %d streams", h, n)
		}
		c.See("streams", n)
		c.Distinct("left", name)
	})
}

//
// C07: sources which are read on directly
//

// lazy are the filters and views which look at one token at a time; each makes its reference, token by token.
func lazy(r *rand.Rand) (names []string, filters []jargon.Filter, ref func(t tok) []tok) {
	var refs []func(t tok) []tok
	one := func(st stage) func(t tok) []tok {
		return func(t tok) []tok { return st.ref([]tok{t}) }
	}
	for k := 1 + r.IntN(3); k > 0; k-- {
		var st stage
		var f func(t tok) []tok
		switch r.IntN(9) {
		case 0:
			st = wordsStage
		case 1:
			st = lemmasStage
		case 2:
			st = distinctStage
			f = distinctly()
		case 3:
			salt := r.IntN(4)
			keep := func(v string) bool { return (len(v)+salt)%4 != 0 }
			st = stage{"where", func(s *jargon.TokenStream) *jargon.TokenStream {
				return s.Where(func(t *jargon.Token) bool { return keep(t.String()) })
			}, func(in []tok) []tok { return select_(in, func(t tok) bool { return keep(t.V) }) }}
		case 4:
			st = stage{"mapper", mapper.NewFilter(upcase, suffix), refUpcaseSuffix}
		case 5:
			stop := []string{"the", " ", "a", "on"}
			st = stage{"stopwords", stopwords.NewFilter(stop, true), func(in []tok) []tok { return refStop(in, stop, true) }}
		case 6:
			st = contractionsStage
		case 7:
			st = mon.Pick(r, stemStages)
		default:
			st = mon.Pick(r, append([]stage{asciiStage}, normStages...))
		}
		if f == nil {
			f = one(st)
		}
		names = append(names, st.name)
		filters = append(filters, st.filter)
		refs = append(refs, f)
	}
	return names, filters, func(t tok) []tok {
		ts := []tok{t}
		for _, f := range refs {
			var out []tok
			for _, t := range ts {
				out = append(out, f(t)...)
			}
			ts = out
		}
		return ts
	}
}

// taking reads views, and the source which they share, by turns: each view takes from the source
// what it needs and no more, and knows nothing of the others.
func taking(r *mon.Run, g *mon.Gen) {
	r.Each("taking", r.Cases(8000, 100000), func(c *mon.Case) {
		name, mk, n := anyPipeline(c, g)
		c.Note("source", name)
		in := mustDrain(c, mk(), n)
		parent := mk()
		type view struct {
			name    string
			s       *jargon.TokenStream
			ref     func(tok) []tok
			pending []tok
		}
		var views []*view
		open := func() {
			names, filters, ref := lazy(c.Rng)
			if len(views) > 0 && c.Rng.IntN(3) == 0 {
				names, filters, ref = []string{"distinct"}, []jargon.Filter{(*jargon.TokenStream).Distinct}, distinctly()
			}
			v := &view{name: strings.Join(names, " | "), s: parent.Filter(filters...), ref: ref}
			views = append(views, v)
			c.Note(fmt.Sprint("view ", len(views)-1), v.name)
		}
		open()
		pos := 0
		var ops []string
		for k := 0; k < 3*len(in)+4; k++ {
			if c.Rng.IntN(20) == 0 && len(views) < 4 {
				open()
			}
			var want *tok
			var got *jargon.Token
			var err error
			who := "source"
			if c.Rng.IntN(3) == 0 {
				if pos < len(in) {
					want = &in[pos]
					pos++
				}
				if c.Rng.IntN(2) == 0 {
					got, err = parent.Next()
				} else if parent.Scan() {
					got = parent.Token()
				} else {
					err = parent.Err()
				}
			} else {
				i := c.Rng.IntN(len(views))
				v := views[i]
				who = fmt.Sprint("view ", i)
				for len(v.pending) == 0 && pos < len(in) {
					v.pending = v.ref(in[pos])
					pos++
				}
				if len(v.pending) > 0 {
					want = &v.pending[0]
					v.pending = v.pending[1:]
				}
				got, err = v.s.Next()
			}
			ops = append(ops, who)
			switch {
			case err != nil:
				c.Fail("unexpected error %v", err)
			case want == nil && got != nil:
				c.Fail("%s: token %s after the end", who, see(got))
			case want != nil && got == nil:
				c.Fail("%s: end, want %s", who, *want)
			case want != nil && see(got) != *want:
				c.Fail("%s: got %s, want %s", who, see(got), *want)
			}
			if c.Failed() {
				c.Note("turns", strings.Join(ops, ", "))
				return
			}
			c.See("turns", 1)
		}
		if len(in) > 1 {
			c.Distinct(name, views[0].name)
		}
	})
}

// distinctly is the reference of Distinct, token by token.
func distinctly() func(t tok) []tok {
	seen := map[string]bool{}
	return func(t tok) []tok {
		if seen[t.V] {
			return nil
		}
		seen[t.V] = true
		return []tok{t}
	}
}

//
// C26: tokens and data which outlive streams
//

// kept holds tokens of streams which are gone, over garbage collections and new streams.
func kept(r *mon.Run, g *mon.Gen) {
	r.Serial("kept", r.Scale(30, 300), func(c *mon.Case) {
		type hold struct {
			from string
			ts   []*jargon.Token
			was  []tok
		}
		var all []hold
		open := func(n int, keep bool) {
			done := make(chan bool)
			go func() { // so that no stack holds on to the streams
				defer close(done)
				for i := 0; i < n; i++ {
					text := g.Any(c.Rng)
					if len(text) > 2000 {
						text = text[:2000]
					}
					names, filters, _ := chain(c.Rng, g, 2)
					var s *jargon.TokenStream
					switch c.Rng.IntN(4) {
					case 0:
						s = jargon.TokenizeHTML(strings.NewReader("<p>" + text))
					case 1:
						s = jargon.Tokenize(strings.NewReader(text))
					default:
						s = jargon.TokenizeString(text)
					}
					if c.Rng.IntN(3) > 0 {
						s = s.Filter(filters...)
					}
					var ts []*jargon.Token
					if c.Rng.IntN(3) == 0 {
						for k := c.Rng.IntN(20); k >= 0; k-- {
							t, err := s.Next()
							if t == nil || err != nil {
								break
							}
							ts = append(ts, t)
						}
					} else {
						ts, _ = s.ToSlice()
					}
					if keep {
						all = append(all, hold{strings.Join(names, " | "), ts, seeAll(ts)})
					}
					c.See("tokens", len(ts))
				}
			}()
			<-done
		}
		open(30, true)
		for round := 0; round < 4; round++ {
			runtime.GC()
			time.Sleep(time.Millisecond) // finalizers
			open(30, round == 1)
			for _, h := range all {
				if d := diff(h.was, seeAll(h.ts)); d != "" {
					c.Note("filters", h.from)
					c.Fail("a token changed after its stream was gone: %s", d)
					return
				}
			}
			c.See("collections", 1)
		}
		c.See("streams", 150)
		c.Distinct(fmt.Sprint(c.Index))
	})
	// the list of filters is the caller's
	r.Each("lists", r.Cases(1500, 20000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		names, filters, ref := chain(c.Rng, g, 4)
		c.NoteQ("input", text)
		c.Note("filters", strings.Join(names, " | "))
		in := refText(text)
		s := source(real(in)).Filter(filters...)
		var got []tok
		if c.Rng.IntN(2) == 0 {
			if t, err := s.Next(); t != nil && err == nil {
				got = append(got, see(t))
			}
		}
		for i := range filters {
			switch c.Rng.IntN(4) {
			case 0:
				filters[i] = nil
			case 1:
				filters[i] = func(*jargon.TokenStream) *jargon.TokenStream { return source(nil) }
			case 2:
				filters[i] = anyStage(c.Rng, g).filter
			case 3:
				j := c.Rng.IntN(len(filters))
				filters[i], filters[j] = filters[j], filters[i]
			}
		}
		got = append(got, mustDrain(c, s, len(text))...)
		if d := diff(ref(in), got); d != "" {
			c.Fail("with the caller's list of filters changed after Filter: %s", d)
		}
		c.See("streams", 1)
		c.See("tokens", len(got))
		if len(in) > 1 {
			c.Distinct(text, strings.Join(names, "|"))
		}
	})
}

//
// C11: everything else which goroutines may do at the same time
//

// otherJobs consumes streams in every way, also streams which fail.
func otherJobs(r *rand.Rand, text string, st stage) []job {
	in := refText(text)
	want := st.ref(in)
	make_ := func() *jargon.TokenStream { return jargon.TokenizeString(text).Filter(st.filter) }
	whole := []tok{{V: concat(want)}}
	name := func(s string) string { return fmt.Sprintf("%s of %s on %q", s, st.name, text) }
	fault := fmt.Errorf("fault %d", r.Uint32())
	failing := func() io.Reader {
		return io.MultiReader(strings.NewReader(text), iotest.ErrReader(fault))
	}
	long := text + " " + strings.Repeat("a", 66000+r.IntN(1000))
	_, tooLongErr := jargon.TokenizeString(strings.Repeat("a", 70000)).Count()
	doc := "<p>" + strings.ReplaceAll(text, "<", "&lt;") + "</p>"
	jobs := []job{
		{name: name("String"), want: whole, run: func(func()) ([]tok, error) {
			s, err := make_().String()
			return []tok{{V: s}}, err
		}},
		{name: name("WriteTo"), want: whole, run: func(func()) ([]tok, error) {
			var b strings.Builder
			n, err := make_().WriteTo(&b)
			if int(n) != b.Len() {
				return nil, fmt.Errorf("WriteTo reports %d of %d bytes", n, b.Len())
			}
			return []tok{{V: b.String()}}, err
		}},
		{name: name("ToSlice"), want: want, run: func(func()) ([]tok, error) {
			ts, err := make_().ToSlice()
			return seeAll(ts), err
		}},
		{name: name("Count"), want: []tok{{V: strconv.Itoa(len(want))}}, run: func(func()) ([]tok, error) {
			n, err := make_().Count()
			return []tok{{V: strconv.Itoa(n)}}, err
		}},
		{name: name("Scan"), want: want, run: func(jitter func()) (out []tok, err error) {
			s := make_()
			for s.Scan() {
				jitter()
				out = append(out, see(s.Token()))
			}
			return out, s.Err()
		}},
		{name: name("Words"), want: wordsStage.ref(want), run: func(func()) ([]tok, error) { return drainErr(make_().Words(), len(text)) }},
		{name: name("Lemmas"), want: lemmasStage.ref(want), run: func(func()) ([]tok, error) { return drainErr(make_().Lemmas(), len(text)) }},
		{name: name("Distinct"), want: refDistinct(want), run: func(func()) ([]tok, error) { return drainErr(make_().Distinct(), len(text)) }},
		{name: name("Where"), want: want, run: func(func()) ([]tok, error) {
			return drainErr(make_().Where(func(t *jargon.Token) bool { return t != nil }), len(text))
		}},
		{name: name("failing"), fails: true, err: fault.Error(), run: func(jitter func()) ([]tok, error) {
			return drainErr(jargon.Tokenize(failing()).Filter(st.filter), len(text))
		}},
		{name: name("failing html"), fails: true, err: fault.Error(), run: func(jitter func()) ([]tok, error) {
			_, err := jargon.TokenizeHTML(io.MultiReader(strings.NewReader(doc), iotest.ErrReader(fault))).Filter(st.filter).Count()
			return nil, err
		}},
		{name: name("failing source"), fails: true, err: fault.Error(), run: func(jitter func()) ([]tok, error) {
			_, err := faultySource(real(in), len(in)/2, fault, false).Filter(st.filter).String()
			return nil, err
		}},
		{name: name("failing writer"), fails: true, err: fault.Error(), run: func(jitter func()) ([]tok, error) {
			_, err := jargon.TokenizeString("x" + text).Filter(st.filter).WriteTo(writerFunc(func(p []byte) (int, error) { return 0, fault }))
			if err == nil && len(st.ref(refText("x"+text))) == 0 {
				err = fault // nothing to write
			}
			return nil, err
		}},
		{name: name("abandoned"), want: want[:min(len(want), 2)], run: func(jitter func()) (out []tok, err error) {
			s := make_()
			for i := 0; i < 2; i++ {
				t, err := s.Next()
				if t == nil || err != nil {
					return out, err
				}
				out = append(out, see(t))
			}
			return out, nil
		}},
	}
	if tooLongErr != nil {
		jobs = append(jobs, job{name: name("too long"), fails: true, err: tooLongErr.Error(), run: func(jitter func()) ([]tok, error) {
			_, err := jargon.TokenizeString(long).Filter(st.filter).Count()
			return nil, err
		}})
	}
	r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	return jobs
}

//
// C21: inputs which come, and outputs which go, with long pauses
//

// idle runs the command with a peer which does nothing for a long time: that isn't the end, nor a failure.
func idle(r *mon.Run, path string, expect func(text string) string) {
	pause := time.Duration(r.Scale(12, 70)) * time.Second
	r.EachN("idle", 8, 8, func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		var err error
		text := strings.Repeat("Les cafés don't close. ", []int{20, 20, 20, 20, 20000, 20000, 20000, 20}[c.Index])
		half := len(text) / 2
		var args []string
		var in, peer *os.File
		out := filepath.Join(dir, "out")
		name := ""
		switch c.Index {
		case 0, 1, 4, 6, 7:
			name = []string{"the first input comes late", "the input pauses", "", "", "the output is not read", "", "the output is not read, in non-blocking mode", "the input pauses, in non-blocking mode"}[c.Index]
			if in, peer, err = os.Pipe(); err != nil {
				c.Internal("%v", err)
				return
			}
		case 2, 5:
			name = "the input, a socket, pauses"
			if c.Index == 5 {
				name = "the output, a named pipe, is not read"
			}
			fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if err != nil {
				c.Internal("%v", err)
				return
			}
			in, peer = os.NewFile(uintptr(fds[0]), "in"), os.NewFile(uintptr(fds[1]), "peer")
		case 3:
			name = "the input, a named pipe, pauses"
			p := filepath.Join(dir, "fifo")
			if err := syscall.Mkfifo(p, 0o644); err != nil {
				c.Internal("%v", err)
				return
			}
			args = append(args, "-file", p)
			if peer, err = os.OpenFile(p, os.O_RDWR, 0); err != nil {
				c.Internal("%v", err)
				return
			}
			if in, err = os.Open("/dev/null"); err != nil {
				c.Internal("%v", err)
				return
			}
		}
		c.Note("case", name)
		defer peer.Close()
		args = append(args, "-ascii")
		nonblocking := c.Index >= 6
		cmd := exec.Command(path, args...)
		cmd.Stdin = in
		errs := &tail{}
		cmd.Stderr = errs
		var written io.Reader
		var ours *os.File
		if c.Index == 5 {
			if err := syscall.Mkfifo(out, 0o644); err != nil {
				c.Internal("%v", err)
				return
			}
			cmd.Args = append(cmd.Args, "-out", out)
			if ours, err = os.OpenFile(out, os.O_RDWR, 0); err != nil {
				c.Internal("%v", err)
				return
			}
			rd, err := os.OpenFile(out, os.O_RDONLY, 0)
			if err != nil {
				c.Internal("%v", err)
				return
			}
			defer rd.Close()
			written = rd
		} else {
			rd, wr, err := os.Pipe()
			if err != nil {
				c.Internal("%v", err)
				return
			}
			defer rd.Close()
			cmd.Stdout, ours, written = wr, wr, rd
		}
		waitFor := cmd.Wait
		if nonblocking {
			// os/exec hands over descriptors in blocking mode
			pid, err := startNonblocking(path, cmd.Args, in, ours, errs)
			if err != nil {
				c.Internal("%v", err)
				return
			}
			cmd.Process, _ = os.FindProcess(pid)
			waitFor = func() error {
				st, err := cmd.Process.Wait()
				if err == nil && !st.Success() {
					err = errors.New(st.String())
				}
				return err
			}
		} else if err := cmd.Start(); err != nil {
			c.Internal("%v", err)
			return
		}
		in.Close()
		if c.Index != 5 {
			ours.Close()
		}
		go func() {
			defer peer.Close()
			if c.Index == 0 {
				half = 0
			}
			io.WriteString(peer, text[:half])
			if c.Index < 4 || c.Index == 7 {
				time.Sleep(pause)
			}
			io.WriteString(peer, text[half:])
		}()
		got := make(chan string, 1)
		go func() {
			if 4 <= c.Index && c.Index <= 6 {
				time.Sleep(pause)
			}
			b, _ := io.ReadAll(written)
			got <- string(b)
		}()
		ended := make(chan error, 1)
		go func() { ended <- waitFor() }()
		select {
		case err := <-ended:
			if err != nil {
				c.Fail("%v on a valid input: %.300s", err, errs)
				return
			}
		case <-time.After(pause + cliLimit):
			cmd.Process.Kill()
			c.Fail("the command does not end")
			return
		}
		if c.Index == 5 {
			ours.Close()
		}
		if want, got := expect(text), <-got; got != want {
			c.Fail("the output %s", textDiff(want, got))
		}
		c.See("pauses", 1)
		c.See("output_bytes", len(text))
		c.Distinct("idle", name)
	})
}

// startNonblocking starts a process whose standard input and output are in non-blocking mode, as some parents leave them.
func startNonblocking(path string, args []string, in, out *os.File, errs *tail) (pid int, err error) {
	rd, wr, err := os.Pipe()
	if err != nil {
		return 0, err
	}
	defer wr.Close()
	fds := []uintptr{in.Fd(), out.Fd(), wr.Fd()} // which makes them blocking
	for _, fd := range fds[:2] {
		if err := syscall.SetNonblock(int(fd), true); err != nil {
			return 0, err
		}
	}
	pid, _, err = syscall.StartProcess(path, args, &syscall.ProcAttr{Env: os.Environ(), Files: fds})
	go func() {
		defer rd.Close()
		io.Copy(errs, rd)
	}()
	return pid, err
}
