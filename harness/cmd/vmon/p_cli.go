package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/kljensen/snowball/english"
	"verif/mon"
)

//
// C21, C22: the command line
//

// cliFlags are the filters of the command line.
var cliFlags = map[string]stage{
	"ascii":        asciiStage,
	"contractions": contractionsStage,
	"lemmas":       lemmasStage,
	"distinct":     distinctStage,
	"stack":        soStage,
	"stem":         stemStage("stem-english", stemmer.English, english.Stem),
}

var cliLangs = []string{"english", "french", "norwegian", "russian", "spanish", "swedish"}

// cliRun is one invocation.
type cliRun struct {
	Args   []string
	Stdin  string // how stdin is provided
	Stdout string
	Exit   int
	Signal bool
	Out    string
	Err    string
	MaxRSS int // KiB
}

// feed provides the standard input: a pipe (dribbled), a regular file, or nothing (a character device).
type feed struct {
	kind  string // "pipe", "file", "null", "dir", "reset"
	data  string
	sizes []int
	watch bool
	fifo  string // a named pipe which gets the data instead

	before string   // of a file, what was read of it already
	tty    bool     // the standard output is a terminal, and so is a standard input without data
	env    []string // nil for the usual one
}

// environment is one in which the command has to behave as in any other: the language, the terminal, the
// processors, names which occur in the code as if they were switches, or hardly anything at all.
func environment(r *rand.Rand, g *mon.Gen) []string {
	env := []string{"GOMAXPROCS=" + mon.Pick(r, []string{"1", "2", "3", "4", "8", "32"})}
	if r.IntN(4) == 0 {
		return env
	}
	values := []string{"", "1", "true", "fr_FR.UTF-8", "french", "ru_RU", "C", "POSIX", "tr_TR.UTF-8", "-stem", "/nonexistent", "0", "dumb"}
	for _, n := range []string{"LANG", "LC_ALL", "LC_CTYPE", "LANGUAGE", "TERM", "NO_COLOR", "DEBUG", "VERBOSE", "TMPDIR", "HOME", "PATH", "COLUMNS", "JARGON", "JARGON_LANG", "JARGON_FLAGS", "POSIXLY_CORRECT", "USER", "CI"} {
		if r.IntN(2) == 0 {
			env = append(env, n+"="+mon.Pick(r, values))
		}
	}
	for _, s := range g.Mined.Strings {
		if isEnvName(s) && r.IntN(2) == 0 {
			env = append(env, s+"="+mon.Pick(r, values))
		}
	}
	return env
}

func isEnvName(s string) bool {
	for i := range len(s) {
		if b := s[i]; b != '_' && !('A' <= b && b <= 'Z') && !('0' <= b && b <= '9' && i > 0) {
			return false
		}
	}
	return len(s) > 1 && !strings.HasPrefix(s, "GO")
}

// supply writes data in pieces of the given sizes.
func supply(w io.Writer, data string, sizes []int) {
	for i := 0; data != ""; i++ {
		n := len(data)
		if len(sizes) > 0 {
			n = min(n, max(1, sizes[i%len(sizes)]))
		}
		if _, err := io.WriteString(w, data[:n]); err != nil {
			return
		}
		data = data[n:]
	}
}

// highWater is the peak resident memory of a process, in KiB.
func highWater(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return 0
	}
	_, rest, ok := strings.Cut(string(b), "VmHWM:")
	if !ok {
		return 0
	}
	n, _ := strconv.Atoi(strings.Fields(rest)[0])
	return n
}

const cliLimit = 240 * time.Second

// cli runs the binary in dir. stdout, if not nil, replaces the captured standard output.
func cli(c *mon.Case, path, dir string, in feed, stdout *os.File, args ...string) (res cliRun, ok bool) {
	cmd := exec.Command(path, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if in.env != nil {
		cmd.Env = in.env
		c.Note("environment", fmt.Sprintf("%q", in.env))
	}
	var out bytes.Buffer
	errs := &tail{}
	cmd.Stdout, cmd.Stderr = &out, errs
	if stdout != nil {
		cmd.Stdout = stdout
	}
	res.Args, res.Stdin = args, in.kind
	c.Note("args", fmt.Sprintf("%q", args))
	c.Note("stdin", in.kind)
	var after []func()
	defer func() {
		for _, f := range after {
			f()
		}
	}()
	open := func(p string) bool {
		f, err := os.Open(p)
		if err != nil {
			c.Internal("%v", err)
			return false
		}
		cmd.Stdin = f
		after = append(after, func() { f.Close() })
		return true
	}
	var started func()
	switch in.kind {
	case "null":
		if in.tty {
			if master, slave, err := terminal(); err == nil {
				cmd.Stdin = slave
				after = append(after, func() { slave.Close(); master.Close() })
				c.See("stdin_terminals", 1)
				break
			}
		}
		if !open("/dev/null") {
			return res, false
		}
	case "dir":
		if !open(dir) {
			return res, false
		}
	case "file":
		// redirected, possibly after something else has read the beginning
		p := filepath.Join(dir, "stdin.txt")
		if err := os.WriteFile(p, []byte(in.before+in.data), 0o644); err != nil {
			c.Internal("%v", err)
			return res, false
		}
		if !open(p) {
			return res, false
		}
		if _, err := cmd.Stdin.(*os.File).Seek(int64(len(in.before)), io.SeekStart); err != nil {
			c.Internal("%v", err)
			return res, false
		}
	case "pipe":
		pr, pw, err := os.Pipe()
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		cmd.Stdin = pr
		after = append(after, func() { pr.Close() })
		started = func() {
			pr.Close()
			go func() {
				defer pw.Close()
				supply(pw, in.data, in.sizes)
			}()
		}
	case "socket":
		// as from inetd, or a shell's /dev/tcp
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		f, peer := os.NewFile(uintptr(fds[0]), "stdin"), os.NewFile(uintptr(fds[1]), "peer")
		cmd.Stdin = f
		after = append(after, func() { f.Close() })
		started = func() {
			f.Close()
			go func() {
				defer peer.Close()
				supply(peer, in.data, in.sizes)
			}()
		}
	case "reset":
		// a connection which is reset after the data
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		defer l.Close()
		conn, err := net.Dial("tcp", l.Addr().String())
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		peer, err := l.Accept()
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		f, err := peer.(*net.TCPConn).File()
		peer.Close()
		if err != nil {
			c.Internal("%v", err)
			return res, false
		}
		// the command gets a blocking descriptor, as from a shell
		syscall.SetNonblock(int(f.Fd()), false)
		cmd.Stdin = f
		after = append(after, func() { f.Close() })
		started = func() {
			f.Close()
			go func() {
				io.WriteString(conn, in.data)
				time.Sleep(20 * time.Millisecond)
				conn.(*net.TCPConn).SetLinger(0)
				conn.Close()
			}()
		}
	}
	const mark = "\x00\x00that is all\x00\x00"
	var screen *os.File
	var shown chan string
	if in.tty && stdout == nil {
		if master, slave, err := terminal(); err == nil {
			cmd.Stdout, screen = slave, slave
			after = append(after, func() { slave.Close(); master.Close() })
			shown = make(chan string, 1)
			go func() {
				var b []byte
				p := make([]byte, 8192)
				for !bytes.HasSuffix(b, []byte(mark)) {
					n, err := master.Read(p)
					if b = append(b, p[:n]...); err != nil {
						break
					}
				}
				shown <- strings.TrimSuffix(string(b), mark)
			}()
			c.Note("stdout", "a terminal")
			c.See("stdout_terminals", 1)
		} else {
			c.See("no_terminal", 1)
		}
	}
	if err := cmd.Start(); err != nil {
		if screen != nil {
			screen.WriteString(mark)
		}
		c.Internal("%v", err)
		return res, false
	}
	if started != nil {
		started()
	}
	if in.fifo != "" {
		ended := make(chan bool)
		after = append(after, func() { close(ended) })
		go func() {
			for {
				// not before the command reads, and not forever if it never does
				fd, err := syscall.Open(in.fifo, syscall.O_WRONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err == nil {
					w := os.NewFile(uintptr(fd), in.fifo)
					supply(w, in.data, in.sizes)
					w.Close()
					return
				}
				select {
				case <-ended:
					return
				case <-time.After(time.Millisecond):
				}
			}
		}()
	}
	stopWatch := func() {}
	if in.watch {
		// the high-water mark of the process itself: what rusage reports includes its parent's
		done, ended := make(chan bool), make(chan bool)
		go func() {
			defer close(ended)
			for {
				if n := highWater(cmd.Process.Pid); n > res.MaxRSS {
					res.MaxRSS = n
				}
				select {
				case <-done:
					return
				case <-time.After(2 * time.Millisecond):
				}
			}
		}()
		stopWatch = func() { close(done); <-ended }
	}
	timer := time.AfterFunc(cliLimit, func() { cmd.Process.Signal(syscall.SIGQUIT); cmd.Process.Kill() })
	cmd.Wait()
	stopWatch()
	if !timer.Stop() {
		c.Fail("the command does not finish within %s", cliLimit)
		return res, false
	}
	res.Exit = cmd.ProcessState.ExitCode()
	if ws, k := cmd.ProcessState.Sys().(syscall.WaitStatus); k && ws.Signaled() {
		res.Signal = true
	}
	res.Out, res.Err = out.String(), errs.String()
	if screen != nil {
		screen.WriteString(mark)
		res.Out = <-shown
	}
	c.Note("exit", fmt.Sprint(res.Exit))
	c.NoteQ("stderr", res.Err)
	return res, true
}

func scratch(c *mon.Case) string {
	dir := filepath.Join(c.Scratch, fmt.Sprintf("%s-%d", c.Phase, c.Index))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		c.Internal("%v", err)
		c.Abort()
	}
	return dir
}

// invocation picks flags, and the model of their effect.
func invocation(r *rand.Rand) (args []string, html, count, lines bool, stages []stage) {
	spell := func(name string) string {
		s := "-" + name
		if r.IntN(5) == 0 {
			s = "-" + s
		}
		switch r.IntN(8) {
		case 0:
			s += "=true"
		case 1:
			s += "=1"
		}
		return s
	}
	names := []string{"ascii", "contractions", "lemmas", "distinct", "stack", "stem"}
	lang := "english"
	stem := false
	for i := r.IntN(5); i > 0; i-- {
		n := mon.Pick(r, names)
		args = append(args, spell(n))
		stages = append(stages, cliFlags[n])
		stem = stem || n == "stem"
	}
	// flags which are not filters may be anywhere
	insert := func(a ...string) {
		// never between a flag and its value: those are inserted as one here
		at := 0
		if len(args) > 0 {
			at = r.IntN(len(args) + 1)
			for at > 0 && at < len(args) && !strings.HasPrefix(args[at], "-") {
				at++
			}
		}
		args = append(args[:at], append(a, args[at:]...)...)
	}
	if r.IntN(3) == 0 {
		lang = mon.Pick(r, cliLangs)
		if r.IntN(2) == 0 {
			insert("-lang", lang)
		} else {
			insert("-lang=" + lang)
		}
	}
	for i, s := range stages {
		if s.name == "stem-english" {
			for k, l := range cliLangs {
				if l == lang {
					stages[i] = stemStages[k]
				}
			}
		}
	}
	if r.IntN(3) == 0 {
		html = true
		insert(spell("html"))
	}
	if r.IntN(3) == 0 {
		lines = true
		insert(spell("lines"))
	}
	if r.IntN(5) == 0 {
		count = true
		insert(spell("count"))
	}
	if r.IntN(8) == 0 {
		insert("-" + mon.Pick(r, []string{"ascii", "stack", "stem", "lemmas", "contractions", "distinct"}) + "=false")
		// only where the same filter isn't also switched on
		for _, a := range args {
			if strings.HasSuffix(a, "=false") {
				n := strings.TrimSuffix(strings.TrimLeft(a, "-"), "=false")
				for _, b := range args {
					b = strings.TrimLeft(b, "-")
					if b != n+"=false" && strings.Split(b, "=")[0] == n {
						return invocation(r)
					}
				}
			}
		}
	}
	return
}

func render(ts []tok, count, lines bool) string {
	if count {
		return strconv.Itoa(len(ts)) + "\n"
	}
	if !lines {
		return concat(ts)
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.V)
		b.WriteByte('\n')
	}
	return b.String()
}

// expected is the model of an invocation; alt is an equally acceptable result, or "".
func expected(text string, html, count, lines bool, stages []stage) (want, alt string, n int) {
	var in, alts []tok
	if html {
		in, alts = refHTML(text)
	} else {
		in = refText(text)
	}
	through := func(in []tok) []tok {
		for _, s := range stages {
			in = s.ref(in)
		}
		return in
	}
	out := through(in)
	want = render(out, count, lines)
	alt = want
	if alts != nil {
		alt = render(through(alts), count, lines)
	}
	return want, alt, len(out)
}

// oddNames are names of files which a command could take for something else.
var oddNames = []string{"-stack", "-stem", "-lemmas", "--distinct", "-ascii=true", "-count", "-", "--", "a=b", "true", "english", "x,y", "日本.txt", "%s", "~", "$HOME", "*",
	"$x", "trailing ", " leading", "tab\t", "new\nline", "x.gz", "A.TXT", ".hidden", "x.html", "back\\slash", "q'uote", `q"uote`, "a;b", "e\u0301", "é", "\xff", "100%", "#", "@file", strings.Repeat("long", 60)}

var cliSizes = []int{0, 1, 2, 100, 4094, 4095, 4096, 4097, 4098, 8192, 65534, 65535, 65536, 65537, 131072, 200000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<20 + 70000}

func checkCLI(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case runs the real command, built from the tree, on a generated input: from a file, a dribbled pipe or a redirected file, to standard output, a new file or an existing one, with a random sequence of flags in any spelling and order. The bytes it writes are compared with the composed reference models (filters in the order of the flags), and the exit status must be 0. Non-trivial: non-empty output; distinct by input and arguments.")
	path := exe(r, "jargon")
	if path == "" {
		return
	}
	one := func(c *mon.Case, text string, kinds ...string) {
		rng := c.Rng
		dir := scratch(c)
		defer os.RemoveAll(dir)
		args, html, count, lines, stages := invocation(rng)
		var in feed
		kind := mon.Pick(rng, kinds)
		var tail []string
		switch kind {
		case "-fifo":
			in = feed{kind: "null", data: text, fifo: filepath.Join(dir, "pipe")}
			for i := rng.IntN(4); i > 0 && len(text) > 0; i-- {
				in.sizes = append(in.sizes, 1+max(g.Len(rng, 70000), len(text)/200))
			}
			if err := syscall.Mkfifo(in.fifo, 0o644); err != nil {
				c.Internal("%v", err)
				return
			}
			tail = append(tail, "-file", in.fifo)
		case "-link":
			in.kind = "null"
			p := filepath.Join(dir, "target.txt")
			if err := os.WriteFile(p, []byte(text), 0o444); err != nil {
				c.Internal("%v", err)
				return
			}
			if err := os.Symlink("target.txt", filepath.Join(dir, "link")); err != nil {
				c.Internal("%v", err)
				return
			}
			tail = append(tail, "-file", "link")
		case "-file":
			in.kind = "null"
			p := filepath.Join(dir, mon.Pick(rng, append([]string{"in.txt", "in file.txt", "été.html", "x"}, oddNames...)))
			if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
				c.Internal("%v", err)
				return
			}
			if rng.IntN(2) == 0 || strings.HasPrefix(filepath.Base(p), "-") {
				p = filepath.Base(p)
			}
			if rng.IntN(2) == 0 {
				tail = append(tail, "-file", p)
			} else {
				tail = append(tail, "--file="+p)
			}
		default:
			in = feed{kind: kind, data: text}
			if (kind == "pipe" || kind == "socket") && len(text) > 0 {
				for i := rng.IntN(4); i > 0; i-- {
					in.sizes = append(in.sizes, 1+max(g.Len(rng, 70000), len(text)/200))
				}
			}
		}
		if in.kind == "file" && rng.IntN(2) == 0 {
			in.before = mon.Pick(rng, []string{"header\n", "<p>", "Ruby on ", strings.Repeat("read already ", 1+rng.IntN(800))})
			c.NoteQ("read before", in.before)
		}
		outfile := ""
		before := ""
		var stdout *os.File
		switch rng.IntN(5) {
		case 2:
			// standard output is a file, which others write too
			before = strings.Repeat("written before\n", rng.IntN(400))
			p := filepath.Join(dir, "stdout.txt")
			if err := os.WriteFile(p, []byte(before), 0o644); err != nil {
				c.Internal("%v", err)
				return
			}
			mode := os.O_WRONLY
			if rng.IntN(2) == 0 {
				mode |= os.O_APPEND
			}
			f, err := os.OpenFile(p, mode, 0)
			if err != nil {
				c.Internal("%v", err)
				return
			}
			defer f.Close()
			f.Seek(0, io.SeekEnd)
			stdout = f
			c.Note("stdout", fmt.Sprintf("a file of %d bytes, append=%v", len(before), mode != os.O_WRONLY))
		case 0:
			outfile = filepath.Join(dir, "out.txt")
		case 1:
			outfile = filepath.Join(dir, "out.txt")
			before = strings.Repeat("previous content ", rng.IntN(20000))
			os.WriteFile(outfile, []byte(before), 0o644)
		}
		if outfile != "" {
			name := outfile
			if rng.IntN(3) == 0 {
				// as a file in the working directory, of any name
				outfile = filepath.Join(dir, "new "+mon.Pick(rng, oddNames))
				if rng.IntN(2) == 0 {
					outfile = filepath.Join(dir, mon.Pick(rng, []string{"-stack", "-ascii", "--stem", "-lemmas", "-distinct", "-contractions=true", "-lines", "true", "1"}))
				}
				if before != "" {
					os.WriteFile(outfile, []byte(before), 0o644)
				}
				name = filepath.Base(outfile)
				if len(tail) > 0 && filepath.Base(tail[len(tail)-1]) == name || strings.HasSuffix(strings.Join(tail, ""), "="+name) {
					return // that is the input
				}
			}
			if rng.IntN(3) == 0 {
				tail = append(tail, "-out="+name)
			} else {
				tail = append(tail, mon.Pick(rng, []string{"-out", "--out"}), name)
			}
		}
		if rng.IntN(2) == 0 {
			args = append(args, tail...)
		} else {
			args = append(tail, args...)
		}
		c.NoteQ("input", text)
		in.env = environment(rng, g)
		in.tty = rng.IntN(4) == 0 && len(text) < 300000
		// what the output file's name stands for
		var written func() string
		if outfile != "" {
			switch rng.IntN(6) {
			case 0:
				// a link, to a file which exists or not yet; what is read of it is read of the target
				os.Remove(outfile)
				target := filepath.Join(dir, "the target")
				if before != "" {
					os.WriteFile(target, []byte(before), 0o644)
				}
				if err := os.Symlink("the target", outfile); err != nil {
					c.Internal("%v", err)
					return
				}
				c.Note("output", "a link")
				c.See("output_links", 1)
				outfile = target
			case 1:
				// a pipe, which someone reads
				os.Remove(outfile)
				if err := syscall.Mkfifo(outfile, 0o644); err != nil {
					c.Internal("%v", err)
					return
				}
				rd, err := syscall.Open(outfile, syscall.O_RDONLY|syscall.O_NONBLOCK|syscall.O_CLOEXEC, 0)
				if err != nil {
					c.Internal("%v", err)
					return
				}
				// as long as this is open, the reader isn't at the end
				wr, err := os.OpenFile(outfile, os.O_WRONLY, 0)
				if err != nil {
					c.Internal("%v", err)
					return
				}
				f := os.NewFile(uintptr(rd), outfile)
				piped := make(chan string, 1)
				go func() {
					b, _ := io.ReadAll(f)
					f.Close()
					piped <- string(b)
				}()
				written = func() string { wr.Close(); return <-piped }
				defer wr.Close()
				c.Note("output", "a pipe")
				c.See("output_pipes", 1)
			}
		}
		res, ok := cli(c, path, dir, in, stdout, args...)
		if !ok {
			return
		}
		if res.Exit != 0 {
			c.Fail("exit status %d on a valid input", res.Exit)
			return
		}
		got := res.Out
		if stdout != nil {
			b, err := os.ReadFile(stdout.Name())
			if err != nil {
				c.Internal("%v", err)
				return
			}
			rest, kept := strings.CutPrefix(string(b), before)
			if !kept {
				c.Fail("what others wrote to the standard output is gone: %s", textDiff(before, string(b)))
				return
			}
			got = rest
			c.See("stdout_files", 1)
		}
		if outfile != "" {
			var b []byte
			if written != nil {
				b = []byte(written())
			} else {
				var err error
				if b, err = os.ReadFile(outfile); err != nil {
					c.Fail("no output file: %v", err)
					return
				}
			}
			if got != "" {
				c.Fail("with -out, the standard output is %.100q", got)
			}
			got = string(b)
			c.See("output_files", 1)
		}
		want, alt, n := expected(text, html, count, lines, stages)
		if got != want && got != alt {
			c.Fail("the output %s", textDiff(want, got))
		}
		c.See("input_"+kind, 1)
		c.See("tokens", n)
		c.See("output_bytes", len(got))
		if len(want) > 0 {
			c.Distinct(text, strings.Join(args, "\x00"))
		}
		c.Sample(map[string]any{"args": args, "stdin": in.kind, "input_bytes": len(text), "output_bytes": len(got)})
	}
	doc := func(c *mon.Case) string {
		switch c.Rng.IntN(5) {
		case 0:
			return genHTML(c.Rng, g, 1+c.Rng.IntN(20))
		case 1:
			return g.Prose(c.Rng, c.Rng.IntN(3000))
		case 2:
			return g.Text(c.Rng, 1+c.Rng.IntN(200))
		default:
			return g.Any(c.Rng)
		}
	}
	r.Each("invocations", r.Cases(2500, 40000), func(c *mon.Case) {
		text := doc(c)
		if longestWord(text) > wordLimit {
			return
		}
		one(c, text, "-file", "-file", "-file", "pipe", "pipe", "pipe", "file", "-fifo", "-link", "socket")
	})
	r.Each("sizes", len(cliSizes)*r.Cases(6, 60), func(c *mon.Case) {
		n := cliSizes[c.Index%len(cliSizes)]
		text := g.Big(c.Rng, n)[:n]
		if longestWord(text) > wordLimit {
			return
		}
		one(c, text, "-file", "pipe", "file", "-fifo", "socket")
	})
	idle(r, path, func(text string) string {
		want, _, _ := expected(text, false, false, false, []stage{asciiStage})
		return want
	})
	// millions of tokens, counted and written
	r.EachN("long", r.Cases(8, 80), 4, func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		few := []string{"y\n", "a ", "x,", "é.", "don't ", "1 ", "<b>"}
		few = few[:1+c.Rng.IntN(len(few))]
		var b strings.Builder
		for n := 500000 + c.Rng.IntN(900000); n > 0; n-- {
			b.WriteString(mon.Pick(c.Rng, few))
		}
		args := []string{}
		var st []stage
		if c.Rng.IntN(2) == 0 {
			n := mon.Pick(c.Rng, []string{"ascii", "contractions"})
			args, st = append(args, "-"+n), append(st, cliFlags[n])
		}
		html, count := c.Rng.IntN(3) == 0, c.Index%2 == 0
		if html {
			args = append(args, "-html")
		}
		if count {
			args = append(args, "-count")
		}
		text := b.String()
		want, _, n := expected(text, html, count, false, st)
		res, ok := cli(c, path, dir, feed{kind: mon.Pick(c.Rng, []string{"pipe", "file"}), data: text}, nil, args...)
		if !ok {
			return
		}
		if res.Exit != 0 || res.Out != want {
			c.Fail("exit %d, %d tokens, the output %s", res.Exit, n, textDiff(want, res.Out))
		}
		c.See("tokens", n)
		c.Distinct(strings.Join(args, " "), fmt.Sprint(n))
	})
	// every flag alone, and every ordered pair of filters, on a text where all of them have something to do
	names := []string{"ascii", "contractions", "lemmas", "distinct", "stack", "stem"}
	const rich = "Résumés of Ruby on Rails developers, who'd've don't can't; Ruby on Rails café cafe CAFÉ. C++ running runners ran RUBY ON RAILS' node.js Node JS ΑΣΣ naïve react.JS they'll ŽIŽEK\nmanager managing management. on rails, Don’t.\n"
	r.Each("pairs", 6*6+6+6, func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		var args []string
		var st []stage
		switch i := c.Index; {
		case i < 36:
			args = []string{"-" + names[i/6], "-" + names[i%6]}
			st = []stage{cliFlags[names[i/6]], cliFlags[names[i%6]]}
		case i < 42:
			args = []string{"-" + names[i-36]}
			st = []stage{cliFlags[names[i-36]]}
		default:
			args = []string{"-stem", "-lang", cliLangs[i-42]}
			st = []stage{stemStages[i-42]}
		}
		args = append(args, "-lines")
		text := rich + foreign
		res, ok := cli(c, path, dir, feed{kind: "pipe", data: text}, nil, args...)
		if !ok {
			return
		}
		want, _, n := expected(text, false, false, true, st)
		if res.Exit != 0 || res.Out != want {
			c.Fail("exit %d, the output %s", res.Exit, textDiff(want, res.Out))
		}
		c.See("tokens", n)
		c.Distinct(strings.Join(args, " "))
	})
}

// fault is one way for an invocation to fail.
type fault struct {
	name    string
	refused bool // by its arguments: an existing output file is left alone
}

func checkCLIFaults(r *mon.Run, g *mon.Gen) {
	r.Rule("Fault enumeration: every way an invocation can fail (missing or unreadable input, two inputs, unknown flag, language or value, an over-long word, a reset input connection, an output which cannot be created, a full device or a file size limit at each of many offsets, a closed pipe), crossed with random flags and inputs. The oracle requires a non-zero exit status and a message (or death by signal, for a closed pipe or size limit), no crash, no false success, no output beyond a prefix of the right one, and, where the arguments are at fault, an existing output file left as it was. Non-trivial: every case injects a fault; distinct by fault, arguments and input.")
	path := exe(r, "jargon")
	if path == "" {
		return
	}
	kinds := []string{
		"missing file", "missing directory", "directory as file", "file and pipe", "file and redirected file", "directory as stdin", "reset connection",
		"unknown flag", "bad value", "missing value", "unknown language",
		"word too long",
		"out in missing directory", "out is a directory", "out is full", "stdout is full", "stdout is closed pipe", "out file size limit",
	}
	r.Each("faults", len(kinds)*r.Cases(60, 800), func(c *mon.Case) {
		rng := c.Rng
		kind := kinds[c.Index%len(kinds)]
		c.Note("fault", kind)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		args, html, count, lines, stages := invocation(rng)
		text := ""
		switch rng.IntN(4) {
		case 0:
			text = g.Prose(rng, 1+rng.IntN(2000))
		case 1:
			n := mon.Pick(rng, cliSizes)
			text = g.Big(rng, n)[:n]
		default:
			text = g.Text(rng, 1+rng.IntN(30))
		}
		if longestWord(text) > wordLimit {
			text = "plain words"
		}
		text += " end"
		in := feed{kind: mon.Pick(rng, []string{"pipe", "file"}), data: text}
		file := filepath.Join(dir, "in.txt")
		useFile := func() {
			os.WriteFile(file, []byte(text), 0o644)
			in = feed{kind: "null"}
			args = append(args, "-file", file)
		}
		either := func() {
			if rng.IntN(2) == 0 {
				useFile()
			}
		}
		const before = "what was there before\n"
		out := filepath.Join(dir, "out.txt")
		haveOut := false
		addOut := func() {
			if rng.IntN(3) > 0 {
				os.WriteFile(out, []byte(before), 0o644)
				args = append(args, "-out", out)
				haveOut = true
			}
		}
		refused := false // by the arguments alone
		signal := false  // death by signal is fine
		partial := false // some output may be there already
		var stdout *os.File
		var bin = path
		switch kind {
		case "missing file":
			in = feed{kind: "null"}
			args = append(args, "-file", filepath.Join(dir, "nope.txt"))
			refused = true
			addOut()
		case "missing directory":
			in = feed{kind: "null"}
			args = append([]string{"-file=" + filepath.Join(dir, "no", "such", "in.txt")}, args...)
			refused = true
			addOut()
		case "directory as file":
			in = feed{kind: "null"}
			args = append(args, "-file", dir)
			partial = true
			addOut()
		case "file and pipe", "file and redirected file":
			os.WriteFile(file, []byte(text), 0o644)
			args = append(args, "-file", file)
			in.kind = "pipe"
			if kind != "file and pipe" {
				in.kind = "file"
			}
			refused = true
			addOut()
		case "directory as stdin":
			in.kind = "dir"
			partial = true
			addOut()
		case "reset connection":
			in.kind = "reset"
			partial = true
			addOut()
		case "unknown flag":
			either()
			bad := mon.Pick(rng, []string{"-nope", "--lemma", "-stacks", "-Stack", "-outt=x", "-lemmas-", "-s"})
			at := 0
			args = append(args[:at], append([]string{bad}, args[at:]...)...)
			refused = true
			addOut()
		case "bad value":
			either()
			args = append([]string{mon.Pick(rng, []string{"-count=maybe", "-html=2", "-stack=yes", "-stem=", "-lines=on", "-distinct=tru"})}, args...)
			refused = true
			addOut()
		case "missing value":
			in.kind = "pipe"
			addOut()
			args = append(args, mon.Pick(rng, []string{"-file", "-lang", "-out", "--file"}))
			refused = true
		case "unknown language":
			either()
			bad := mon.Pick(rng, []string{"klingon", "English", "german", "en", "englis", "english ", "русский", "stem", "-stem"})
			var rest []string
			for i := 0; i < len(args); i++ {
				if args[i] == "-lang" {
					i++
					continue
				}
				if !strings.HasPrefix(args[i], "-lang=") && !strings.HasPrefix(args[i], "-stem=false") {
					rest = append(rest, args[i])
				}
			}
			args = rest
			extra := []string{"-stem", "-lang=" + bad}
			switch rng.IntN(6) {
			case 0, 1:
				extra = []string{"-lang=" + bad, "--stem"}
			case 2:
				extra = []string{"-lang", bad, "-stem"}
			case 3:
				extra = []string{"-stem", "--lang", bad}
			}
			if rng.IntN(2) == 0 {
				args = append(args, extra...)
			} else {
				args = append(extra, args...)
			}
			refused = true
			addOut()
		case "word too long":
			n := 70000 + rng.IntN(100000)
			text = strings.ReplaceAll(text, "<", "(") // not inside of markup
			text += " " + strings.Repeat(mon.Pick(rng, []string{"a", "é", "7", "_"}), n) + " after"
			in.data = text
			either()
			partial = true
			addOut()
		case "out in missing directory":
			either()
			args = append(args, "-out", filepath.Join(dir, "no", "such", "out.txt"))
		case "out is a directory":
			either()
			args = append(args, "-out", dir)
		case "out is full":
			either()
			full := filepath.Join(dir, "full")
			if err := os.Symlink("/dev/full", full); err != nil {
				c.Internal("%v", err)
				return
			}
			args = append(args, "-out", full)
		case "stdout is full":
			either()
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				c.Internal("%v", err)
				return
			}
			defer f.Close()
			stdout = f
		case "stdout is closed pipe":
			either()
			pr, pw, err := os.Pipe()
			if err != nil {
				c.Internal("%v", err)
				return
			}
			pr.Close()
			defer pw.Close()
			stdout = pw
			signal = true
		case "out file size limit":
			either()
			args = append(args, "-out", out)
			partial = true
			signal = true
		}
		want, alt, _ := expected(text, html, count, lines, stages)
		failing := map[string]bool{"out is full": true, "stdout is full": true, "stdout is closed pipe": true, "out file size limit": true}
		limit := 0
		if failing[kind] && want == "" {
			return // nothing to write
		}
		if kind == "out file size limit" {
			// the shell's unit is 512 or 1024 bytes; set the limit by prlimit instead
			limit = rng.IntN(len(want))
			if rng.IntN(3) == 0 {
				limit = min(len(want)-1, mon.Pick(rng, []int{0, 1, 4095, 4096, 4097, 65536, 1 << 20}))
			}
			c.Note("limit", fmt.Sprint(limit))
			self := filepath.Join(dirOf(path), "vmon")
			args = append([]string{"-limitfsize", fmt.Sprint(limit), path}, args...)
			bin = self
		}
		c.NoteQ("input", text)
		in.env = environment(rng, g)
		res, ok := cli(c, bin, dir, in, stdout, args...)
		if !ok {
			return
		}
		switch {
		case res.Exit == 0:
			c.Fail("%s: exit status 0", kind)
			return
		case res.Signal && !signal:
			c.Fail("%s: died by a signal", kind)
		case !res.Signal && strings.TrimSpace(res.Err) == "":
			c.Fail("%s: no message", kind)
		case strings.Contains(res.Err, "goroutine ") || strings.Contains(res.Err, "panic:") || strings.Contains(res.Err, "fatal error:"):
			if !(signal && strings.Contains(res.Err, "SIG")) {
				c.Fail("%s: crashes", kind)
			}
		}
		if haveOut {
			b, err := os.ReadFile(out)
			if refused && (err != nil || string(b) != before) {
				c.Fail("%s: the output file, which existed, was changed to %.100q (%v)", kind, b, err)
			}
			if !refused && string(b) != before && !strings.HasPrefix(want, string(b)) && !strings.HasPrefix(alt, string(b)) {
				c.Fail("%s: the output file %s", kind, textDiff(want, string(b)))
			}
		} else if kind == "out file size limit" {
			b, _ := os.ReadFile(out)
			if len(b) > limit {
				c.Internal("the limit of %d does not work: %d", limit, len(b))
			}
			if !strings.HasPrefix(want, string(b)) && !strings.HasPrefix(alt, string(b)) {
				c.Fail("%s: the output file %s", kind, textDiff(want, string(b)))
			}
		}
		if res.Out != "" {
			if !partial {
				c.Fail("%s: writes %.100q to standard output", kind, res.Out)
			} else if !strings.HasPrefix(want, res.Out) && !strings.HasPrefix(alt, res.Out) {
				c.Fail("%s: the output %s", kind, textDiff(want, res.Out))
			}
		}
		c.See("fault: "+kind, 1)
		if res.Signal {
			c.See("died_by_signal", 1)
		}
		c.Distinct(kind, strings.Join(args, "\x00"), text)
		c.Sample(map[string]any{"fault": kind, "args": args, "exit": res.Exit, "stderr": fmt.Sprintf("%.120q", res.Err)})
	})
	// nothing to read: usage, no output file
	r.Each("no-input", 40, func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		args, _, _, _, _ := invocation(c.Rng)
		out := filepath.Join(dir, "out.txt")
		os.WriteFile(out, []byte("before"), 0o644)
		args = append(args, "-out", out)
		res, ok := cli(c, path, dir, feed{kind: "null"}, nil, args...)
		if !ok {
			return
		}
		if res.Out != "" || res.Err == "" {
			c.Fail("without input: standard output %.100q, standard error %.100q", res.Out, res.Err)
		}
		if b, err := os.ReadFile(out); err != nil || string(b) != "before" {
			c.Fail("without input, the output file is changed")
		}
		c.Distinct(strings.Join(args, " "))
	})
}

func dirOf(p string) string { return filepath.Dir(p) }

// limitFsize sets the file size limit and becomes the given command.
func limitFsize(limit string, argv []string) {
	n, err := strconv.ParseUint(limit, 10, 63)
	if err == nil {
		err = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	if err == nil {
		err = syscall.Exec(argv[0], argv, os.Environ())
	}
	fmt.Fprintln(os.Stderr, "limit:", err)
	os.Exit(99)
}

// cliMemory watches the resident memory of the command on inputs of two sizes.
func cliMemory(r *mon.Run) {
	path := exe(r, "jargon")
	if path == "" {
		return
	}
	modes := [][]string{{}, {"-lines"}, {"-count"}, {"-stack"}, {"-html"}, {"-html", "-stack", "-lemmas", "-lines"}, {"-distinct", "-lines"}, {"-file"}, {"-file", "-stack", "-out"}, {"-ascii", "-contractions"}, {"-stem"}}
	small, large := 1<<20, r.Scale(20<<20, 160<<20)
	r.EachN("command-memory", len(modes), 6, func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		unit := "We're looking for Ruby on Rails developers, with cafés <b>and</b> C++ &amp; node.js.\nDon't stop!  "
		run := func(n int) int {
			data := strings.Repeat(unit, n/len(unit)+1)
			in := feed{kind: "pipe", data: data}
			var args []string
			for _, a := range modes[c.Index] {
				switch a {
				case "-file":
					p := filepath.Join(dir, "in.txt")
					if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
						c.Internal("%v", err)
					}
					args = append(args, "-file", p)
					in = feed{kind: "null"}
				case "-out":
					args = append(args, "-out", filepath.Join(dir, "out.txt"))
				default:
					args = append(args, a)
				}
			}
			null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
			if err != nil {
				c.Internal("%v", err)
				c.Abort()
			}
			defer null.Close()
			in.watch = true
			res, ok := cli(c, path, dir, in, null, args...)
			if !ok {
				c.Abort()
			}
			if res.Exit != 0 {
				c.Fail("exit status %d", res.Exit)
				c.Abort()
			}
			return res.MaxRSS << 10
		}
		big := large
		if strings.Contains(strings.Join(modes[c.Index], " "), "-stem") {
			big = large / 2 // slow
		}
		a, b := run(small), run(big)
		if a == 0 || b == 0 {
			c.Internal("no memory readings")
			return
		}
		c.Max("max_command_rss", b)
		c.Max("max_command_rss_growth", b-a)
		c.See("command_bytes", small+big)
		if b-a > 18<<20 {
			c.Fail("the command's memory grows with its input: %d bytes for %d, %d for %d", a, small, b, big)
		}
		c.Distinct(strings.Join(modes[c.Index], " "))
	})
}
