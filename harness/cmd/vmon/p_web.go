package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	xhtml "golang.org/x/net/html"
	"verif/mon"
)

//
// C23: the web server
//

type server struct {
	cmd  *exec.Cmd
	port int
	errs *tail
	logs string
	done chan struct{}
}

func (s *server) url(p string) string { return fmt.Sprintf("http://127.0.0.1:%d%s", s.port, p) }

func (s *server) alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) stop() {
	s.cmd.Process.Kill()
	<-s.done
}

// serve starts the server binary on a free port. ready, if false, returns as soon as it accepts connections.
func serve(r *mon.Run, path, dir, logs string) *server {
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			r.Internal("%v", err)
			return nil
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s := &server{port: port, errs: &tail{}, logs: logs, done: make(chan struct{})}
		s.cmd = exec.Command(path)
		s.cmd.Dir = dir
		s.cmd.Env = append(os.Environ(), fmt.Sprintf("PORT=%d", port), "GORACE=log_path="+logs+" halt_on_error=0 exitcode=0")
		s.cmd.Stderr = s.errs
		if err := s.cmd.Start(); err != nil {
			r.Internal("%v", err)
			return nil
		}
		go func() { s.cmd.Wait(); close(s.done) }()
		for i := 0; i < 3000 && s.alive(); i++ {
			c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
			if err == nil {
				c.Close()
				return s
			}
			time.Sleep(10 * time.Millisecond)
		}
		if s.alive() {
			s.stop()
			r.Violate("start", "the server does not listen on PORT=%d", port)
			return nil
		}
		// another process took the port: try again
	}
	r.Violate("start", "the server does not start")
	return nil
}

// segment is a run of plain text, or a lemma.
type segment struct {
	text  string
	lemma bool
}

// segments merges adjacent plain tokens.
func segments(ts []tok) (out []segment) {
	for _, t := range ts {
		v := strings.ReplaceAll(t.V, "\x00", "\ufffd")
		if t.Lemma {
			out = append(out, segment{v, true})
			continue
		}
		if n := len(out); n > 0 && !out[n-1].lemma {
			out[n-1].text += v
		} else {
			out = append(out, segment{v, false})
		}
	}
	return
}

// parseResponse reads the marked-up response: lemma spans and escaped text, nothing else.
func parseResponse(body string) (out []segment, err error) {
	const open, shut = `<span class="lemma">`, `</span>`
	rest := body
	plain := func(s string) error {
		if strings.ContainsAny(s, "<>") {
			return fmt.Errorf("unescaped markup in %.100q", s)
		}
		return nil
	}
	for rest != "" {
		i := strings.Index(rest, open)
		if i < 0 {
			i = len(rest)
		}
		if i > 0 {
			if err := plain(rest[:i]); err != nil {
				return nil, err
			}
			out = append(out, segment{xhtml.UnescapeString(rest[:i]), false})
			rest = rest[i:]
			continue
		}
		rest = rest[len(open):]
		j := strings.Index(rest, shut)
		if j < 0 {
			return nil, fmt.Errorf("unclosed lemma %.100q", rest)
		}
		if err := plain(rest[:j]); err != nil {
			return nil, err
		}
		out = append(out, segment{xhtml.UnescapeString(rest[:j]), true})
		rest = rest[j+len(shut):]
	}
	return out, nil
}

func segmentDiff(want, got []segment) string {
	n := min(len(want), len(got))
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			return fmt.Sprintf("segment %d: want lemma=%v %.200q, got lemma=%v %.200q", i, want[i].lemma, want[i].text, got[i].lemma, got[i].text)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d segments, got %d", len(want), len(got))
	}
	return ""
}

// dribble delivers a body in pieces.
type dribble struct {
	rest  string
	sizes []int
	i     int
	sleep bool
}

func (d *dribble) Read(p []byte) (int, error) {
	if d.rest == "" {
		return 0, io.EOF
	}
	n := min(len(p), max(1, d.sizes[d.i%len(d.sizes)]))
	if d.sleep && d.i < 20 {
		time.Sleep(time.Millisecond)
	}
	d.i++
	n = copy(p[:n], d.rest)
	d.rest = d.rest[n:]
	return n, nil
}

func corsOf(h http.Header) string {
	if h.Get("Access-Control-Allow-Origin") != "*" {
		return fmt.Sprintf("Access-Control-Allow-Origin is %q", h.Get("Access-Control-Allow-Origin"))
	}
	if !strings.Contains(h.Get("Access-Control-Allow-Headers"), "X-Requested-With") {
		return fmt.Sprintf("Access-Control-Allow-Headers is %q", h.Get("Access-Control-Allow-Headers"))
	}
	return ""
}

var webHeaders = [][]string{
	{"Content-Type", "text/plain", "text/html; charset=iso-8859-1", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/json", "nonsense"},
	{"Origin", "https://example.com", "null"},
	{"X-Requested-With", "XMLHttpRequest"},
	{"Accept", "text/html", "application/json", "*/*", "image/png;q=0.1"},
	{"Accept-Encoding", "identity", "br", "deflate"},
	{"Accept-Language", "fr", "en-US"},
	{"Accept-Charset", "iso-8859-1"},
	{"Range", "bytes=0-3", "bytes=-1"},
	{"If-None-Match", "*", "\"x\""},
	{"If-Modified-Since", "Mon, 02 Jan 2006 15:04:05 GMT", "Fri, 01 Jan 2100 00:00:00 GMT"},
	{"Cache-Control", "no-cache", "only-if-cached"},
	{"User-Agent", "", "Googlebot", "curl/8"},
	{"Cookie", "a=b"},
	{"Authorization", "Basic eDp5"},
	{"X-HTTP-Method-Override", "GET", "OPTIONS"},
	{"Forwarded", "for=127.0.0.1"},
	{"Upgrade-Insecure-Requests", "1"},
	{"Expect", "100-continue"},
}

func webBody(r *rand.Rand, g *mon.Gen, html bool) string {
	var s string
	switch k := r.IntN(12); {
	case k == 0:
		return ""
	case html && k < 8:
		s = genHTML(r, g, 1+r.IntN(20))
	case k < 4:
		s = g.Prose(r, r.IntN(3000))
	case k < 6:
		s = g.Text(r, 1+r.IntN(100)) + " <b>\"Ruby on Rails\"</b> & 'C#' C++ &amp; &lt;script>alert(1)</script> <span class=\"lemma\">fake</span>"
	default:
		s = g.Any(r)
	}
	if r.IntN(3) == 0 {
		s = fmt.Sprintf("%d ", r.Uint64()) + s + " Rails, ObjC and react  native "
	}
	if longestWord(s) > wordLimit {
		s = "plain"
	}
	return s
}

// sibling is one of a family of bodies of the same length which differ in one word only.
func sibling(c *mon.Case, r *rand.Rand, g *mon.Gen, server int) string {
	family := r.IntN(6)
	fr := mon.NewRng(c.Seed, "C23", "family", fmt.Sprint(server, family))
	n := []int{10, 200, 1300, 5000, 20000, 70000}[family]
	base := g.Prose(fr, n)
	at := []int{0, len(base) / 2, len(base), len(base)}[r.IntN(4)]
	for at > 0 && at < len(base) && base[at] != ' ' {
		at--
	}
	word := mon.Pick(r, []string{" Rails ", " rails ", " React ", " Oaths ", " JSON  ", " <b>  ", " &lt; x"})
	word = (word + "      ")[:7]
	s := base[:at] + word + base[at:]
	if longestWord(s) > wordLimit {
		return "plain"
	}
	return s
}

func checkWeb(r *mon.Run, g *mon.Gen) {
	r.Rule("The real server, built from the tree with and without the race detector, is started on a free port and gets concurrent requests (its very first ones all at once) of generated bodies, whole, chunked, dribbled, truncated and with over-long words, on all routes and methods. Every response is parsed into escaped text and lemma spans and compared with the reference for its own request; status, cross-origin headers, failures, race reports and the survival of the process are monitored. Non-trivial: a request with a body; distinct by route and body.")
	client := &http.Client{Timeout: 200 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 64}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

	builds := []string{"web.race", "web"}
	starts := r.Scale(3, 8)
	perStart := r.Scale(500, 2500)
	r.Serial("servers", starts*len(builds), func(sc *mon.Case) {
		name := builds[sc.Index%2]
		path := exe(r, name)
		if path == "" {
			return
		}
		dir := scratch(sc)
		defer os.RemoveAll(dir)
		logs := filepath.Join(dir, "race")
		srv := serve(r, path, dir, logs)
		if srv == nil {
			return
		}
		defer srv.stop()
		var dead int32
		var requests, tokens int64
		lost := func(c *mon.Case, err error) {
			// did the server die?
			time.Sleep(300 * time.Millisecond)
			if !srv.alive() {
				if atomic.CompareAndSwapInt32(&dead, 0, 1) {
					c.Note("stderr", srv.errs.String())
					c.Fail("the server died: %.500s", srv.errs.String())
				}
				return
			}
			c.Note("stderr", srv.errs.String())
			c.Fail("no response: %v", err)
		}
		one := func(c *mon.Case) {
			if atomic.LoadInt32(&dead) != 0 {
				return
			}
			rng := c.Rng
			atomic.AddInt64(&requests, 1)
			kind := rng.IntN(21)
			if c.Index < 64 {
				kind = 19 // all at once on the first use
			}
			switch kind {
			case 0: // other routes
				p := mon.Pick(rng, []string{"/", "/nope", "/texts", "/TEXT", "/htm", "/_ah", "/_ah/health/x", "/x/text", "/text.html", "/favicon.ico"})
				method := mon.Pick(rng, []string{"GET", "POST", "PUT"})
				c.Note("request", method+" "+p)
				req, _ := http.NewRequest(method, srv.url(p), nil)
				if method != "GET" {
					req, _ = http.NewRequest(method, srv.url(p), strings.NewReader("Ruby on Rails"))
				}
				resp, err := client.Do(req)
				if err != nil {
					lost(c, err)
					return
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				if resp.StatusCode != 404 {
					c.Fail("%s: status %d", p, resp.StatusCode)
				}
				if s := corsOf(resp.Header); s != "" {
					c.Fail("%s: %s", p, s)
				}
				c.See("not_found", 1)
			case 1: // preflight
				p := mon.Pick(rng, []string{"/text", "/html", "/", "/nope"})
				c.Note("request", "OPTIONS "+p)
				req, _ := http.NewRequest("OPTIONS", srv.url(p), nil)
				req.Header.Set("Origin", "https://example.com")
				resp, err := client.Do(req)
				if err != nil {
					lost(c, err)
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if resp.StatusCode/100 != 2 || len(b) != 0 {
					c.Fail("OPTIONS %s: status %d, body %.100q", p, resp.StatusCode, b)
				}
				if s := corsOf(resp.Header); s != "" {
					c.Fail("OPTIONS %s: %s", p, s)
				}
				c.See("preflights", 1)
			case 2: // health
				c.Note("request", "GET /_ah/health")
				resp, err := client.Get(srv.url("/_ah/health"))
				if err != nil {
					lost(c, err)
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if resp.StatusCode != 200 || string(b) != "ok" {
					c.Fail("health: status %d, body %.100q", resp.StatusCode, b)
				}
				if s := corsOf(resp.Header); s != "" {
					c.Fail("health: %s", s)
				}
				c.See("health", 1)
			case 3: // a word which is too long
				route := mon.Pick(rng, []string{"/text", "/html"})
				body := g.Text(rng, rng.IntN(20)) + " " + strings.Repeat("a", 70000+rng.IntN(60000)) + " Rails"
				body = strings.ReplaceAll(body, "<", " ")
				c.Note("request", "too long "+route)
				resp, err := client.Post(srv.url(route), "text/plain", strings.NewReader(body))
				if err != nil {
					lost(c, err)
					return
				}
				b, _ := io.ReadAll(resp.Body)
				resp.Body.Close()
				if resp.StatusCode/100 == 2 && strings.Count(string(b), "a") < 70000 {
					c.Fail("a text which cannot be tokenized gets status %d and %d bytes", resp.StatusCode, len(b))
				}
				if resp.StatusCode == 500 {
					c.See("server_errors", 1)
				}
				c.Distinct(route, body)
			case 20: // a client which goes away without reading its response
				route := mon.Pick(rng, []string{"/text", "/html"})
				body := strings.Repeat(fmt.Sprintf("private %d Rails ", rng.Uint64()), 1+rng.IntN(mon.Pick(rng, []int{10, 200, 1500, 1500, 12000})))
				c.Note("request", fmt.Sprintf("abandoned %s of %d bytes", route, len(body)))
				abandoned(srv.port, route, body, rng.IntN(3) == 0, time.Duration(rng.IntN(mon.Pick(rng, []int{1, 40})))*time.Millisecond)
				c.See("abandoned_requests", 1)
				c.Distinct(route, body)
			case 4: // a truncated body
				route := mon.Pick(rng, []string{"/text", "/html"})
				body := "Ruby on Rails " + g.Prose(rng, 10+rng.IntN(500))
				sent := rng.IntN(len(body))
				chunked := rng.IntN(2) == 0
				c.Note("request", fmt.Sprintf("truncated %s chunked=%v %d of %d", route, chunked, sent, len(body)))
				status, err := truncated(srv.port, route, body, sent, chunked)
				if err != nil {
					lost(c, err)
					return
				}
				if status/100 == 2 {
					c.Fail("a request whose body ends at byte %d of %d (chunked=%v) gets status %d", sent, len(body), chunked, status)
				}
				c.See("truncated_requests", 1)
				c.Distinct(route, body, fmt.Sprint(sent))
			default:
				html := rng.IntN(2) == 0
				route := "/text"
				if html {
					route = "/html"
				}
				body := webBody(rng, g, html)
				if rng.IntN(4) == 0 {
					body = sibling(c, rng, g, sc.Index)
					c.See("sibling_requests", 1)
				}
				if c.Index%50 == 49 {
					body = g.Big(rng, 100000+rng.IntN(300000))
					if longestWord(body) > wordLimit {
						body = "plain"
					}
				}
				if name == "web" && c.Index%100 == 90 {
					// beyond any reasonable buffer
					one := g.Prose(rng, 5000) + fmt.Sprintf(" Ruby on Rails %d\n", rng.Uint64())
					body = strings.Repeat(one, 1+(600000<<rng.IntN(4))/len(one))
					c.See("large_requests", 1)
				}
				if rng.IntN(6) == 0 {
					route += mon.Pick(rng, []string{"/", "/more", "?x=y", "?text=Rails&html=1", "?q=%zz"})
				}
				method := mon.Pick(rng, []string{"POST", "POST", "POST", "PUT", "PATCH", "DELETE", "GET"})
				c.Note("request", method+" "+route)
				c.NoteQ("body", body)
				var rd io.Reader = strings.NewReader(body)
				if rng.IntN(3) == 0 && body != "" {
					rd = &dribble{rest: body, sizes: []int{1 + g.Len(rng, 5000), 1 + rng.IntN(200)}, sleep: rng.IntN(4) == 0}
				}
				req, _ := http.NewRequest(method, srv.url(route), rd)
				// what a client says of itself and its body makes no difference
				for _, h := range webHeaders {
					if rng.IntN(3*len(webHeaders)/2) == 0 {
						req.Header.Set(h[0], h[1+rng.IntN(len(h)-1)])
					}
				}
				if rng.IntN(20) == 0 {
					req.Close = true
				}
				c.Note("headers", fmt.Sprintf("%q", req.Header))
				resp, err := client.Do(req)
				if err != nil {
					lost(c, err)
					return
				}
				b, err := io.ReadAll(resp.Body)
				resp.Body.Close()
				if err != nil {
					lost(c, err)
					return
				}
				if resp.StatusCode != 200 {
					c.Fail("status %d on a valid request", resp.StatusCode)
					return
				}
				if s := corsOf(resp.Header); s != "" {
					c.Fail("%s", s)
				}
				got, err := parseResponse(string(b))
				if err != nil {
					c.Fail("%v", err)
					return
				}
				var in, alt []tok
				if html {
					in, alt = refHTML(body)
				} else {
					in = refText(body)
				}
				out, _ := soModel.apply(in)
				d := segmentDiff(segments(out), got)
				if d != "" && alt != nil {
					out, _ := soModel.apply(alt)
					if segmentDiff(segments(out), got) == "" {
						d = ""
					}
				}
				if d != "" {
					c.NoteQ("response", string(b))
					c.Fail("%s: %s", route, d)
				}
				atomic.AddInt64(&tokens, int64(len(out)))
				c.See("tokens", len(out))
				for _, s := range got {
					if s.lemma {
						c.See("lemmas", 1)
					}
				}
				if body != "" {
					c.Distinct(route, body)
				}
				c.Sample(map[string]any{"route": route, "bytes": len(body), "response_bytes": len(b)})
			}
			c.See("requests_"+name, 1)
		}
		finished := make(chan bool)
		if sc.Index == 1 {
			// beside the others, clients which take their time, or are of another age
			go func() {
				defer close(finished)
				r.EachN("old clients", r.Cases(60, 600), 8, func(c *mon.Case) {
					oldClient(c, g, srv.port, lost)
				})
				r.EachN("slow clients", 12, 12, func(c *mon.Case) {
					slowClient(c, g, srv.port, lost)
				})
			}()
		} else {
			close(finished)
		}
		r.EachN(fmt.Sprintf("requests-%d", sc.Index), perStart, 32, one)
		<-finished
		// it is still there, and answers
		if srv.alive() {
			resp, err := client.Get(srv.url("/_ah/health"))
			if err != nil {
				sc.Fail("after %d requests the server does not answer: %v", requests, err)
			} else {
				resp.Body.Close()
			}
		} else if atomic.LoadInt32(&dead) == 0 {
			sc.Note("stderr", srv.errs.String())
			sc.Fail("the server died: %.500s", srv.errs.String())
		}
		client.CloseIdleConnections()
		srv.stop()
		files, _ := filepath.Glob(logs + ".*")
		for _, f := range files {
			b, _ := os.ReadFile(f)
			for _, s := range raceReports(string(b)) {
				sc.Note("race", s)
				sc.Fail("data race: %.900s", s)
			}
		}
		sc.See("servers_"+name, 1)
		sc.Distinct(name, fmt.Sprint(sc.Index))
	})
}

// abandoned sends a whole request, reads at most the beginning of the response, and resets the connection.
func abandoned(port int, route, body string, begin bool, wait time.Duration) {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(200 * time.Second))
	conn.(*net.TCPConn).SetReadBuffer(2048)
	if _, err := fmt.Fprintf(conn, "POST %s HTTP/1.1\r\nHost: localhost\r\nContent-Length: %d\r\n\r\n%s", route, len(body), body); err != nil {
		return
	}
	if begin {
		// the response has begun: the rest of it cannot be delivered any more
		var b [64]byte
		conn.Read(b[:])
	}
	time.Sleep(wait)
	conn.(*net.TCPConn).SetLinger(0)
}

// oldClient speaks an older, or unusual, form of the protocol.
func oldClient(c *mon.Case, g *mon.Gen, port int, lost func(*mon.Case, error)) {
	body := fmt.Sprintf("%d Ruby on Rails ", c.Rng.Uint64()) + g.Prose(c.Rng, 1+c.Rng.IntN(200))
	if c.Rng.IntN(3) == 0 {
		body = strings.Repeat(body+"\n", 1+c.Rng.IntN(300000)/len(body))
	}
	head := fmt.Sprintf("POST /text HTTP/1.0\r\nContent-Length: %d\r\n", len(body))
	kind := []string{"HTTP/1.0", "HTTP/1.0 with host", "HTTP/1.0 keep-alive", "bare line ends", "lower case", "expecting", "absolute URL", "query", "other method"}[c.Index%9]
	switch kind {
	case "HTTP/1.0 with host":
		head += "Host: example.org:80\r\n"
	case "HTTP/1.0 keep-alive":
		head += "Connection: keep-alive\r\n"
	case "bare line ends":
		head = strings.ReplaceAll(head, "\r\n", "\n")
	case "lower case":
		head = fmt.Sprintf("POST /text HTTP/1.1\r\nhost: x\r\nconnection: close\r\ncontent-length: %d\r\n", len(body))
	case "expecting":
		head = fmt.Sprintf("POST /text HTTP/1.1\r\nHost: x\r\nConnection: close\r\nExpect: 100-continue\r\nContent-Length: %d\r\n", len(body))
	case "absolute URL":
		head = fmt.Sprintf("POST http://localhost/text HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: %d\r\n", len(body))
	case "query":
		head = fmt.Sprintf("POST /text/?a=b&q=%%3Cscript%%3E HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: %d\r\n", len(body))
	case "other method":
		head = fmt.Sprintf("%s /text HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: %d\r\n", mon.Pick(c.Rng, []string{"PUT", "PATCH", "REPORT", "GET", "DELETE"}), len(body))
	}
	c.Note("request", kind)
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		lost(c, err)
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(200 * time.Second))
	end := "\r\n"
	if kind == "bare line ends" {
		end = "\n"
	}
	if _, err := io.WriteString(conn, head+end+body); err != nil {
		lost(c, err)
		return
	}
	rd := bufio.NewReader(conn)
	resp, err := http.ReadResponse(rd, nil)
	if err == nil && resp.StatusCode == 100 {
		resp, err = http.ReadResponse(rd, nil)
	}
	if err != nil {
		lost(c, err)
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		lost(c, err)
		return
	}
	if resp.StatusCode != 200 {
		c.Fail("status %d on a valid request, %s", resp.StatusCode, kind)
		return
	}
	got, err := parseResponse(string(b))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	out, _ := soModel.apply(refText(body))
	if d := segmentDiff(segments(out), got); d != "" {
		c.Fail("%s: %s", kind, d)
	}
	c.See("old_requests", 1)
	c.Distinct(kind, body)
}

// slowClient pauses while it sends its request, or before it reads the response.
func slowClient(c *mon.Case, g *mon.Gen, port int, lost func(*mon.Case, error)) {
	pause := []time.Duration{2500 * time.Millisecond, 6 * time.Second, 12 * time.Second, 16 * time.Second}[c.Index%4]
	where := []string{"in the headers", "in the body", "before reading"}[c.Index/4%3]
	c.Note("request", fmt.Sprintf("paused for %s %s", pause, where))
	body := fmt.Sprintf("%d Ruby on Rails ", c.Rng.Uint64()) + g.Prose(c.Rng, 200)
	if where == "before reading" {
		body = strings.Repeat(body+"\n", 8<<20/len(body)) // more than the connection holds
	}
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		lost(c, err)
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(200 * time.Second))
	req := fmt.Sprintf("POST /text HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(body), body)
	at := map[string]int{"in the headers": 20, "in the body": len(req) - len(body)/2, "before reading": len(req)}[where]
	if _, err := io.WriteString(conn, req[:at]); err != nil {
		lost(c, err)
		return
	}
	time.Sleep(pause)
	if _, err := io.WriteString(conn, req[at:]); err != nil {
		lost(c, err)
		return
	}
	resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		lost(c, err)
		return
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		lost(c, err)
		return
	}
	if resp.StatusCode != 200 {
		c.Fail("status %d on a valid request, paused for %s %s", resp.StatusCode, pause, where)
		return
	}
	got, err := parseResponse(string(b))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	out, _ := soModel.apply(refText(body))
	if d := segmentDiff(segments(out), got); d != "" {
		c.Fail("paused for %s %s: %s", pause, where, d)
	}
	c.See("slow_requests", 1)
	c.Distinct(body)
}

// truncated sends a request whose body ends early, and returns the status of the response.
func truncated(port int, route, body string, sent int, chunked bool) (int, error) {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 20*time.Second)
	if err != nil {
		return 0, err
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(200 * time.Second))
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n", route)
	if chunked {
		fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(body), body[:sent])
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body[:sent])
	}
	if _, err := conn.Write(b.Bytes()); err != nil {
		return 0, err
	}
	conn.(*net.TCPConn).CloseWrite()
	resp, err := io.ReadAll(conn)
	if err != nil {
		return 0, err
	}
	f := strings.Fields(string(resp))
	if len(f) < 2 {
		return 0, fmt.Errorf("response %.100q", resp)
	}
	return strconv.Atoi(f[1])
}
