package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"html"
	"io"
	"math/big"
	"math/rand/v2"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"verif/mon"
)

//
// C28, C29, C30: the dictionary generators
//

const previously = "package previous\n\n// the dictionary which was there before\n"

// generated parses a generated dictionary.
func generated(path, pkg string) (map[string]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f, err := parser.ParseFile(token.NewFileSet(), path, b, parser.AllErrors)
	if err != nil {
		return nil, fmt.Errorf("not valid Go: %v", err)
	}
	if f.Name.Name != pkg {
		return nil, fmt.Errorf("package %s, want %s", f.Name.Name, pkg)
	}
	if out, err := format.Source(b); err != nil || string(out) != string(b) {
		return nil, fmt.Errorf("not formatted (%v)", err)
	}
	var lit *ast.CompositeLit
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, s := range g.Specs {
			v, ok := s.(*ast.ValueSpec)
			if ok && len(v.Names) == 1 && v.Names[0].Name == "mappings" && len(v.Values) == 1 {
				lit, _ = v.Values[0].(*ast.CompositeLit)
			}
		}
	}
	if lit == nil {
		return nil, fmt.Errorf("no mappings")
	}
	m := map[string]string{}
	for _, e := range lit.Elts {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return nil, fmt.Errorf("element %T", e)
		}
		k, ok1 := kv.Key.(*ast.BasicLit)
		v, ok2 := kv.Value.(*ast.BasicLit)
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("element %T: %T", kv.Key, kv.Value)
		}
		ks, err1 := strconv.Unquote(k.Value)
		vs, err2 := strconv.Unquote(v.Value)
		if err1 != nil || err2 != nil {
			return nil, fmt.Errorf("element %s: %s", k.Value, v.Value)
		}
		if _, dup := m[ks]; dup {
			return nil, fmt.Errorf("duplicate key %q", ks)
		}
		m[ks] = vs
	}
	return m, nil
}

// flat maps each single synonym to its canonical term.
func flat(m map[string]string) (map[string]string, error) {
	out := map[string]string{}
	for k, v := range m {
		for _, s := range strings.Split(k, ",") {
			s = strings.TrimSpace(s)
			if s == "" {
				continue
			}
			if old, ok := out[s]; ok && old != v {
				return nil, fmt.Errorf("%q maps to both %q and %q", s, old, v)
			}
			out[s] = v
		}
	}
	return out, nil
}

func mapDiff(want, got map[string]string) string {
	var d []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			d = append(d, fmt.Sprintf("missing %q → %q", k, v))
		} else if g != v {
			d = append(d, fmt.Sprintf("%q → %q, want %q", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			d = append(d, fmt.Sprintf("unexpected %q → %q", k, v))
		}
	}
	sort.Strings(d)
	if len(d) > 6 {
		d = append(d[:6], fmt.Sprintf("and %d more", len(d)-6))
	}
	return strings.Join(d, "; ")
}

// generate runs a generator in dir, where a previous dictionary may be.
func generate(c *mon.Case, path, dir string, env []string) (code int, stderr string, ok bool) {
	out, errs, code, hung, err := spawnIn(dir, path, nil, env, 240*time.Second)
	_ = out
	if err != nil {
		c.Internal("%v", err)
		return 0, "", false
	}
	if hung {
		c.Note("stderr", errs)
		c.Fail("the generator does not finish")
		return 0, "", false
	}
	c.Note("exit", fmt.Sprint(code))
	c.Note("stderr", errs)
	return code, errs, true
}

func cleanEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch strings.ToUpper(k) {
		case "HTTP_PROXY", "HTTPS_PROXY", "NO_PROXY", "ALL_PROXY", "SSL_CERT_FILE", "SSL_CERT_DIR", "REQUEST_METHOD":
			continue
		}
		env = append(env, e)
	}
	return append(env, extra...)
}

// unchanged tells whether the previous dictionary is as it was.
func unchanged(dir string, had bool) string {
	b, err := os.ReadFile(filepath.Join(dir, "generated.go"))
	switch {
	case had && err != nil:
		return fmt.Sprintf("the previous dictionary is gone: %v", err)
	case had && string(b) != previously:
		return fmt.Sprintf("the previous dictionary was replaced by %.100q", b)
	case !had && err == nil:
		return fmt.Sprintf("a dictionary was written: %.100q", b)
	}
	return ""
}

func checkContractionsGenerator(r *mon.Run, g *mon.Gen) {
	r.Rule("The real generator is run in scratch directories (empty, with a previous dictionary longer or shorter than the new one) and with a failing output (a directory in its place, file size limits at many offsets). The file it writes is parsed as Go and its table compared with the documented contractions in every case and apostrophe; each entry is then fed through the shipped filter, which must agree; failures must not end in success. Non-trivial: every run; distinct by the setting.")
	path := exe(r, "gen-contractions")
	if path == "" {
		return
	}
	var reference string
	r.Serial("runs", r.Scale(12, 100), func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "generated.go")
		switch c.Index % 3 {
		case 1:
			os.WriteFile(p, []byte(previously), 0o644)
		case 2:
			os.WriteFile(p, []byte(strings.Repeat(previously, 2000)), 0o644)
		}
		code, _, ok := generate(c, path, dir, nil)
		if !ok {
			return
		}
		if code != 0 {
			c.Fail("exit status %d", code)
			return
		}
		m, err := generated(p, "contractions")
		if err != nil {
			c.Fail("%v", err)
			return
		}
		if d := mapDiff(contractionsTable, m); d != "" {
			c.Fail("%s", d)
		}
		b, _ := os.ReadFile(p)
		if reference == "" {
			reference = string(b)
		} else if string(b) != reference {
			c.Fail("two runs differ: %s", textDiff(reference, string(b)))
		}
		for _, k := range sortedKeys(m) {
			ts, err := jargon.TokenizeString(k).Filter(contractions.Expand).String()
			if err != nil || ts != m[k] {
				c.Fail("the generated entry %q → %q: the filter says %q (%v)", k, m[k], ts, err)
			}
		}
		c.See("entries", len(m))
		c.Distinct(fmt.Sprint(c.Index % 3))
		c.Sample(map[string]any{"entries": len(m), "bytes": len(b)})
	})
	r.Each("failures", r.Cases(40, 400), func(c *mon.Case) {
		dir := scratch(c)
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "generated.go")
		bin, args := path, []string(nil)
		if c.Index%4 == 0 {
			os.MkdirAll(filepath.Join(p, "x"), 0o755)
		} else {
			n := c.Rng.IntN(max(1, len(reference)))
			if len(reference) == 0 {
				n = c.Rng.IntN(1000)
			}
			bin, args = filepath.Join(dirOf(path), "vmon"), []string{"-limitfsize", fmt.Sprint(n), path}
			c.Note("limit", fmt.Sprint(n))
		}
		_, errs, code, hung, err := spawnIn(dir, bin, args, cleanEnv(), 240*time.Second)
		if err != nil || hung {
			c.Internal("%v %v", err, hung)
			return
		}
		c.Note("stderr", errs)
		if code == 0 {
			c.Fail("the dictionary could not be written, and the exit status is 0")
		}
		c.See("faults", 1)
		c.Distinct(fmt.Sprint(c.Index))
	})
}

//
// C29
//

type seTag struct {
	Name      string   `json:"name"`
	Synonyms  []string `json:"synonyms,omitempty"`
	Moderator bool     `json:"is_moderator_only"`
	Count     int      `json:"count"`
	Required  bool     `json:"is_required"`
}

var tagParts = []string{"ruby", "rails", "react", "native", "sql", "server", "c", "js", "net", "web", "api", "core", "angular", "2", "3.5", "python", "x", "data", "base", "html5", "css", "objective", "c++", "c#", "f#", ".net", "node.js", "vue.js", "asp.net", "t", "go", "1.x", "русский", "é"}

func tagName(r *rand.Rand, used map[string]bool) string {
	for {
		var p []string
		for i := 1 + r.IntN(3); i > 0; i-- {
			p = append(p, mon.Pick(r, tagParts))
		}
		s := strings.Join(p, "-")
		if r.IntN(4) == 0 {
			s += fmt.Sprintf("-%d", r.IntN(1000))
		}
		if !used[strings.ReplaceAll(s, "-", " ")] {
			used[strings.ReplaceAll(s, "-", " ")] = true
			return s
		}
	}
}

// tagFault is what goes wrong, at which page.
type tagFault struct {
	kind string
	page int
}

// tagPages makes the API's data and the expected flat dictionary.
func tagPages(r *rand.Rand, pages int) (out [][]seTag, want map[string]string) {
	want = map[string]string{}
	used := map[string]bool{}
	for _, s := range []string{"drop down", "drop-down", "datatable", "for", "this"} {
		used[s] = true
	}
	ignored := map[string]bool{"drop-down": true, "datatable": true, "for": true, "this": true}
	var seen []string // synonyms so far, which may be tags as well
	isSyn := map[string]bool{}
	for p := 0; p < pages; p++ {
		var tags []seTag
		n := 100
		if p == pages-1 {
			n = r.IntN(101)
		}
		if r.IntN(4) == 0 {
			n = r.IntN(30)
		}
		for i := 0; i < n; i++ {
			t := seTag{Name: tagName(r, used), Count: r.IntN(100000)}
			switch r.IntN(20) {
			case 0:
				t.Moderator = true
			case 1:
				if p > 0 || i > 0 {
					t.Name = mon.Pick(r, []string{"for", "this", "datatable"})
				}
			case 2:
				// a tag which was seen as a synonym: the synonym wins
				if len(seen) > 0 {
					t.Name = mon.Pick(r, seen)
				}
			}
			for k := r.IntN(4); k > 0; k-- {
				if r.IntN(10) == 0 {
					t.Synonyms = append(t.Synonyms, mon.Pick(r, []string{"drop-down", "datatable", "for", "this"}))
					continue
				}
				t.Synonyms = append(t.Synonyms, tagName(r, used))
			}
			dup := false
			for _, o := range tags {
				dup = dup || o.Name == t.Name
			}
			if dup {
				continue
			}
			tags = append(tags, t)
		}
		// synonyms, then names, page by page
		for _, t := range tags {
			if t.Moderator {
				continue
			}
			for _, s := range t.Synonyms {
				if !ignored[s] {
					k := strings.ReplaceAll(s, "-", " ")
					want[k] = t.Name
					isSyn[k] = true
				}
			}
		}
		for _, t := range tags {
			k := strings.ReplaceAll(t.Name, "-", " ")
			if t.Moderator || ignored[k] || isSyn[k] {
				continue
			}
			want[k] = t.Name
		}
		for _, t := range tags {
			if t.Moderator {
				continue
			}
			for _, s := range t.Synonyms {
				if !ignored[s] {
					seen = append(seen, s)
				}
			}
		}
		out = append(out, tags)
	}
	return out, want
}

func checkTagsGenerator(r *mon.Run, g *mon.Gen) {
	r.Rule("The real generator is run in a scratch directory against a local stand-in for the tags API (through an HTTP proxy), which serves generated pages of tags with synonyms, moderator tags, ignored terms and tags which are also synonyms. The file it writes is parsed as Go and its flattened table compared with the model, and fed to a synonyms filter; with a fault at any page (API error, bad JSON, truncated or refused response, excessive backoff, no answer), it must exit non-zero and leave a previous dictionary untouched. Non-trivial: every run; distinct by the pages served.")
	r.Assume("the API is the one in the generator at the pinned commit: http, with page, pagesize and has_more")
	path := exe(r, "gen-stackoverflow")
	if path == "" {
		return
	}
	one := func(c *mon.Case, pages int, fault tagFault) {
		data, want := tagPages(c.Rng, pages)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		var served, bad int64
		var hosts atomic.Value
		var again atomic.Pointer[time.Time] // when the next request is welcome
		var early atomic.Int64
		pause := 0
		if c.Index%4 == 3 && pages > 1 {
			pause = 1
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Internal("%v", err)
			return
		}
		release := make(chan struct{})
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			q := req.URL.Query()
			page, err1 := strconv.Atoi(q.Get("page"))
			size, err2 := strconv.Atoi(q.Get("pagesize"))
			if err1 != nil || err2 != nil || size < 1 || page < 1 || !strings.HasSuffix(req.URL.Path, "/tags") {
				atomic.AddInt64(&bad, 1)
				http.Error(w, "bad request", 400)
				return
			}
			hosts.Store(req.URL.Host)
			atomic.AddInt64(&served, 1)
			if was := again.Load(); was != nil && page > 1 {
				if d := time.Until(*was); d > 0 && early.CompareAndSwap(0, int64(d)) {
					c.Note("page", fmt.Sprint(page))
				}
			}
			body := map[string]any{"items": []seTag{}, "has_more": false, "quota_max": 300, "quota_remaining": 200}
			if page <= len(data) {
				body["items"] = data[page-1]
				body["has_more"] = page < len(data)
			}
			if pause > 0 && page == 1 {
				body["backoff"] = pause
				at := time.Now().Add(time.Duration(pause) * time.Second)
				again.Store(&at)
			}
			if c.Index%8 == 3 && page%2 == 1 {
				body["excerpt"] = strings.Repeat(mon.Pick(c.Rng, []string{"tags, and more. ", "[]{},\"", "Ž"}), 1+c.Rng.IntN(150000))
			}
			b, _ := json.Marshal(body)
			w.Header().Set("Content-Type", "application/json")
			if fault.page == page {
				switch fault.kind {
				case "api error":
					w.WriteHeader(400)
					b, _ = json.Marshal(map[string]any{"error_id": 502, "error_name": "throttle_violation", "error_message": "too many requests"})
				case "api error with status 200":
					b, _ = json.Marshal(map[string]any{"items": []seTag{}, "error_id": 502, "error_name": "throttle_violation", "error_message": "too many requests"})
				case "api error message only":
					b, _ = json.Marshal(map[string]any{"error_id": 500, "error_message": "internal error"})
				case "not json":
					b = []byte("<html>Service unavailable</html>")
					w.WriteHeader(503)
				case "half json":
					b = b[:len(b)/2]
				case "empty":
					b = nil
				case "truncated":
					w.Header().Set("Content-Length", fmt.Sprint(len(b)))
					w.Write(b[:len(b)/2])
					panic(http.ErrAbortHandler)
				case "trailing garbage":
					b = append(b, mon.Pick(c.Rng, []string{"\n<html>502 Bad Gateway</html>", "{}", "x", "\x00", "]", string(b)})...)
				case "truncated after the value":
					w.Header().Set("Content-Length", fmt.Sprint(len(b)+1+c.Rng.IntN(5000)))
					w.Write(b)
					w.(http.Flusher).Flush()
					panic(http.ErrAbortHandler)
				case "closed":
					panic(http.ErrAbortHandler)
				case "backoff":
					body["backoff"] = 11 + c.Rng.IntN(1000)
					body["has_more"] = true
					b, _ = json.Marshal(body)
				case "status only":
					b = mon.Pick(c.Rng, [][]byte{b, []byte("{}"), []byte(`{"items":[],"has_more":false}`), []byte("null")})
					w.WriteHeader(mon.Pick(c.Rng, []int{500, 502, 503, 504, 429, 403, 404, 401, 202}))
				case "wrong type":
					b = []byte(`{"items": "none", "has_more": false}`)
				case "no answer":
					select {
					case <-release:
					case <-req.Context().Done():
					}
					return
				}
			}
			w.Write(b)
		})}
		srv.ErrorLog = discardLog()
		go srv.Serve(l)
		defer srv.Close()
		defer close(release)

		had := c.Rng.IntN(3) > 0
		p := filepath.Join(dir, "generated.go")
		if had {
			os.WriteFile(p, []byte(previously), 0o644)
		}
		c.Note("pages", fmt.Sprint(pages))
		c.Note("fault", fmt.Sprint(fault))
		env := cleanEnv("HTTP_PROXY=http://"+l.Addr().String(), "http_proxy=http://"+l.Addr().String())
		code, errs, ok := generate(c, path, dir, env)
		for try := 0; ok && try < 4 && code != 0 && fault.page == 0 && (strings.Contains(errs, "Client.Timeout") || strings.Contains(errs, "deadline exceeded")); try++ {
			// a busy machine: the generator gives the API only seconds
			atomic.StoreInt64(&served, 0)
			code, errs, ok = generate(c, path, dir, env)
		}
		if !ok {
			return
		}
		if atomic.LoadInt64(&served) == 0 || atomic.LoadInt64(&bad) > 0 {
			c.Fail("the generator made %d requests which the API knows, and %d others: %.300s", served, bad, errs)
			return
		}
		c.See("pages_served", int(atomic.LoadInt64(&served)))
		if fault.page > 0 {
			if code == 0 {
				c.Fail("%s at page %d of %d: exit status 0", fault.kind, fault.page, pages)
			}
			if d := unchanged(dir, had); d != "" {
				c.Fail("%s at page %d of %d: %s", fault.kind, fault.page, pages, d)
			}
			c.See("fault: "+fault.kind, 1)
			c.Distinct(fault.kind, fmt.Sprint(c.Index))
			return
		}
		if code != 0 {
			c.Fail("exit status %d", code)
			return
		}
		m, err := generated(p, "stackoverflow")
		if err != nil {
			c.Fail("%v", err)
			return
		}
		got, err := flat(m)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		if d := mapDiff(want, got); d != "" {
			c.Fail("%s", d)
		}
		if d := early.Load(); d > 0 {
			c.Fail("the API asked for a pause of %d s, and the next request came %s before its end", pause, time.Duration(d))
		}
		if pause > 0 && pages > 1 {
			c.See("pauses", 1)
		}
		if n := int(atomic.LoadInt64(&served)); n != pages {
			c.Fail("%d pages were available, %d were fetched", pages, n)
		}
		// the table works: each synonym is recognized by a filter built on it
		f := synonyms.NewFilter(m, true, []rune{' ', '-', '.', '/'})
		model := newSynModel(m, true, []rune{' ', '-', '.', '/'})
		for i, k := range sortedKeys(want) {
			if i >= 60 || model.conflict {
				break
			}
			ref, _ := model.apply(refText(k))
			against(c, "generated table", f, refText(k), ref)
		}
		c.See("entries", len(got))
		c.Distinct(strings.Join(sortedKeys(want), ","))
		c.Sample(map[string]any{"pages": pages, "synonyms": len(want), "entries": len(m)})
	}
	r.EachN("dictionaries", r.Scale(60, 600), 16, func(c *mon.Case) {
		pages := 1 + c.Rng.IntN(4)
		if c.Index%20 == 0 {
			pages = 20
		}
		one(c, pages, tagFault{})
	})
	kinds := []string{"api error", "api error with status 200", "api error message only", "not json", "half json", "empty", "truncated", "closed", "backoff", "wrong type", "status only", "trailing garbage", "truncated after the value"}
	r.EachN("faults", len(kinds)*r.Scale(6, 40), 16, func(c *mon.Case) {
		pages := 1 + c.Index/len(kinds)%5
		one(c, pages, tagFault{kinds[c.Index%len(kinds)], 1 + c.Rng.IntN(pages)})
	})
	r.EachN("no-answer", r.Scale(2, 8), 8, func(c *mon.Case) {
		one(c, 2, tagFault{"no answer", 1 + c.Index%2})
	})
	r.Each("unwritable", r.Cases(16, 100), func(c *mon.Case) {
		data, _ := tagPages(c.Rng, 1)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		p := filepath.Join(dir, "generated.go")
		if c.Index%4 == 0 {
			// the dictionary's place is taken by a directory
			os.MkdirAll(filepath.Join(p, "x"), 0o755)
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Internal("%v", err)
			return
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			json.NewEncoder(w).Encode(map[string]any{"items": data[0], "has_more": false})
		})}
		go srv.Serve(l)
		defer srv.Close()
		env := cleanEnv("HTTP_PROXY=http://" + l.Addr().String())
		code, errs, ok := generate(c, path, dir, env)
		if !ok {
			return
		}
		if c.Index%4 == 0 {
			if code == 0 {
				c.Fail("the dictionary could not be written, and the exit status is 0")
			}
		} else if code == 0 {
			limitedWrite(c, path, dir, env)
		} else {
			c.Note("stderr", errs)
		}
		c.Distinct(fmt.Sprint(c.Index))
	})
}

// limitedWrite runs the generator again, after it has succeeded, where there is room for a part of the file only.
func limitedWrite(c *mon.Case, path, dir string, env []string) {
	p := filepath.Join(dir, "generated.go")
	fi, err := os.Stat(p)
	if err != nil || fi.Size() == 0 {
		c.Internal("no dictionary: %v", err)
		return
	}
	os.Remove(p)
	n := c.Rng.Int64N(fi.Size())
	if c.Rng.IntN(3) == 0 {
		n = fi.Size() - 1
	}
	c.Note("limit", fmt.Sprintf("%d of %d", n, fi.Size()))
	_, errs, code, hung, err := spawnIn(dir, filepath.Join(dirOf(path), "vmon"), []string{"-limitfsize", fmt.Sprint(n), path}, env, 240*time.Second)
	if err != nil || hung {
		c.Internal("%v %v", err, hung)
		return
	}
	c.Note("stderr", errs)
	if code == 0 {
		c.Fail("there was room for %d bytes of %d, and the exit status is 0", n, fi.Size())
	}
	c.See("fault: file size limit", 1)
}

//
// C30
//

// authority makes a certificate for a host, and the file which makes it trusted.
func authority(dir, host string) (cert tls.Certificate, file string, err error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(24 * 365 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IsCA: true, BasicConstraintsValid: true,
	}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		return
	}
	file = filepath.Join(dir, "ca.pem")
	err = os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644)
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}, file, err
}

// connectProxy accepts CONNECT and answers the tunnelled request itself.
func connectProxy(l net.Listener, cert tls.Certificate, respond func(w io.Writer, req *http.Request)) {
	for {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer conn.Close()
			conn.SetDeadline(time.Now().Add(200 * time.Second))
			br := bufio.NewReader(conn)
			req, err := http.ReadRequest(br)
			if err != nil || req.Method != "CONNECT" {
				return
			}
			io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n")
			tc := tls.Server(conn, &tls.Config{Certificates: []tls.Certificate{cert}, NextProtos: []string{"http/1.1"}})
			if err := tc.Handshake(); err != nil {
				return
			}
			inner, err := http.ReadRequest(bufio.NewReader(tc))
			if err != nil {
				return
			}
			respond(tc, inner)
			tc.Close()
		}()
	}
}

var firstNames = []string{"Nikola", "Luka", "LeBron", "Bogdan", "J. J.", "Shai", "De'Aaron", "D’Angelo", "Karl-Anthony", "Jusuf", "Dāvis", "Žan", "T.J.", "Ömer", "Otto", "Ēriks", "Jose Juan", "Frank"}
var lastNames = []string{"Jokić", "Dončić", "James", "Bogdanović", "Redick", "Gilgeous-Alexander", "Fox", "Russell", "Towns", "Nurkić", "Bertāns", "Tabak", "Warren", "Aşık", "Porter Jr.", "O'Neal", "Barea", "Ntilikina", "Vučević", "Schröder", "Hardaway Jr.", "Brown III", "Straße", "Łapeta"}

func player(r *rand.Rand) (first, last string) {
	first, last = mon.Pick(r, firstNames), mon.Pick(r, lastNames)
	if r.IntN(3) == 0 {
		first += " " + string(rune('A'+r.IntN(26)))
	}
	if r.IntN(3) == 0 {
		last += "-" + mon.Pick(r, []string{"Smith", "Žižić", "Pope", "Ωmega", "o'Brien"})
	}
	return
}

// rosterPage makes the page, with decoys, and the flat dictionary it implies.
func rosterPage(r *rand.Rand, malformed string) (string, map[string]string) {
	want := map[string]string{}
	var b strings.Builder
	b.WriteString("<!DOCTYPE html><html><head><title>List of current NBA team rosters</title></head><body><h1>Rosters</h1>\n")
	b.WriteString(`<table class="sortable"><tbody><tr><td>1</td><td>2</td><td><a href="#">Decoy, Outside</a></td></tr></tbody></table>`)
	teams := 1 + r.IntN(30)
	bad := -1
	if malformed != "" {
		bad = r.IntN(teams)
	}
	vast := r.IntN(10) == 0
	for t := 0; t < teams; t++ {
		if vast && b.Len() < 16<<20 && r.IntN(3) == 0 {
			// a long history of the team
			b.WriteString("<p>" + strings.Repeat(mon.Pick(r, []string{"He plays, sometimes. ", "<!-- x -->", "<br>", "\n", "Žižić, Ante "}), r.IntN(400000)) + "</p>")
		}
		b.WriteString("\n<table class=\"toccolours\"><tbody><tr><th>Team</th></tr><tr><td><table class=\"sortable\" style=\"x\"><thead><tr><th>Pos</th><th>No</th><th><a>Name, Column</a></th></tr></thead><tbody>\n")
		n := r.IntN(16)
		for i := 0; i < n || i == 0 && t == bad; i++ {
			first, last := player(r)
			name := last + ", " + first
			if r.IntN(5) == 0 {
				sp := func() string {
					return mon.Pick(r, []string{"", " ", "  ", "\n", "\t", "\u00a0", " \u00a0", "\r\n  ", "\u2003", "\u202f", "\u3000"})
				}
				name = sp() + last + sp() + "," + sp() + first + sp()
			}
			canon := first + " " + last
			if t == bad && i == 0 {
				name = malformed
			} else {
				want[canon] = canon
				if f := refFold(canon); f != canon {
					want[f] = canon
				}
			}
			extra := ""
			if r.IntN(4) == 0 {
				extra = " <sup><a href=\"#\">note</a></sup> (TW)"
			}
			fmt.Fprintf(&b, "<tr><td><a href=\"#\">Pos, G</a></td><td>%d</td><td><a href=\"/wiki/x\" title=\"t\">%s</a>%s</td><td><a href=\"#\">Height, Tall</a></td></tr>\n", r.IntN(99), html.EscapeString(name), extra)
		}
		b.WriteString("</tbody></table></td></tr></tbody></table>\n")
	}
	b.WriteString("</body></html>\n")
	return b.String(), want
}

func checkPlayersGenerator(r *mon.Run, g *mon.Gen) {
	r.Rule("The real generator is run in a scratch directory against a local stand-in for the encyclopedia (an HTTPS tunnel with its own certificate), which serves generated roster pages with decoys. The file it writes is parsed as Go and its flattened table compared with the model (first name first, plus the folded spelling where it differs), and fed to a synonyms filter; with a fault (status, truncated page, refused connection, a name which cannot be split), it must exit non-zero and leave a previous dictionary untouched. Non-trivial: every run; distinct by the page served.")
	r.Assume("the page's structure is the one which the generator reads at the pinned commit")
	path := exe(r, "gen-nba")
	if path == "" {
		return
	}
	cert, ca, err := authority(r.Scratch, "en.wikipedia.org")
	if err != nil {
		r.Internal("%v", err)
		return
	}
	one := func(c *mon.Case, fault string) {
		malformed := ""
		if fault == "malformed name" {
			malformed = mon.Pick(c.Rng, []string{"Nenê", "Hardaway, Tim, Jr.", " ", "Solo"})
		}
		page, want := rosterPage(c.Rng, malformed)
		dir := scratch(c)
		defer os.RemoveAll(dir)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			c.Internal("%v", err)
			return
		}
		defer l.Close()
		var served int64
		status := mon.Pick(c.Rng, []int{404, 500, 503, 429, 403, 202, 204})
		go connectProxy(l, cert, func(w io.Writer, req *http.Request) {
			atomic.AddInt64(&served, 1)
			switch fault {
			case "status":
				if status == 204 {
					fmt.Fprintf(w, "HTTP/1.1 204 No Content\r\nConnection: close\r\n\r\n")
					return
				}
				fmt.Fprintf(w, "HTTP/1.1 %d Whatever\r\nContent-Type: text/html\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", status, len(page), page)
			case "truncated":
				fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Length: %d\r\n\r\n%s", len(page), page[:c.Rng.IntN(len(page))])
			case "truncated chunks":
				half := page[:c.Rng.IntN(len(page))]
				fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n", len(half), half)
			case "closed":
			default:
				fmt.Fprintf(w, "HTTP/1.1 200 OK\r\nContent-Type: text/html; charset=UTF-8\r\nConnection: close\r\nContent-Length: %d\r\n\r\n%s", len(page), page)
			}
		})
		proxy := "http://" + l.Addr().String()
		if fault == "refused" {
			l.Close()
		}
		had := c.Rng.IntN(3) > 0
		p := filepath.Join(dir, "generated.go")
		if had {
			os.WriteFile(p, []byte(previously), 0o644)
		}
		if fault == "unwritable" {
			os.Remove(p)
			os.MkdirAll(filepath.Join(p, "x"), 0o755)
		}
		c.Note("fault", fault)
		c.NoteQ("page", page)
		env := cleanEnv("HTTPS_PROXY="+proxy, "https_proxy="+proxy, "SSL_CERT_FILE="+ca, "SSL_CERT_DIR="+dir)
		code, errs, ok := generate(c, path, dir, env)
		if !ok {
			return
		}
		if fault == "file size limit" {
			if code != 0 {
				c.Fail("exit status %d: %s", code, errs)
				return
			}
			limitedWrite(c, path, dir, env)
			c.Distinct(fault, page)
			return
		}
		if fault != "refused" && atomic.LoadInt64(&served) == 0 {
			c.Fail("the generator made no request for the page: %.300s", errs)
			return
		}
		if fault != "" {
			if code == 0 {
				c.Fail("%s: exit status 0", fault)
			}
			if fault != "unwritable" {
				if d := unchanged(dir, had); d != "" {
					c.Fail("%s: %s", fault, d)
				}
			}
			c.See("fault: "+fault, 1)
			c.Distinct(fault, page)
			return
		}
		if code != 0 {
			c.Fail("exit status %d: %s", code, errs)
			return
		}
		m, err := generated(p, "nba")
		if err != nil {
			c.Fail("%v", err)
			return
		}
		got, err := flat(m)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		if d := mapDiff(want, got); d != "" {
			c.Fail("%s", d)
		}
		ignore := []rune{' ', '.', '\'', '-', '–'}
		f := synonyms.NewFilter(m, true, ignore)
		model := newSynModel(m, true, ignore)
		for i, k := range sortedKeys(want) {
			if i >= 60 || model.conflict {
				break
			}
			ref, _ := model.apply(refText(k))
			against(c, "generated table", f, refText(k), ref)
		}
		c.See("players", len(m))
		c.Distinct(page)
		c.Sample(map[string]any{"players": len(m), "page_bytes": len(page)})
	}
	r.Each("rosters", r.Cases(120, 1500), func(c *mon.Case) { one(c, "") })
	kinds := []string{"status", "truncated", "truncated chunks", "closed", "refused", "malformed name", "unwritable", "file size limit"}
	r.Each("faults", len(kinds)*r.Cases(12, 100), func(c *mon.Case) { one(c, kinds[c.Index%len(kinds)]) })
}
