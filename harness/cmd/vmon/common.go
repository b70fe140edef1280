package main

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/uax29/words"
	"golang.org/x/net/html"
	"verif/mon"
)

// tok is what a caller can observe of a token.
type tok struct {
	V                   string
	Punct, Space, Lemma bool
}

func (t tok) String() string {
	f := ""
	if t.Punct {
		f += "P"
	}
	if t.Space {
		f += "S"
	}
	if t.Lemma {
		f += "L"
	}
	v := t.V
	if len(v) > 60 {
		v = v[:30] + fmt.Sprintf("...(%d)...", len(v)) + v[len(v)-20:]
	}
	return fmt.Sprintf("%q/%s", v, f)
}

func (t tok) word() bool { return !t.Punct && !t.Space }

func see(t *jargon.Token) tok {
	return tok{t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()}
}

func seeAll(ts []*jargon.Token) []tok {
	out := make([]tok, len(ts))
	for i, t := range ts {
		out[i] = see(t)
	}
	return out
}

func concat(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.V)
	}
	return b.String()
}

// diff describes the first difference, or "" if none.
func diff(want, got []tok) string {
	n := min(len(want), len(got))
	for i := 0; i < n; i++ {
		if want[i] != got[i] {
			lo := max(0, i-3)
			return fmt.Sprintf("token %d: want %s, got %s\n want[%d:]=%v\n  got[%d:]=%v", i, want[i], got[i], lo, want[lo:min(len(want), i+5)], lo, got[lo:min(len(got), i+5)])
		}
	}
	if len(want) != len(got) {
		lo := max(0, n-3)
		return fmt.Sprintf("want %d tokens, got %d\n want[%d:]=%v\n  got[%d:]=%v", len(want), len(got), lo, want[lo:min(len(want), n+5)], lo, got[lo:min(len(got), n+5)])
	}
	return ""
}

// tooLong is the number of tokens past which a stream for n bytes (and k source tokens) is a runaway.
func tooLong(n int) int { return 64*n + 10000 }

// drain reads a stream to its end by Next. limit guards against runaway streams.
func drain(s *jargon.TokenStream, limit int) (out []tok, err error, runaway bool) {
	for {
		t, err := s.Next()
		if err != nil {
			return out, err, false
		}
		if t == nil {
			return out, nil, false
		}
		out = append(out, see(t))
		if len(out) > limit {
			return out, nil, true
		}
	}
}

// mustDrain drains and fails the case on an error or a runaway stream.
func mustDrain(c *mon.Case, s *jargon.TokenStream, n int) []tok {
	out, err, runaway := drain(s, tooLong(n))
	if err != nil {
		c.Fail("unexpected error: %v", err)
		c.Abort()
	}
	if runaway {
		c.Fail("stream does not end: %d tokens for %d bytes of input", len(out), n)
		c.Abort()
	}
	return out
}

// source makes a stream of given tokens.
func source(ts []*jargon.Token) *jargon.TokenStream {
	i := 0
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= len(ts) {
			return nil, nil
		}
		i++
		return ts[i-1], nil
	})
}

// faultySource errs when asked for token number at.
// With once, the error is reported a single time, and a clean end after it.
func faultySource(ts []*jargon.Token, at int, err error, once bool) *jargon.TokenStream {
	i := 0
	failed := false
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if i >= at {
			if once && failed {
				return nil, nil
			}
			failed = true
			return nil, err
		}
		if i >= len(ts) {
			return nil, nil
		}
		i++
		return ts[i-1], nil
	})
}

// tapped counts the tokens which a consumer pulls from s.
func tapped(s *jargon.TokenStream, n *int) *jargon.TokenStream {
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		t, err := s.Next()
		if t != nil {
			*n++
		}
		return t, err
	})
}

// real makes tokens of the library from observations (value and lemma flag).
func real(ts []tok) []*jargon.Token {
	out := make([]*jargon.Token, 0, len(ts))
	for _, t := range ts {
		out = append(out, jargon.NewToken(t.V, t.Lemma))
	}
	return out
}

//
// Reference models. Written from the documentation; they share no code with the repository.
//

// classify is the documented classification of a token's value.
func classify(v string, lemma bool) tok {
	punct, space := true, true
	for _, r := range v {
		if !(unicode.IsPunct(r) || r == '\n' || r == '\r' || r == '\t') {
			punct = false
		}
		if !unicode.IsSpace(r) {
			space = false
		}
	}
	return tok{v, punct, space, lemma}
}

// refText segments by UAX #29, the whole text at once.
func refText(s string) []tok {
	var out []tok
	for _, w := range words.SegmentAll([]byte(s)) {
		out = append(out, classify(string(w), false))
	}
	return out
}

// refHTML keeps markup whole, script and style bodies whole, and segments other text.
// alt, if not nil, is an equally acceptable result for a self-closing script or style tag.
func refHTML(s string) (out, alt []tok) {
	z := html.NewTokenizer(strings.NewReader(s))
	rest := s
	opaque, selfClosed, selfSeen := "", false, false
	for {
		tt := z.Next()
		raw := string(z.Raw())
		if !strings.HasPrefix(rest, raw) {
			panic("reference: raw is not a prefix")
		}
		if tt == html.ErrorToken {
			if rest != "" {
				t := tok{rest, true, false, false}
				out, alt = append(out, t), append(alt, t)
			}
			if !selfSeen {
				alt = nil
			}
			return out, alt
		}
		rest = rest[len(raw):]
		switch tt {
		case html.TextToken:
			whole := tok{raw, false, false, false}
			switch {
			case opaque != "" && selfClosed:
				selfSeen = true
				out = append(out, refText(raw)...)
				alt = append(alt, whole)
			case opaque != "":
				out, alt = append(out, whole), append(alt, whole)
			default:
				ts := refText(raw)
				out, alt = append(out, ts...), append(alt, ts...)
			}
			opaque = ""
			continue
		case html.StartTagToken, html.SelfClosingTagToken:
			opaque = ""
			name, _ := z.TagName()
			if n := string(name); n == "script" || n == "style" {
				opaque, selfClosed = n, tt == html.SelfClosingTagToken
			}
		default:
			opaque = ""
		}
		t := tok{raw, true, false, false}
		out, alt = append(out, t), append(alt, t)
	}
}

// synonym table, as documented: comma-separated lists mapped to a canonical term
type synModel struct {
	dict       map[string]string // normalized synonym -> canonical
	max        int               // most words in any synonym
	ignoreCase bool
	ignore     map[rune]bool
	conflict   bool
}

func newSynModel(mappings map[string]string, ignoreCase bool, ignore []rune) *synModel {
	m := &synModel{dict: map[string]string{}, max: 1, ignoreCase: ignoreCase, ignore: map[rune]bool{}}
	for _, r := range ignore {
		m.ignore[r] = true
	}
	keys := make([]string, 0, len(mappings))
	for k := range mappings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		canonical := mappings[k]
		var cur []tok
		flush := func() {
			for len(cur) > 0 && cur[0].Space {
				cur = cur[1:]
			}
			n := 0
			for _, t := range cur {
				if t.word() {
					n++
				}
			}
			m.max = max(m.max, n)
			key := m.norm(concat(cur))
			if key != "" {
				if old, ok := m.dict[key]; ok && old != canonical {
					m.conflict = true
				}
				m.dict[key] = canonical
			}
			cur = nil
		}
		for _, t := range refText(k) {
			if t.V == "," {
				flush()
				continue
			}
			cur = append(cur, t)
		}
		flush()
	}
	return m
}

func (m *synModel) norm(s string) string {
	var b strings.Builder
	for _, r := range s {
		if m.ignoreCase {
			r = unicode.ToLower(r)
		}
		if !m.ignore[r] {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// apply replaces leftmost-longest.
func (m *synModel) apply(in []tok) (out []tok, replaced int) {
	for i := 0; i < len(in); {
		if !in[i].word() {
			out = append(out, in[i])
			i++
			continue
		}
		words := 0
		key := ""
		best, bestKey, bestCanon := 0, "", ""
		for j := i; j < len(in) && !in[j].Punct && words < m.max; j++ {
			if !in[j].Space {
				words++
			}
			key += m.norm(in[j].V)
			if canon, ok := m.dict[key]; ok && key != bestKey {
				best, bestKey, bestCanon = j+1-i, key, canon
			}
		}
		if best == 0 {
			out = append(out, in[i])
			i++
			continue
		}
		if bestCanon != "" {
			out = append(out, classify(bestCanon, true))
		}
		replaced++
		i += best
	}
	return out, replaced
}

// refSigil joins a sigil to a legal following token, at a word boundary.
func refSigil(in []tok, sigil string, legal func(string) bool) (out []tok, joined int) {
	for i := 0; i < len(in); i++ {
		t := in[i]
		boundary := len(out) == 0 || out[len(out)-1].Space || out[len(out)-1].Punct
		if boundary && t.V == sigil && i+1 < len(in) && legal(in[i+1].V) {
			out = append(out, classify(sigil+in[i+1].V, true))
			joined++
			i++
			continue
		}
		out = append(out, t)
	}
	return out, joined
}

func refHandle(s string) bool {
	if utf8.RuneCountInString(s) > 15 {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_') {
			return false
		}
	}
	return true
}

func refHashtag(s string) bool {
	rs := []rune(s)
	if len(rs) == 1 {
		return unicode.IsLetter(rs[0])
	}
	for _, r := range rs {
		if !(unicode.IsLetter(r) || unicode.IsNumber(r) || r == '_') {
			return false
		}
	}
	return true
}

func refStop(in []tok, stop []string, ignoreCase bool) (out []tok) {
	set := map[string]bool{}
	for _, s := range stop {
		if ignoreCase {
			s = strings.ToLower(s)
		}
		set[s] = true
	}
	for _, t := range in {
		k := t.V
		if ignoreCase {
			k = strings.ToLower(k)
		}
		if !set[k] {
			out = append(out, t)
		}
	}
	return out
}

// refMap applies a one-to-one change of value; changed values become lemmas.
func refMap(in []tok, f func(tok) string) (out []tok, changed int) {
	for _, t := range in {
		v := f(t)
		if v == t.V || v == "" {
			out = append(out, t)
			continue
		}
		changed++
		out = append(out, classify(v, true))
	}
	return out, changed
}

func errString(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

func sortStrings(s []string) { sort.Strings(s) }

var _ = io.EOF
