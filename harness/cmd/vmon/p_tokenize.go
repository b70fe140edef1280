package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/uax29/words"
	"verif/mon"
)

// longestWord is the length of the longest segment; inputs with segments near the documented
// 64 KiB limit of a single token are left to the phases about that limit.
func longestWord(s string) int {
	n := 0
	for _, w := range words.SegmentAll([]byte(s)) {
		n = max(n, len(w))
	}
	return n
}

const wordLimit = 60000

var shortAlphabet = []string{"a", "Z", "1", ".", ",", "'", "_", " ", "\n", "\r", "-", ":", "\"", "é", "\u0301", "\u200d", "א", "カ", "🇺", "😀", "\xff", "@", "#", "\t"}

// shortText enumerates the strings over the alphabet by length.
func shortText(i int) string {
	n := len(shortAlphabet)
	length, block := 0, 1
	for i >= block {
		i -= block
		block *= n
		length++
	}
	var b strings.Builder
	for k := 0; k < length; k++ {
		b.WriteString(shortAlphabet[i%n])
		i /= n
	}
	return b.String()
}

func shortCount(length int) int {
	total, block := 0, 1
	for k := 0; k <= length; k++ {
		total += block
		block *= len(shortAlphabet)
	}
	return total
}

// runeBlock makes a text with 256 consecutive code points in a context.
func runeBlock(i int) string {
	const contexts = 3
	block, ctx := i/contexts, i%contexts
	var b strings.Builder
	for k := 0; k < 256; k++ {
		r := rune(block*256 + k)
		if !utf8.ValidRune(r) {
			continue
		}
		switch ctx {
		case 0:
			b.WriteString("a")
			b.WriteRune(r)
			b.WriteString("b ")
		case 1:
			b.WriteString("1")
			b.WriteRune(r)
			b.WriteString("2\n")
		case 2:
			b.WriteRune(r)
		}
	}
	return b.String()
}

const runeBlocks = 0x1100 * 3

// consume reads a stream in one of the ways a caller can, and returns the concatenated text.
func consume(c *mon.Case, s *jargon.TokenStream, n int) (text string, how string, err error) {
	switch c.Rng.IntN(5) {
	case 0:
		text, err = s.String()
		return text, "String", err
	case 1:
		var b strings.Builder
		_, err = s.WriteTo(&b)
		return b.String(), "WriteTo", err
	case 2:
		ts, err := s.ToSlice()
		var b strings.Builder
		for _, t := range ts {
			if t == nil || t.String() == "" {
				c.Fail("ToSlice has an empty token")
				continue
			}
			b.WriteString(t.String())
		}
		c.See("tokens", len(ts))
		return b.String(), "ToSlice", err
	case 3:
		var b strings.Builder
		k := 0
		for s.Scan() {
			b.WriteString(s.Token().String())
			if k++; k > tooLong(n) {
				c.Fail("stream does not end: %d tokens for %d bytes", k, n)
				c.Abort()
			}
			if s.Token().String() == "" {
				c.Fail("empty token")
			}
		}
		c.See("tokens", k)
		return b.String(), "Scan", s.Err()
	default:
		ts, err, runaway := drain(s, tooLong(n))
		if runaway {
			c.Fail("stream does not end: %d tokens for %d bytes", len(ts), n)
			c.Abort()
		}
		for _, t := range ts {
			if t.V == "" {
				c.Fail("empty token")
			}
		}
		c.See("tokens", len(ts))
		return concat(ts), "Next", err
	}
}

func textDiff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-30)
	return fmt.Sprintf("differs at byte %d of %d (got %d bytes): want ...%q, got ...%q", i, len(want), len(got), want[lo:min(len(want), i+40)], got[lo:min(len(got), i+40)])
}

// coarse avoids tiny reads for texts with very long words, which every read makes the scanner rescan.
func coarse(f *mon.Feeder, longest int) {
	if longest > 3000 {
		for i := range f.Chunks {
			if f.Chunks[i] > 0 && f.Chunks[i] < longest/40 {
				f.Chunks[i] += longest / 40
			}
		}
	}
}

func lossless(c *mon.Case, text string, f *mon.Feeder, tokenize func(io.Reader) *jargon.TokenStream) {
	c.NoteQ("input", text)
	c.Note("reader", f.Chunking())
	s := tokenize(f)
	got, how, err := consume(c, s, len(text))
	c.Note("consumed by", how)
	c.See("bytes", len(text))
	c.See("reads", f.Reads)
	if err != nil {
		c.Fail("error on a readable text: %v", err)
		return
	}
	if got != text {
		c.Fail("text is not reconstructed: %s", textDiff(text, got))
	}
}

func checkLossless(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case tokenizes one text (structured, prose, mutated, raw bytes, every code point in context, every short string over a break-relevant alphabet, multi-buffer texts) through an instrumented reader with its own chunking, and compares the concatenation of the observed tokens with the input bytes. Non-trivial: more than one byte; distinct by text and chunking.")
	r.Assume("a single word beyond 64 KiB may be refused with an error (documented limit of the underlying scanner)")

	r.Each("texts", r.Cases(60000, 1200000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		f := mon.RandomFeeder(c.Rng, g, text)
		if c.Rng.IntN(4) == 0 {
			lossless(c, text, f, func(io.Reader) *jargon.TokenStream { return jargon.TokenizeString(text) })
		} else {
			lossless(c, text, f, jargon.Tokenize)
		}
		if len(text) > 1 {
			c.Distinct(text, f.Chunking())
		}
		c.Sample(map[string]string{"text": fmt.Sprintf("%.200q", text), "reader": f.Chunking()})
	})
	r.Each("short", shortCount(r.Scale(3, 4)), func(c *mon.Case) {
		text := shortText(c.Index)
		c.NoteQ("input", text)
		got := concat(mustDrain(c, jargon.TokenizeString(text), len(text)))
		if got != text {
			c.Fail("text is not reconstructed: %s", textDiff(text, got))
		}
		f := &mon.Feeder{Data: text, Chunks: []int{1}}
		got = concat(mustDrain(c, jargon.Tokenize(f), len(text)))
		if got != text {
			c.Fail("text read byte by byte is not reconstructed: %s", textDiff(text, got))
		}
		c.See("bytes", 2*len(text))
		c.Distinct(text)
	})
	r.Each("codepoints", runeBlocks, func(c *mon.Case) {
		text := runeBlock(c.Index)
		lossless(c, text, mon.RandomFeeder(c.Rng, g, text), jargon.Tokenize)
		c.Distinct(text)
	})
	// every code point at the beginning and at the end of a text, as a string and read
	r.Each("edges", 0x1100, func(c *mon.Case) {
		for k := 0; k < 256; k++ {
			v := rune(c.Index*256 + k)
			if !utf8.ValidRune(v) {
				continue
			}
			s := string(v)
			for _, text := range []string{s, s + "a b", "a b" + s, s + s} {
				got, err := jargon.TokenizeString(text).String()
				if err != nil || got != text {
					c.NoteQ("input", text)
					c.Fail("string %q becomes %q, %v", text, got, err)
					return
				}
			}
			text := s + "."
			got, err := jargon.Tokenize(&mon.Feeder{Data: text, Chunks: []int{1 + k%4}}).String()
			if err != nil || got != text {
				c.NoteQ("input", text)
				c.Fail("text %q becomes %q, %v", text, got, err)
				return
			}
			c.See("bytes", len(text))
		}
		c.Distinct(fmt.Sprint(c.Index))
	})
	r.Each("big", r.Cases(240, 4000), func(c *mon.Case) {
		text := g.Big(c.Rng, 1000+c.Rng.IntN(r.Scale(300000, 1500000)))
		if longestWord(text) > wordLimit {
			c.See("skipped_long_word", 1)
			return
		}
		lossless(c, text, mon.RandomFeeder(c.Rng, g, text), jargon.Tokenize)
		c.Distinct(text)
	})
	manyTexts(r, false)
	hugeTexts(r, g)
	readerKinds(r, g, jargon.Tokenize, func(c *mon.Case) string { return g.Any(c.Rng) }, refText)
	// one word of any length, at any distance from a buffer's edge
	r.Each("long", r.Cases(900, 9000), func(c *mon.Case) {
		unit := mon.Pick(c.Rng, []string{"a", "é", "7", "_", "カ", "\u0301", "a\u0301", "👩\u200d", " ", "a.", "1,", "x'"})
		n := g.Len(c.Rng, 70000) / len(unit)
		word := strings.Repeat(unit, n)
		text := mon.Pick(c.Rng, []string{"", " ", "x ", strings.Repeat("ab ", c.Rng.IntN(40000)), strings.Repeat(" ", g.Len(c.Rng, 9000))}) + word + mon.Pick(c.Rng, []string{"", " ", ". tail", strings.Repeat(" x", c.Rng.IntN(9000))})
		c.NoteQ("input", text)
		c.Note("word", fmt.Sprintf("%q x %d", unit, n))
		f := mon.RandomFeeder(c.Rng, g, text)
		coarse(f, len(word))
		ts, err, runaway := drain(jargon.Tokenize(f), tooLong(len(text)))
		got := concat(ts)
		if runaway {
			c.Fail("stream does not end")
		} else if err == nil && got != text {
			c.Fail("text is not reconstructed: %s", textDiff(text, got))
		} else if err != nil {
			c.See("refused", 1)
			if !strings.HasPrefix(text, got) {
				c.Fail("tokens before the error are not a prefix: %s", textDiff(text, got))
			}
			if longestWord(text) < wordLimit {
				c.Fail("a text whose longest word has %d bytes is refused: %v", longestWord(text), err)
			}
		}
		c.See("bytes", len(text))
		c.Distinct(unit, fmt.Sprint(n), f.Chunking())
	})
}

func checkBoundaries(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case tokenizes one text through an instrumented reader and compares every observed token with the UAX #29 word segmentation of the whole text (computed without any buffering), so a break must not depend on where reads or buffers end. Small texts are also split at every byte offset. Non-trivial: at least two segments; distinct by text and chunking.")
	r.Assume("the segmentation rules are those of the pinned uax29 module; its whole-text segmenter is the reference")

	check := func(c *mon.Case, text string, f *mon.Feeder) {
		want := refText(text)
		c.NoteQ("input", text)
		c.Note("reader", f.Chunking())
		got := mustDrain(c, jargon.Tokenize(f), len(text))
		c.See("tokens", len(got))
		c.See("reads", f.Reads)
		for i := range want {
			want[i] = tok{V: want[i].V}
		}
		for i := range got {
			got[i] = tok{V: got[i].V}
		}
		if d := diff(want, got); d != "" {
			c.Fail("breaks differ from the whole text's: %s", d)
		}
		if len(text) < 1000 || c.Rng.IntN(4) == 0 {
			s, _ := drainValues(jargon.TokenizeString(text))
			if d := diff(want, s); d != "" {
				c.Fail("as a string, breaks differ from the whole text's: %s", d)
			}
		}
		if len(want) > 1 {
			c.Distinct(text, f.Chunking())
		}
	}
	readerKinds(r, g, jargon.Tokenize, func(c *mon.Case) string {
		if c.Rng.IntN(4) == 0 {
			return g.Prose(c.Rng, c.Rng.IntN(20000))
		}
		return g.Any(c.Rng)
	}, refText)
	// texts of one kind of character, of which shortcuts are made
	kinds := []*unicode.RangeTable{unicode.Latin, unicode.Han, unicode.Hiragana, unicode.Katakana, unicode.Hangul, unicode.Thai, unicode.Hebrew, unicode.Arabic, unicode.Devanagari, unicode.Cyrillic, unicode.Greek, unicode.Lu, unicode.Ll, unicode.Lo, unicode.Lm, unicode.Nd, unicode.No, unicode.Nl, unicode.Mn, unicode.Mc, unicode.Me, unicode.Sm, unicode.So, unicode.Sk, unicode.Sc, unicode.Po, unicode.Pc, unicode.Pd, unicode.Ps, unicode.Zs, unicode.Cf, unicode.Cc, unicode.Tibetan, unicode.Lao, unicode.Khmer, unicode.Myanmar, unicode.Regional_Indicator}
	r.Each("kinds", len(kinds)*r.Cases(200, 3000), func(c *mon.Case) {
		t := kinds[c.Index%len(kinds)]
		var b strings.Builder
		for k := 1 + c.Rng.IntN(12); k > 0; k-- {
			b.WriteRune(mon.InTable(c.Rng, t))
			if c.Rng.IntN(40) == 0 {
				b.WriteRune(mon.InTable(c.Rng, mon.Pick(c.Rng, kinds)))
			}
		}
		text := b.String()
		check(c, text, mon.RandomFeeder(c.Rng, g, text))
	})
	r.Each("texts", r.Cases(50000, 900000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		f := mon.RandomFeeder(c.Rng, g, text)
		check(c, text, f)
		c.Sample(map[string]string{"text": fmt.Sprintf("%.200q", text), "reader": f.Chunking()})
	})
	r.Each("splits", r.Cases(4000, 60000), func(c *mon.Case) {
		text := g.Text(c.Rng, 1+c.Rng.IntN(4))
		if len(text) > 120 {
			text = text[:120]
		}
		for cut := 0; cut <= len(text); cut++ {
			chunks := []int{1 << 20}
			if cut > 0 {
				chunks = []int{cut, 1 << 20}
			}
			check(c, text, &mon.Feeder{Data: text, Chunks: chunks, WithData: c.Rng.IntN(2) == 0})
			c.See("split_points", 1)
		}
	})
	r.Each("short", shortCount(r.Scale(3, 4)), func(c *mon.Case) {
		text := shortText(c.Index)
		check(c, text, &mon.Feeder{Data: text})
		check(c, text, &mon.Feeder{Data: text, Chunks: []int{1}, WithData: c.Index%2 == 0})
	})
	r.Each("codepoints", runeBlocks, func(c *mon.Case) {
		text := runeBlock(c.Index)
		check(c, text, mon.RandomFeeder(c.Rng, g, text))
	})
	r.Each("big", r.Cases(200, 3000), func(c *mon.Case) {
		text := g.Big(c.Rng, 1000+c.Rng.IntN(r.Scale(300000, 1500000)))
		if longestWord(text) > wordLimit {
			return
		}
		check(c, text, mon.RandomFeeder(c.Rng, g, text))
	})
	// A break-sensitive sequence placed around the edges of the scanner's buffer (4 KiB, doubling) and of the reads.
	sensitive := []string{"node.js", "1,000.5", "can't", "א\"ב", "a\u0301.\u0301b", "x\u200dy", "\r\n", "👩‍👩‍👧", "🇺🇸🇩🇪", "  \t ", "a:b", "foo_bar", "カタカナ", "é.é", "a.1,2", "ab", "a’b", "a. b", "a.", "1.a", "1_000", "a·b", "א'", "x.\u00ady", "\u200d.\u200da"}
	r.Each("edges", r.Cases(3000, 60000), func(c *mon.Case) {
		w := mon.Pick(c.Rng, sensitive)
		edge := mon.Pick(c.Rng, []int{4096, 8192, 16384, 32768, 65536, 131072, 4096 + c.Rng.IntN(4096)})
		at := edge - c.Rng.IntN(len(w)+2)
		var pre string
		switch c.Rng.IntN(3) {
		case 0:
			pre = strings.Repeat("a ", at/2) + strings.Repeat(" ", at%2)
		case 1:
			// a single long word before, so that the buffer has no room to slide
			k := c.Rng.IntN(min(at-1, 6000)) + 1
			pre = strings.Repeat("\n", max(0, at-k-1)) + " " + strings.Repeat("b", k)
		case 2:
			pre = strings.Repeat(". ", at/2) + strings.Repeat(" ", at%2)
		}
		text := pre + w + mon.Pick(c.Rng, []string{"", " ", "x", ".y", "\u0301", strings.Repeat(" tail", 100)})
		check(c, text, mon.RandomFeeder(c.Rng, g, text))
	})
}

// drainValues reads the values of a stream.
func drainValues(s *jargon.TokenStream) (out []tok, err error) {
	for s.Scan() {
		out = append(out, tok{V: s.Token().String()})
	}
	return out, s.Err()
}

func checkClassification(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case classifies values (every code point alone and doubled, every short string over a mixed alphabet, generated words, every token of generated texts, every value which filters produce), as lemma and not, and compares all observable attributes with the documented definition. Non-trivial and distinct by value.")
	r.Assume("white space and punctuation are those of Go's unicode package (the toolchain in use)")

	one := func(c *mon.Case, v string, lemma bool) {
		t := jargon.NewToken(v, lemma)
		if v == "" {
			if t != nil {
				c.Fail("a token of no text exists: %v", see(t))
			}
			return
		}
		if t == nil {
			c.Fail("no token for %q", v)
			return
		}
		if got, want := see(t), classify(v, lemma); got != want {
			c.Fail("NewToken(%q, %v): want %s, got %s", v, lemma, want, got)
		}
		c.See("tokens", 1)
	}
	r.Each("codepoints", 0x1100, func(c *mon.Case) {
		for k := 0; k < 256; k++ {
			v := rune(c.Index*256 + k)
			if !utf8.ValidRune(v) {
				continue
			}
			s := string(v)
			for _, x := range []string{s, s + s, s + ".", s + " ", "a" + s, "." + s, " " + s, "\n" + s, s + "\r\n"} {
				one(c, x, false)
				one(c, x, true)
			}
			c.Distinct(s)
		}
	})
	alphabet := []string{"a", ".", " ", "\n", "\r", "\t", "-", "$", "+", "é", "\u00a0", "_", "’", "\u2028", "\xff", "\u200b", "\v", "\u0085", "“", "0"}
	r.Each("short", 1+20+400+8000+r.Scale(0, 160000), func(c *mon.Case) {
		i, block, n := c.Index, 1, 0
		for i >= block {
			i -= block
			block *= len(alphabet)
			n++
		}
		v := ""
		for ; n > 0; n-- {
			v += alphabet[i%len(alphabet)]
			i /= len(alphabet)
		}
		one(c, v, false)
		one(c, v, true)
		c.Distinct(v)
	})
	r.Each("words", r.Cases(60000, 1000000), func(c *mon.Case) {
		v := g.Word(c.Rng)
		// order matters if anything is remembered between calls
		if c.Rng.IntN(2) == 0 {
			one(c, v, true)
			one(c, v, false)
		} else {
			one(c, v, false)
			one(c, v, true)
		}
		one(c, mon.Recase(c.Rng, v), c.Rng.IntN(2) == 0)
		c.Distinct(v)
	})
	r.Each("texts", r.Cases(15000, 300000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		c.NoteQ("input", text)
		for _, t := range mustDrain(c, jargon.TokenizeString(text), len(text)) {
			if want := classify(t.V, false); t != want {
				c.Fail("tokenized: want %s, got %s", want, t)
			}
			c.See("tokens", 1)
		}
		c.Distinct(text)
		c.Sample(fmt.Sprintf("%.200q", text))
	})
	r.EachN("vocabulary", 4, 4, func(c *mon.Case) {
		words := vocabulary(c.Rng, r.Scale(200000, 1500000))
		for i, w := range words {
			if i%3 == 0 {
				w = mon.Pick(c.Rng, []string{".", "\n", "-", " ", "…"}) + w
			}
			one(c, w, i%2 == 0)
			if c.Failed() {
				return
			}
		}
		c.See("vocabulary_words", len(words))
		c.Distinct(fmt.Sprint(c.Index))
	})
	r.Each("filtered", r.Cases(8000, 100000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		names, filters, _ := chain(c.Rng, g, 3)
		c.NoteQ("input", text)
		c.Note("filters", strings.Join(names, " | "))
		out, err, _ := drain(jargon.TokenizeString(text).Filter(filters...), tooLong(len(text)))
		if err != nil {
			c.Fail("unexpected error: %v", err)
		}
		for _, t := range out {
			if want := classify(t.V, t.Lemma); t != want {
				c.Fail("filtered: want %s, got %s", want, t)
			}
			c.See("tokens", 1)
		}
		c.Distinct(text, strings.Join(names, "|"))
	})
}

//
// HTML
//

var htmlNames = []string{"p", "div", "a", "b", "span", "br", "img", "li", "ul", "table", "tr", "td", "h1", "body", "html", "head", "title", "textarea", "script", "style", "script", "style", "noscript", "iframe", "xmp", "noembed", "noframes", "plaintext", "svg", "math", "custom-tag", "x", "SCRIPT", "Style", "sCrIpT", "scripty", "styles", "template", "select", "option"}

func genTag(r *rand.Rand, g *mon.Gen) string {
	name := mon.Pick(r, htmlNames)
	if name == "plaintext" && r.IntN(4) != 0 {
		name = "pre"
	}
	var b strings.Builder
	b.WriteString("<")
	b.WriteString(name)
	if l := strings.ToLower(name); (l == "script" || l == "style") && r.IntN(2) == 0 {
		b.WriteString(rawAttributes(r))
	}
	for i := r.IntN(4); i > 0; i-- {
		b.WriteString(mon.Pick(r, []string{" ", "  ", "\n", "\t", "/"}))
		switch r.IntN(7) {
		case 0:
			b.WriteString(`class="foo bar"`)
		case 1:
			b.WriteString(`id='x"y'`)
		case 2:
			b.WriteString(`href=http://a.b/c?d=e&amp;f`)
		case 3:
			b.WriteString(`checked`)
		case 4:
			b.WriteString(`data-x="a > b < c &lt; é"`)
		case 5:
			b.WriteString(strings.Map(func(c rune) rune {
				if c == '>' {
					return 'x'
				}
				return c
			}, g.Word(r)))
		case 6:
			b.WriteString(`Title = "` + strings.ReplaceAll(g.Word(r), `"`, "") + `"`)
		}
	}
	b.WriteString(mon.Pick(r, []string{">", ">", ">", ">", " >", "/>", " />"}))
	return b.String()
}

func genHTML(r *rand.Rand, g *mon.Gen, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch k := r.IntN(24); {
		case k < 6:
			b.WriteString(genTag(r, g))
		case k < 10:
			b.WriteString("</" + mon.Pick(r, htmlNames) + mon.Pick(r, []string{">", ">", " >", "\n>", " x=y>"}))
		case k < 16:
			b.WriteString(g.Text(r, 1+r.IntN(8)))
		case k < 17:
			b.WriteString("<!--" + mon.Pick(r, []string{"", " comment ", "a > b", "-", "--", "<p>text</p>", g.Text(r, 2)}) + mon.Pick(r, []string{"-->", "-->", "--!>", "->", ">"}))
		case k < 18:
			b.WriteString(mon.Pick(r, []string{"<!DOCTYPE html>", "<!doctype HTML PUBLIC \"x\">", "<![CDATA[ x < y ]]>", "<?xml version=\"1.0\"?>", "<!>", "</>", "</ x>", "<>", "< p>", "<3", "&amp;", "&lt;b&gt;", "&copy", "&#233;", "&#x26;", "&nbsp;", "&bogus;", "&", "\r\n", "\r", "\x00", "<\x00p>", "<p\x00>"}))
		case k < 21:
			// a whole raw block
			name := mon.Pick(r, []string{"script", "style", "script", "style", "SCRIPT", "Style", "textarea", "title"})
			body := mon.Pick(r, []string{
				"", " ", "var x = 1 < 2 && 'a';", "p { color: red; }", "document.write('<p>hi</p>')", "<!-- hide\nfoo();\n//-->", "'</scr' + 'ipt>'", "<!--<script>x</script>-->", "a </b> c", "&amp;", "Ruby on Rails", g.Text(r, 3), "// don't\n/* react js */", "</styl", "x </script ", "if (a<b) {}",
			})
			b.WriteString("<" + name + rawAttributes(r) + mon.Pick(r, []string{">", ">", ">", "/>"}) + body)
			if r.IntN(8) != 0 {
				b.WriteString("</" + mon.Pick(r, []string{name, name, name, strings.ToUpper(name), "script", "style"}) + ">")
			}
		case k < 22:
			b.WriteString(g.Bytes(r, r.IntN(30)))
		default:
			b.WriteString(g.Word(r))
		}
	}
	switch r.IntN(10) {
	case 0:
		b.WriteString(mon.Pick(r, []string{"<", "<p", "<p class", "<p class=\"x", "</", "</p", "<!", "<!-", "<!--", "<!-- x", "<!DOC", "<?x", "<script", "<script>", "<style>x", "<textarea>a", "&", "&am"}))
	case 1:
		s := b.String()
		return s[:r.IntN(len(s)+1)]
	case 2:
		return g.Mutate(r, b.String())
	}
	return b.String()
}

func checkHTML(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case tokenizes one HTML document (generated markup with raw-text elements, comments, entities, malformed and truncated tags, raw bytes) through an instrumented reader, and compares the observed tokens with the reference structure: markup whole and punctuation, script and style bodies whole, other text as plain text, everything concatenating to the input bytes. Non-trivial: contains a '<'; distinct by document and chunking.")
	r.Assume("what is markup is decided by the pinned golang.org/x/net/html tokenizer; a self-closing script or style tag may open a block or not")

	check := func(c *mon.Case, doc string, f *mon.Feeder) {
		c.NoteQ("input", doc)
		c.Note("reader", f.Chunking())
		got := mustDrain(c, jargon.TokenizeHTML(f), len(doc))
		c.See("tokens", len(got))
		c.See("reads", f.Reads)
		if text := concat(got); text != doc {
			c.Fail("document is not reconstructed: %s", textDiff(doc, text))
			return
		}
		want, alt := refHTML(doc)
		if d := diff(want, got); d != "" && (alt == nil || diff(alt, got) != "") {
			c.Fail("structure differs: %s", d)
		}
		for _, t := range got {
			if strings.HasPrefix(t.V, "<") && t.Punct {
				c.See("markup_tokens", 1)
			}
		}
		if strings.Contains(doc, "<") {
			c.Distinct(doc, f.Chunking())
		}
	}
	readerKinds(r, g, jargon.TokenizeHTML, func(c *mon.Case) string {
		return genHTML(c.Rng, g, 1+c.Rng.IntN(12))
	}, func(s string) []tok {
		out, alt := refHTML(s)
		if alt != nil {
			return nil
		}
		return out
	})
	r.Each("documents", r.Cases(45000, 800000), func(c *mon.Case) {
		doc := genHTML(c.Rng, g, 1+c.Rng.IntN(12))
		f := mon.RandomFeeder(c.Rng, g, doc)
		check(c, doc, f)
		c.Sample(map[string]string{"document": fmt.Sprintf("%.300q", doc), "reader": f.Chunking()})
	})
	r.Each("texts", r.Cases(8000, 100000), func(c *mon.Case) {
		doc := g.Any(c.Rng)
		check(c, doc, mon.RandomFeeder(c.Rng, g, doc))
	})
	r.Each("big", r.Cases(120, 2000), func(c *mon.Case) {
		var b strings.Builder
		for n := 1000 + c.Rng.IntN(r.Scale(200000, 800000)); b.Len() < n; {
			b.WriteString(genHTML(c.Rng, g, 1+c.Rng.IntN(40)))
			if c.Rng.IntN(6) == 0 {
				// a large node: tag, comment, script, text
				fill := g.Prose(c.Rng, 1+g.Len(c.Rng, 20000))
				switch c.Rng.IntN(4) {
				case 0:
					b.WriteString(`<p title="` + strings.ReplaceAll(fill, `"`, "") + `">`)
				case 1:
					b.WriteString("<!--" + strings.ReplaceAll(fill, "-", "") + "-->")
				case 2:
					b.WriteString("<script>" + fill + "</script>")
				case 3:
					b.WriteString("<p>" + fill + "</p>")
				}
			}
		}
		doc := b.String()
		if longestWord(doc) > wordLimit {
			return
		}
		check(c, doc, mon.RandomFeeder(c.Rng, g, doc))
	})
	manyTexts(r, true)
	hugeNodes(r, g)
	// short documents over a markup alphabet
	pieces := []string{"<script>", "</script>", "<style>", "</style>", "<p>", "</p>", "<script/>", "<br/>", "a b", "c", "<!-- x -->", "&amp;", " ", "<", "<textarea>", "</textarea>", "<SCRIPT>", "</STYLE >", "<style a=b>"}
	n := len(pieces)
	r.Each("pieces", 1+n+n*n+n*n*n+r.Scale(n*n*n, n*n*n*n), func(c *mon.Case) {
		i, block, k := c.Index, 1, 0
		for i >= block {
			i -= block
			block *= n
			k++
		}
		if !r.Thorough() && k == 4 {
			i = c.Rng.IntN(block)
		}
		doc := ""
		for ; k > 0; k-- {
			doc += pieces[i%n]
			i /= n
		}
		check(c, doc, &mon.Feeder{Data: doc})
	})
}

var _ = unicode.IsSpace

var scriptTypes = []string{"text/javascript", "module", "importmap", "text/template", "text/x-template", "text/html", "text/x-handlebars-template", "application/json", "application/ld+json", "text/plain", "text/css", "text/less", "application/xml", "text/ng-template", "speculationrules", "math/tex", "x", ""}

// rawAttributes are attributes of script, style and the like; none of them changes what the body is.
func rawAttributes(r *rand.Rand) string {
	s := ""
	for k := r.IntN(3); k > 0; k-- {
		switch r.IntN(4) {
		case 0:
			q := mon.Pick(r, []string{"\"", "'"})
			s += mon.Pick(r, []string{" type=", " TYPE=", " Type = ", " language="}) + q + mon.Pick(r, scriptTypes) + q
		case 1:
			s += " " + mon.Pick(r, []string{"async", "defer", "nomodule", "hidden", "crossorigin", "contenteditable", "disabled"})
		case 2:
			s += mon.Pick(r, []string{" src=x.js", " src='a>b'", " media=\"print\"", " lang=en", " id=tmpl", " class=\"language-none notranslate\"", " translate=no", " data-x='<p>'", " nonce=\"a/\"", " xmlns=\"http://www.w3.org/2000/svg\"", " charset=utf-8", " for=window event=onload", " style=\"display:none\"", " title=\"&lt;\""})
		default:
			s += " type=" + mon.Pick(r, scriptTypes[:17])
		}
	}
	return s
}
