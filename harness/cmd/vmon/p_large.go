package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"verif/mon"
)

//
// Phases at scale, shared by several properties: many different words in one process (what is
// remembered per word, under whatever key, must be remembered right), and single large inputs.
//

var vocabularyEnds = []string{"", "", "", "", "s", "ing", "ed", "'s", "ly", "ness", "ation", "ность", "ими", "ando", "mente", "ées", "issement", "ene", "heten", "arna", "\u0301", "\u0308o", "ﬁ", "é", "Å", "ü", "ß", "½", "_x", "1", "n't"}
var vocabularyLetters = [][]rune{
	[]rune("abcdefghijklmnopqrstuvwxyz"),
	[]rune("abcdefghijklmnopqrstuvwxyz"),
	[]rune("abcdefghijklmnopqrstuvwxyz0123456789_"),
	[]rune("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
	[]rune("aeioubcdfgéèüñøåæçœßÀÉÎÕÜàáâãäåāăąćĉċčďđēĕėęě"),
	[]rune("абвгдежзийклмнопрстуфхцчшщъыьэюя"),
	[]rune("0123456789"),
}

// vocabulary is n distinct random words.
func vocabulary(r *rand.Rand, n int) []string {
	seen := make(map[string]bool, n)
	out := make([]string, 0, n)
	for len(out) < n {
		letters := mon.Pick(r, vocabularyLetters)
		w := make([]rune, 3+r.IntN(7))
		for i := range w {
			w[i] = letters[r.IntN(len(letters))]
		}
		s := string(w)
		if r.IntN(2) == 0 {
			s += mon.Pick(r, vocabularyEnds)
		}
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// manyWords puts a large vocabulary through filters, all words in one stream and then again in
// another order, and compares every token with the reference. before, if not empty, precedes each word.
func manyWords(r *mon.Run, before string, stages ...stage) {
	n := r.Scale(250000, 1500000)
	r.EachN("vocabulary"+before, len(stages), 4, func(c *mon.Case) {
		st := stages[c.Index]
		c.Note("filter", st.name)
		words := vocabulary(c.Rng, n)
		sep := jargon.NewToken(" ", false)
		var first *jargon.Token
		if before != "" {
			first = jargon.NewToken(before, false)
		}
		for pass := 0; pass < 2; pass++ {
			in := make([]*jargon.Token, 0, 3*n)
			for i, w := range words {
				if first != nil {
					in = append(in, first)
				}
				in = append(in, jargon.NewToken(w, i%7 == 3))
				if i%2 == 0 {
					in = append(in, sep)
				}
			}
			got, err, runaway := drain(source(in).Filter(st.filter), tooLong(len(in)))
			if err != nil || runaway {
				c.Fail("%d tokens, then %v", len(got), err)
				return
			}
			if d := diff(st.ref(seeAll(in)), got); d != "" {
				c.Fail("%s, over %d different words, pass %d: %s", st.name, n, pass, d)
				return
			}
			c.See("vocabulary_words", n)
			c.Rng.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
		}
		c.Distinct(st.name)
	})
}

// bigTable is a table of synonyms, and bigStops a list of stop words, of thousands of random words.
func bigTable(r *mon.Run) stage {
	rng := mon.NewRng(r.Seed, "big table")
	words := vocabulary(rng, 6000)
	m := map[string]string{}
	for i := 0; i+3 < len(words); i += 4 {
		m[words[i]+", "+words[i+1]+" "+words[i+2]] = words[i+3]
	}
	model := newSynModel(m, false, nil)
	return stage{"synonyms of a large table", synonyms.NewFilter(m, false, nil), func(in []tok) []tok { out, _ := model.apply(in); return out }}
}

func bigStops(r *mon.Run) []stage {
	words := vocabulary(mon.NewRng(r.Seed, "big stops"), 5000)
	return []stage{
		{"stop words, any case", stopwords.NewFilter(words, true), func(in []tok) []tok { return refStop(in, words, true) }},
		{"stop words", stopwords.NewFilter(words, false), func(in []tok) []tok { return refStop(in, words, false) }},
	}
}

// manyTexts is the vocabulary as a text.
func manyTexts(r *mon.Run, html bool) {
	r.EachN("vocabulary", 2, 2, func(c *mon.Case) {
		words := vocabulary(c.Rng, r.Scale(400000, 2000000))
		for pass := 0; pass < 2; pass++ {
			text := strings.Join(words, mon.Pick(c.Rng, []string{" ", "\n", ", "}))
			var got, want []tok
			if html {
				text = strings.ReplaceAll(text, " ", "</b> <b>")
				got = mustDrain(c, jargon.TokenizeHTML(strings.NewReader(text)), len(text))
				want, _ = refHTML(text)
			} else {
				if c.Index%2 == 0 {
					got = mustDrain(c, jargon.TokenizeString(text), len(text))
				} else {
					got = mustDrain(c, jargon.Tokenize(strings.NewReader(text)), len(text))
				}
				want = refText(text)
			}
			if d := diff(want, got); d != "" {
				c.Fail("a text of %d different words: %s", len(words), d)
				return
			}
			c.See("vocabulary_words", len(words))
			c.Rng.Shuffle(len(words), func(i, j int) { words[i], words[j] = words[j], words[i] })
		}
		c.Distinct(fmt.Sprint(c.Index))
	})
}

// hugeSizes are sizes of single inputs: beyond any buffer one would think of, and around the
// sizes which the code mentions.
func hugeSizes(r *mon.Run, g *mon.Gen, most int) []int {
	sizes := []int{3 << 20, 9 << 20, 17 << 20, 33 << 20}
	if r.Thorough() {
		sizes = append(sizes, 65<<20)
	}
	for _, n := range g.Mined.Big {
		sizes = append(sizes, n+n/64+10)
	}
	var out []int
	for _, n := range sizes {
		if n <= most {
			out = append(out, n)
		}
	}
	if len(out) > 8 {
		out = out[len(out)-8:]
	}
	return out
}

// filling is about n bytes of prose.
func filling(r *rand.Rand, g *mon.Gen, n int) string {
	one := g.Prose(r, 3000+r.IntN(5000))
	return strings.Repeat(one, n/max(1, len(one))+1)[:n]
}

// hugeTexts tokenizes single large texts and compares the bytes as they come.
func hugeTexts(r *mon.Run, g *mon.Gen) {
	sizes := hugeSizes(r, g, 1<<27)
	r.EachN("huge", len(sizes), 2, func(c *mon.Case) {
		text := filling(c.Rng, g, sizes[c.Index])
		var s *jargon.TokenStream
		how := c.Rng.IntN(3)
		switch how {
		case 0:
			s = jargon.TokenizeString(text)
		default:
			f := &mon.Feeder{Data: text, Chunks: []int{1 << (8 + c.Rng.IntN(14))}}
			c.Note("reader", f.Chunking())
			s = jargon.Tokenize(f)
		}
		sameBytes(c, s, text)
		c.Distinct(fmt.Sprint(sizes[c.Index], how))
	})
}

// hugeNodes tokenizes documents with one large node of each kind.
func hugeNodes(r *mon.Run, g *mon.Gen) {
	sizes := hugeSizes(r, g, 1<<27)
	kinds := []string{"text", "tag", "comment", "script", "title", "doctype", "end tag", "unfinished"}
	r.EachN("huge", len(sizes)*len(kinds), 4, func(c *mon.Case) {
		n, kind := sizes[c.Index/len(kinds)], kinds[c.Index%len(kinds)]
		fill := filling(c.Rng, g, n)
		clean := func(cut string) string {
			return strings.Map(func(r rune) rune {
				if strings.ContainsRune(cut, r) {
					return ' '
				}
				return r
			}, fill)
		}
		c.Note("node", fmt.Sprintf("%s of %d bytes", kind, n))
		pre, post := "<p>before", "<b>after</b> it"
		node := ""
		var want []tok
		switch kind {
		case "text":
			node = clean("<")
		case "tag":
			node = `<a title="` + clean(`"`) + `">`
		case "end tag":
			node = `</a title="` + clean(`"`) + `">`
		case "comment":
			node = "<!--" + clean("-") + "-->"
		case "doctype":
			node = "<!DOCTYPE " + clean(">") + ">"
		case "script":
			node = "<script>" + clean("<") + "</script>"
		case "title":
			node = "<title>" + clean("<") + "</title>"
		case "unfinished":
			node, post = `<a title="`+clean(`"`), ""
		}
		doc := pre + node + post
		s := jargon.TokenizeHTML(&mon.Feeder{Data: doc, Chunks: []int{1 << (10 + c.Rng.IntN(12))}})
		switch kind {
		case "text", "title":
			sameBytes(c, s, doc)
		default:
			want, _ = refHTML(doc)
			got := mustDrain(c, s, len(doc))
			if d := diff(want, got); d != "" {
				c.Fail("a %s of %d bytes: %s", kind, n, d)
			}
			c.See("tokens", len(got))
		}
		c.See("bytes", len(doc))
		c.Distinct(kind, fmt.Sprint(n))
	})
}

// sameBytes consumes a stream and compares its bytes with the text.
func sameBytes(c *mon.Case, s *jargon.TokenStream, text string) {
	at, n := 0, 0
	for {
		t, err := s.Next()
		if err != nil {
			c.Fail("after %d of %d bytes: %v", at, len(text), err)
			return
		}
		if t == nil {
			break
		}
		n++
		v := t.String()
		if v == "" || !strings.HasPrefix(text[at:], v) {
			c.Fail("token %d, at byte %d of %d: want %.60q..., got %.60q", n, at, len(text), text[at:], v)
			return
		}
		at += len(v)
	}
	if at != len(text) {
		c.Fail("the stream ends after %d of %d bytes", at, len(text))
	}
	c.See("tokens", n)
	c.See("bytes", at)
}

var _ = io.EOF

// longRuns puts streams of several times 65,536 tokens through filters: random sequences of a few
// words, so that every local situation occurs at every position where a counter could turn over.
func longRuns(r *mon.Run, pick func(rng *rand.Rand) stage, words ...string) {
	words = append(words, " ", ",", "x", "\n")
	r.EachN("long", r.Cases(16, 160), 8, func(c *mon.Case) {
		st := pick(c.Rng)
		c.Note("filter", st.name)
		few := append([]string(nil), words...)
		c.Rng.Shuffle(len(few), func(i, j int) { few[i], few[j] = few[j], few[i] })
		few = few[:min(len(few), 2+c.Rng.IntN(4))]
		if len(words) > 4 {
			few = append(few, words[c.Rng.IntN(len(words)-4)])
		}
		c.Note("words", fmt.Sprintf("%q", few))
		var toks []*jargon.Token
		for _, w := range few {
			toks = append(toks, jargon.NewToken(w, false))
		}
		toks = append(toks, jargon.NewToken(few[0], true))
		n := 66000 + c.Rng.IntN(140000)
		if c.Index%16 == 15 {
			n = 1<<20 + c.Rng.IntN(70000)
		}
		in := make([]*jargon.Token, n)
		for i := range in {
			in[i] = toks[c.Rng.IntN(len(toks))]
		}
		got, err, runaway := drain(source(in).Filter(st.filter), tooLong(8*n))
		if err != nil || runaway {
			c.Fail("%d tokens of %d, then %v", len(got), n, err)
			return
		}
		if d := diff(st.ref(seeAll(in)), got); d != "" {
			c.Fail("%s, over %d tokens: %s", st.name, n, d)
			return
		}
		c.See("long_streams", 1)
		c.See("long_stream_tokens", n)
		c.Distinct(st.name, fmt.Sprint(n, few))
	})
}

// longTokens puts single tokens of up to some hundred thousand bytes through filters, full of
// characters with which the filters have something to do.
func longTokens(r *mon.Run, g *mon.Gen, most int, stages ...stage) {
	r.EachN("long tokens", r.Cases(160, 2400), 8, func(c *mon.Case) {
		st := stages[c.Index%len(stages)]
		c.Note("filter", st.name)
		var in []*jargon.Token
		for k := 1 + c.Rng.IntN(4); k > 0; k-- {
			n := mon.Pick(c.Rng, []int{300, 5000, 40000, 70000, 140000})
			if c.Rng.IntN(2) == 0 {
				n = g.Len(c.Rng, n)
			} else {
				n = c.Rng.IntN(n)
			}
			n = max(1, n%most)
			var b strings.Builder
			b.WriteString(strings.Repeat("a", c.Rng.IntN(4)))
			letters := mon.Pick(c.Rng, vocabularyLetters)
			plain := c.Rng.IntN(3) == 0
			if c.Rng.IntN(4) == 0 {
				// nothing to do for most of it
				b.WriteString(strings.Repeat(mon.Pick(c.Rng, []string{"a", "Ab", "7", "é", "ж", "@x", "漢"}), c.Rng.IntN(n)))
				n = b.Len() + 1 + c.Rng.IntN(8)
			}
			for b.Len() < n {
				switch {
				case !plain && c.Rng.IntN(4) == 0:
					b.WriteString(mon.Pick(c.Rng, vocabularyEnds))
				case !plain && c.Rng.IntN(60) == 0:
					b.WriteString(mon.Pick(c.Rng, []string{"\xff", "\xc3", "\u200d", "\U0001F600", "\u0300\u0301\u0302", "가", "\u1100\u1161", "②"}))
				default:
					b.WriteRune(letters[c.Rng.IntN(len(letters))])
				}
			}
			in = append(in, jargon.NewToken(b.String(), c.Rng.IntN(5) == 0), jargon.NewToken(" ", false))
			c.See("long_token_bytes", b.Len())
		}
		got, err, runaway := drain(source(in).Filter(st.filter), tooLong(len(in)))
		if err != nil || runaway {
			c.Fail("%d tokens, then %v", len(got), err)
			return
		}
		if d := diff(st.ref(seeAll(in)), got); d != "" {
			c.Fail("%s, over tokens of up to %d bytes: %.2000s", st.name, len(in[0].String()), d)
			return
		}
		c.See("long_tokens", len(in)/2)
		c.Distinct(st.name, fmt.Sprint(c.Index))
	})
}

// only is a choice of one or several stages.
func only(stages ...stage) func(*rand.Rand) stage {
	return func(rng *rand.Rand) stage { return mon.Pick(rng, stages) }
}
