package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	"verif/mon"
)

// against runs a filter over tokens and compares with the reference output.
func against(c *mon.Case, what string, f jargon.Filter, in []tok, want []tok) []tok {
	got := mustDrain(c, source(real(in)).Filter(f), len(concat(in)))
	c.See("tokens_in", len(in))
	c.See("tokens_out", len(got))
	for _, t := range got {
		if t.Lemma {
			c.See("lemmas", 1)
		}
	}
	if d := diff(want, got); d != "" {
		c.Fail("%s: %s", what, d)
	}
	return got
}

// anyTokens makes a token sequence as a filter may meet it: from text, from markup, or the output of other filters.
func anyTokens(c *mon.Case, g *mon.Gen, text string) []tok {
	switch c.Rng.IntN(8) {
	case 0:
		ts, _ := refHTML(genHTML(c.Rng, g, 1+c.Rng.IntN(4)) + text)
		// as seen by a filter whose input was rebuilt from values
		for i := range ts {
			ts[i] = classify(ts[i].V, false)
		}
		return ts
	case 1:
		ts := refText(text)
		for i := range ts {
			if c.Rng.IntN(3) == 0 {
				ts[i].Lemma = true
			}
		}
		return ts
	case 2:
		ts := refText(text)
		for i := range ts {
			if c.Rng.IntN(6) == 0 {
				ts[i] = classify(g.Word(c.Rng), c.Rng.IntN(2) == 0)
			}
		}
		return select_(ts, func(t tok) bool { return t.V != "" })
	}
	return refText(text)
}

//
// C09
//

func checkSynonyms(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case makes a synonym table (overlapping and prefix-sharing entries, case and ignored characters on or off, empty and multi-word canonicals) and a token sequence dense in hits and near misses, runs the real filter, and compares every observed token with a leftmost-longest reference model. Non-trivial: at least one replacement; distinct by table and input.")
	r.Assume("tables in which two entries claim the same spelling for different canonicals are left to C10")

	one := func(c *mon.Case, m map[string]string, ic bool, ig []rune, in []tok) {
		model := newSynModel(m, ic, ig)
		if model.conflict {
			c.See("conflicting_tables_skipped", 1)
			return
		}
		c.Note("table", fmt.Sprintf("%q ignoreCase=%v ignore=%q", m, ic, string(ig)))
		c.Note("tokens", fmt.Sprint(in))
		want, n := model.apply(in)
		against(c, "synonyms", synonyms.NewFilter(m, ic, ig), in, want)
		c.See("replacements", n)
		if n > 0 {
			c.Distinct(fmt.Sprintf("%q %v %q", m, ic, string(ig)), concat(in))
		}
	}
	manyWords(r, "", bigTable(r))
	longRuns(r, func(rng *rand.Rand) stage {
		for {
			m := map[string]string{}
			for k := 1 + rng.IntN(4); k > 0; k-- {
				m[strings.Join(someWords(rng, []string{"a", "b", "x", "c"}), " ")] = fmt.Sprint("canon", k)
			}
			ic, ig := rng.IntN(2) == 0, [][]rune{nil, {' '}, {'-', ' '}}[rng.IntN(3)]
			if model := newSynModel(m, ic, ig); !model.conflict {
				return synStage(m, ic, ig, model)
			}
		}
	}, "a", "b", "A", "a", "b")
	longTokens(r, g, 1<<20, bigTable(r))
	r.Each("tables", r.Cases(60000, 900000), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		text := synText(c.Rng, g, m)
		one(c, m, ic, ig, anyTokens(c, g, text))
		c.Sample(map[string]any{"table": m, "text": text, "ignoreCase": ic, "ignore": string(ig)})
	})
	// tiny alphabets: every overlap of entries and texts is likely
	r.Each("dense", r.Cases(60000, 900000), func(c *mon.Case) {
		letters := []string{"a", "b", "c", "A", "é"}[:2+c.Rng.IntN(4)]
		if c.Rng.IntN(3) == 0 {
			letters = mon.Alphabet(c.Rng)
		}
		phrase := func(n int) string {
			var b strings.Builder
			for k := 1 + c.Rng.IntN(n); k > 0; k-- {
				b.WriteString(mon.Pick(c.Rng, letters))
				if k > 1 {
					b.WriteString(mon.Pick(c.Rng, []string{" ", " ", "", "  "}))
				}
			}
			return b.String()
		}
		m := map[string]string{}
		for k := 1 + c.Rng.IntN(5); k > 0; k-- {
			key := phrase(5)
			if c.Rng.IntN(3) == 0 {
				key += ", " + phrase(5)
			}
			m[key] = mon.Pick(c.Rng, []string{"X", "Y y", "Z.z", "", "a", "a b"})
		}
		ic := c.Rng.IntN(2) == 0
		var ig []rune
		switch c.Rng.IntN(4) {
		case 0:
			ig = []rune{' '}
		case 1:
			ig = []rune{' ', 'c'}
		}
		var b strings.Builder
		for k := 1 + c.Rng.IntN(20); k > 0; k-- {
			b.WriteString(phrase(3))
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", " ", "  ", ".", ", ", "\n", "", "\u00a0"}))
		}
		one(c, m, ic, ig, refText(b.String()))
	})
	// long entries and big tables
	r.Each("long", r.Cases(1500, 20000), func(c *mon.Case) {
		n := 2 + c.Rng.IntN(14)
		var ws []string
		for i := 0; i < n; i++ {
			ws = append(ws, mon.Pick(c.Rng, []string{"one", "two", "three", "x", "long", "été"}))
		}
		m := map[string]string{strings.Join(ws, " "): "whole"}
		for k := c.Rng.IntN(4); k > 0; k-- {
			i := c.Rng.IntN(n)
			j := i + 1 + c.Rng.IntN(n-i)
			m[strings.Join(ws[i:j], " ")] = fmt.Sprintf("part%d", k)
		}
		if c.Rng.IntN(3) == 0 {
			for k := 0; k < 300; k++ {
				m[fmt.Sprintf("filler%d thing, filler%d", k, k)] = fmt.Sprintf("f%d", k)
			}
		}
		var b strings.Builder
		for k := 1 + c.Rng.IntN(6); k > 0; k-- {
			i := c.Rng.IntN(n)
			if c.Rng.IntN(2) == 0 {
				i = 0
			}
			j := i + 1 + c.Rng.IntN(n-i)
			if c.Rng.IntN(2) == 0 {
				j = n
			}
			b.WriteString(strings.Join(ws[i:j], mon.Pick(c.Rng, []string{" ", " ", "  ", "\u00a0"})))
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", ", ", ". ", " filler7 thing "}))
		}
		ig := []rune{' ', '\u00a0'}
		if c.Rng.IntN(3) == 0 {
			ig = nil
		}
		one(c, m, c.Rng.IntN(2) == 0, ig, refText(b.String()))
	})
	r.Each("big", r.Cases(60, 600), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		var b strings.Builder
		for b.Len() < r.Scale(40000, 200000) {
			b.WriteString(synText(c.Rng, g, m))
		}
		one(c, m, ic, ig, refText(b.String()))
	})
	// through the tokenizer, with any chunking
	r.Each("streams", r.Cases(6000, 90000), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		model := newSynModel(m, ic, ig)
		if model.conflict {
			return
		}
		text := synText(c.Rng, g, m)
		f := mon.RandomFeeder(c.Rng, g, text)
		c.NoteQ("input", text)
		c.Note("table", fmt.Sprintf("%q ignoreCase=%v ignore=%q", m, ic, string(ig)))
		want, n := model.apply(refText(text))
		got := mustDrain(c, jargon.Tokenize(f).Filter(synonyms.NewFilter(m, ic, ig)), len(text))
		if d := diff(want, got); d != "" {
			c.Fail("synonyms: %s", d)
		}
		c.See("replacements", n)
		if n > 0 {
			c.Distinct(fmt.Sprintf("%q %v %q", m, ic, string(ig)), text)
		}
	})
}

//
// C10
//

func checkSynonymBuild(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case builds filters repeatedly from equal tables (fresh maps, different insertion orders; often with colliding spellings) and runs them on the same text: all observed histories must be equal, on first and later uses, and the caller's table unchanged. Tables which cannot be built must report an error on every use of every stream, with no tokens and no panic. Non-trivial: table with at least one replacement or a failing build; distinct by table and text.")

	r.Each("determinism", r.Cases(6000, 80000), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		if c.Rng.IntN(2) == 0 {
			// collide
			keys := sortedKeys(m)
			k := mon.Pick(c.Rng, keys)
			first := strings.TrimSpace(strings.Split(k, ",")[0])
			m[first+", zzz"] = "collision1"
			m["yyy, "+strings.ToUpper(first)] = "collision2"
			m["xxx,"+first] = "collision3"
		}
		text := synText(c.Rng, g, m)
		c.Note("table", fmt.Sprintf("%q ignoreCase=%v ignore=%q", m, ic, string(ig)))
		c.NoteQ("input", text)
		was := fmt.Sprintf("%q", m)
		keys := sortedKeys(m)
		var want []tok
		for i := 0; i < 12; i++ {
			c.Rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
			again := map[string]string{}
			for _, k := range keys {
				again[k] = m[k]
			}
			f := synonyms.NewFilter(again, ic, append([]rune{}, ig...))
			for use := 0; use < 2; use++ {
				got := mustDrain(c, jargon.TokenizeString(text).Filter(f), len(text))
				c.See("runs", 1)
				if i == 0 && use == 0 {
					want = got
					continue
				}
				if d := diff(want, got); d != "" {
					c.Fail("build %d, use %d differs from the first one: %s", i, use, d)
					return
				}
			}
			if fmt.Sprintf("%q", again) != was {
				c.Fail("the filter changed the caller's table")
			}
		}
		for _, t := range want {
			if t.Lemma {
				c.Distinct(was, text)
			}
		}
		c.Sample(map[string]any{"table": m, "text": text})
	})
	r.Each("failing", r.Cases(300, 3000), func(c *mon.Case) {
		m, ic, ig := randomSynonyms(c.Rng, g)
		n := 70000 + c.Rng.IntN(50000)
		long := strings.Repeat(mon.Pick(c.Rng, []string{"a", "é", "z"}), n)
		m[mon.Pick(c.Rng, []string{"", "x, ", "rails, "})+long] = "too long"
		c.Note("table", fmt.Sprintf("with a synonym of %d characters", n))
		f := synonyms.NewFilter(m, ic, ig)
		// the limit itself is not the property: if the table can be built, it has to work
		_, err := f(jargon.TokenizeString("probe")).Count()
		if err == nil {
			c.See("long_tables_built", 1)
			model := newSynModel(m, ic, ig)
			text := synText(c.Rng, g, map[string]string{"ruby": ""})
			if !model.conflict {
				want, _ := model.apply(refText(text))
				against(c, "synonyms", f, refText(text), want)
			}
			return
		}
		for use := 0; use < 4; use++ {
			text := g.Any(c.Rng) + "x"
			c.NoteQ("input", text)
			s := f(jargon.TokenizeString(text))
			for call := 0; call < 3; call++ {
				t, err := s.Next()
				if t != nil {
					c.Fail("use %d: a filter which could not be built delivers %s", use, see(t))
				}
				if err == nil {
					c.Fail("use %d, call %d: a filter which could not be built ends its stream cleanly", use, call)
				}
				c.See("failures_reported", 1)
			}
			o := consumeWith(c, c.Rng.IntN(consumers), f(jargon.TokenizeString(text)), tooLong(len(text)))
			if o.err == nil {
				c.Fail("use %d, %s: no error", use, o.how)
			}
		}
		c.Distinct(fmt.Sprint(n), fmt.Sprint(m))
	})
	r.Each("empty", r.Cases(2000, 20000), func(c *mon.Case) {
		// tables with nothing to match leave everything alone
		m := map[string]string{}
		for k := c.Rng.IntN(4); k > 0; k-- {
			m[mon.Pick(c.Rng, []string{"", " ", ",", ", ,", " , ", ",,", "  ,\t,"})] = "never"
		}
		if c.Rng.IntN(4) == 0 {
			m = nil
		}
		text := g.Any(c.Rng)
		c.Note("table", fmt.Sprintf("%q", m))
		c.NoteQ("input", text)
		in := refText(text)
		got := against(c, "a table without synonyms", synonyms.NewFilter(m, c.Rng.IntN(2) == 0, nil), in, in)
		if len(got) > 0 {
			c.Distinct(fmt.Sprintf("%q", m), text)
		}
	})
}

func sortedKeys(m map[string]string) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

//
// C12, C13: dictionaries
//

// known reads the findings recorded for a property.
func known(r *mon.Run) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		r.Internal("known findings: %v", err)
		return out
	}
	prefix := "known: property=" + r.Prop + " entry="
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, prefix); ok {
			v, err := strconv.QuotedPrefix(s)
			if err == nil {
				v, err = strconv.Unquote(v)
			}
			if err != nil {
				r.Internal("known findings: %q: %v", l, err)
				continue
			}
			out[v] = true
		}
	}
	return out
}

// spellings are variations which the dictionary's documentation promises to be insensitive to.
func spellings(r *rand.Rand, s string, inWord []string) []string {
	out := []string{s, strings.ToUpper(s), strings.ToLower(s), mon.Recase(r, s), strings.ReplaceAll(s, " ", "  ")}
	if i := strings.Index(s, " "); i > 0 {
		out = append(out, strings.ReplaceAll(s, " ", ""))
		for _, j := range inWord {
			out = append(out, strings.ReplaceAll(s, " ", j))
		}
	}
	// leave out each kind of mark it has, and put marks inside its words
	for _, j := range inWord {
		if strings.Contains(s, j) {
			out = append(out, strings.ReplaceAll(s, j, ""), strings.ReplaceAll(s, j, mon.Pick(r, inWord)))
		}
		at := r.IntN(len(s) + 1)
		for at > 0 && at < len(s) && !utf8.RuneStart(s[at]) {
			at--
		}
		out = append(out, s[:at]+j+s[at:])
	}
	return out
}

func checkDictionary(r *mon.Run, g *mon.Gen, st stage, model *synModel, table map[string]string, otherTerms []string) {
	syn, canon := synonymsOf(table)
	findings := known(r)

	manyWords(r, "", st)
	longRuns(r, only(st), "ruby", "on", "rails", "Stephen", "Curry", "LeBron", "James", "c#", "java", "-")
	// every entry, in its own spelling
	r.Each("entries", len(syn), func(c *mon.Case) {
		s, want := syn[c.Index], canon[c.Index]
		c.NoteQ("synonym", s)
		c.NoteQ("canonical", want)
		for _, ctx := range []struct{ pre, post string }{{"", ""}, {"zzq ", " zzq"}, {"zzq, ", ". zzq"}, {"(", ")"}, {"\n", "\n"}, {"“", "”"}} {
			text := ctx.pre + s + ctx.post
			got := mustDrain(c, jargon.TokenizeString(text).Filter(st.filter), len(text))
			expect := append(append(refText(ctx.pre), classify(want, true)), refText(ctx.post)...)
			c.See("entries_observed", 1)
			if diff(expect, got) == "" {
				continue
			}
			// not recognized: is it the recorded finding, failing in the recorded way?
			asModel, _ := model.apply(refText(text))
			if findings[s] && diff(asModel, got) == "" {
				c.See("known_findings", 1)
				if ctx.pre == "" {
					c.Finding(fmt.Sprintf("entry %q is not recognized as %q: its own spelling contains a punctuation token, which breaks the run of words", s, want))
				}
				continue
			}
			c.NoteQ("input", text)
			c.Fail("%q is not recognized as %q: %s", s, want, diff(expect, got))
			return
		}
		c.Distinct(s)
		c.Sample(map[string]string{"synonym": s, "canonical": want})
	})
	// every entry, respelled
	r.Each("spellings", len(syn)*r.Cases(2, 20), func(c *mon.Case) {
		s := syn[c.Index%len(syn)]
		for _, v := range spellings(c.Rng, s, []string{"-", ".", "/", "'", "–", "’", "_", "\u00a0", "\t"}) {
			text := mon.Pick(c.Rng, []string{"", "the ", "a, ", "use"}) + v + mon.Pick(c.Rng, []string{"", " dev", ".", "x", " " + mon.Pick(c.Rng, syn)})
			c.NoteQ("input", text)
			in := refText(text)
			want, n := model.apply(in)
			got := mustDrain(c, jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text)).Filter(st.filter), len(text))
			if d := diff(want, got); d != "" {
				c.Fail("%s", d)
				return
			}
			c.See("replacements", n)
			c.Distinct(text)
			// the same spelling as a single token, as another tokenizer may give it
			in = []tok{classify(v, false)}
			want, n = model.apply(in)
			against(c, st.name, st.filter, in, want)
			c.See("replacements", n)
		}
	})
	// the near misses of every entry: one slip, ending or beginning more
	r.Each("near", len(syn), func(c *mon.Case) {
		near := mon.Near(syn[c.Index])
		for k := r.Scale(24, len(near)); k > 0; k-- {
			v := near[k%len(near)]
			if !r.Thorough() {
				v = mon.Pick(c.Rng, near)
			}
			text := v + mon.Pick(c.Rng, []string{"", " dev", ", "})
			c.NoteQ("input", text)
			want, n := model.apply(refText(text))
			got := mustDrain(c, jargon.TokenizeString(text).Filter(st.filter), len(text))
			if d := diff(want, got); d != "" {
				c.Fail("%s", d)
				return
			}
			in := []tok{classify(v, false), classify(" ", false)}
			one, m := model.apply(in)
			against(c, st.name, st.filter, in, one)
			c.See("replacements", n+m)
			c.See("near_misses", 2)
		}
		c.Distinct("near", syn[c.Index])
	})
	// case and inner spaces must not matter, whatever the model says
	r.Each("insensitive", len(syn), func(c *mon.Case) {
		s := syn[c.Index]
		count := func(text string) (string, int) {
			got := mustDrain(c, jargon.TokenizeString(text).Filter(st.filter), len(text))
			if len(got) == 1 && got[0].Lemma {
				return got[0].V, 1
			}
			return "", 0
		}
		base, ok := count(s)
		if ok == 0 {
			return
		}
		// letters whose case mapping is not one to one have no other case to compare with
		for _, v := range []string{strings.ToUpper(s), strings.ToLower(s), strings.ReplaceAll(s, " ", "  "), strings.ReplaceAll(s, " ", "   ")} {
			if model.norm(v) != model.norm(s) {
				continue
			}
			if got, ok := count(v); ok == 0 || got != base {
				c.Fail("%q is recognized as %q, but %q as %q", s, base, v, got)
			}
			c.See("variants", 1)
		}
		c.Distinct(s)
	})
	r.Each("texts", r.Cases(15000, 250000), func(c *mon.Case) {
		var b strings.Builder
		for k := 1 + c.Rng.IntN(10); k > 0; k-- {
			switch c.Rng.IntN(6) {
			case 0, 1:
				b.WriteString(mon.Recase(c.Rng, mon.Pick(c.Rng, syn)))
			case 2:
				// part of an entry, or two entries run together
				ws := strings.Fields(mon.Pick(c.Rng, syn))
				b.WriteString(strings.Join(ws[:1+c.Rng.IntN(len(ws))], " "))
			case 3:
				b.WriteString(mon.Pick(c.Rng, canon))
			default:
				b.WriteString(g.Word(c.Rng))
			}
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", " ", "  ", ", ", ". ", "-", "/", "\n", "", "."}))
		}
		text := b.String()
		c.NoteQ("input", text)
		in := anyTokens(c, g, text)
		want, n := model.apply(in)
		against(c, st.name, st.filter, in, want)
		c.See("replacements", n)
		if n > 0 {
			c.Distinct(concat(in))
		}
	})
	// ordinary words which are not in the dictionary stay
	r.Each("prose", r.Cases(1500, 20000), func(c *mon.Case) {
		text := g.Prose(c.Rng, 200+c.Rng.IntN(2000))
		c.NoteQ("input", text)
		in := refText(text)
		want, n := model.apply(in)
		against(c, st.name, st.filter, in, want)
		c.See("replacements", n)
		c.Distinct(text)
	})
}

func checkStackOverflow(r *mon.Run, g *mon.Gen) {
	r.Rule("Every entry of the frozen tag dictionary is observed through the shipped filter in six contexts and in respelled forms, and dense mixtures of entries, parts of entries and other words are compared token by token with the reference model over the frozen dictionary. Non-trivial: an entry or at least one replacement; distinct by text.")
	r.Assume("the dictionary content is the one shipped at the pinned commit (frozen in the harness)")
	checkDictionary(r, g, soStage, soModel, soTable, nil)
}

func checkNBA(r *mon.Run, g *mon.Gen) {
	r.Rule("Every entry of the frozen player dictionary is observed through the shipped filter in six contexts and in respelled forms, and dense mixtures of entries, parts of entries and other words are compared token by token with the reference model over the frozen dictionary. Non-trivial: an entry or at least one replacement; distinct by text.")
	r.Assume("the dictionary content is the one shipped at the pinned commit (frozen in the harness)")
	checkDictionary(r, g, nbaStage, nbaModel, nbaTable, nil)
	// diacritics in players' names do not matter
	syn, canon := synonymsOf(nbaTable)
	findings := known(r)
	r.Each("diacritics", len(syn), func(c *mon.Case) {
		s, want := syn[c.Index], canon[c.Index]
		fold := refFold(s)
		if fold == s || findings[s] || findings[fold] {
			return
		}
		c.NoteQ("input", fold)
		got := mustDrain(c, jargon.TokenizeString(fold).Filter(nbaStage.filter), len(fold))
		if d := diff([]tok{classify(want, true)}, got); d != "" {
			c.Fail("without diacritics: %s", d)
		}
		c.See("entries_observed", 1)
		c.Distinct(fold)
	})
}

//
// C14
//

func checkContractions(r *mon.Run, g *mon.Gen) {
	r.Rule("Every documented contraction in every case and apostrophe variation, and texts dense in contractions, near-contractions and other words, are observed through the shipped filter and compared token by token with the reference expansion. Non-trivial: at least one expansion; distinct by input.")

	var keys []string
	for k := range contractionsTable {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	manyWords(r, "", contractionsStage)
	longRuns(r, only(contractionsStage), "don't", "CAN’T", "shouldn't", "it's", "its", "who'd've", "cAn't")
	longTokens(r, g, 1<<20, contractionsStage)
	r.Each("entries", len(keys), func(c *mon.Case) {
		k := keys[c.Index]
		for _, v := range []string{k, strings.ToUpper(k), strings.ToLower(k), titled(k), mon.Recase(c.Rng, k), mon.Recase(c.Rng, k), k[:1] + strings.ToUpper(k[1:])} {
			for _, ctx := range []struct{ pre, post string }{{"", ""}, {"and ", " so"}, {"(", ")"}, {"", "."}, {"don't ", " can't"}, {"\"", "\""}} {
				text := ctx.pre + v + ctx.post
				c.NoteQ("input", text)
				want, n := refContractions(refText(text))
				got := mustDrain(c, jargon.TokenizeString(text).Filter(contractions.Expand), len(text))
				if d := diff(want, got); d != "" {
					c.Fail("%s", d)
					return
				}
				c.See("expansions", n)
			}
			c.Distinct(v)
		}
		c.Sample(map[string]string{"contraction": k, "expansion": contractionsTable[k]})
	})
	// every near miss of every contraction: one slip, ending or beginning more
	r.Each("near", len(keys), func(c *mon.Case) {
		k := keys[c.Index]
		for _, v := range mon.Near(k) {
			for _, v := range []string{v, strings.ToUpper(v), titled(v), mon.Recase(c.Rng, v)} {
				text := v + mon.Pick(c.Rng, []string{"", " so", ", "})
				c.NoteQ("input", text)
				in := refText(text)
				want, n := refContractions(in)
				got := mustDrain(c, jargon.TokenizeString(text).Filter(contractions.Expand), len(text))
				if d := diff(want, got); d != "" {
					c.Fail("%s", d)
					return
				}
				c.See("expansions", n)
				// as a single token, as another tokenizer may give it
				in = []tok{classify(v, false), classify(" ", false)}
				want, n = refContractions(in)
				against(c, "contractions", contractions.Expand, in, want)
				c.See("expansions", n)
				c.See("near_misses", 2)
			}
		}
		c.Distinct("near", k)
	})
	r.Each("texts", r.Cases(40000, 600000), func(c *mon.Case) {
		var b strings.Builder
		for k := 1 + c.Rng.IntN(10); k > 0; k-- {
			switch c.Rng.IntN(6) {
			case 0, 1:
				b.WriteString(mon.Recase(c.Rng, mon.Pick(c.Rng, keys)))
			case 2:
				// near miss
				b.WriteString(g.Mutate(c.Rng, mon.Pick(c.Rng, keys)))
			case 3:
				b.WriteString(mon.Pick(c.Rng, []string{"o'clock", "it's", "that's", "let's", "y'all", "ain't", "rock'n'roll", "'tis", "I", "weren't", "shan't", "what's", "don't've", "DON'Ts", "cannots", "can", "not", "don' t", "don`t", "don′t", "donʼt", "İ'm", "ı'm", "i’ll", "İ’LL"}))
			default:
				b.WriteString(g.Word(c.Rng))
			}
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", " ", ", ", ". ", "-", "\n", ""}))
		}
		text := b.String()
		c.NoteQ("input", text)
		in := anyTokens(c, g, text)
		want, n := refContractions(in)
		against(c, "contractions", contractions.Expand, in, want)
		c.See("expansions", n)
		if n > 0 {
			c.Distinct(concat(in))
		}
	})
	r.Each("big", r.Cases(40, 400), func(c *mon.Case) {
		var b strings.Builder
		for b.Len() < r.Scale(60000, 300000) {
			b.WriteString(mon.Recase(c.Rng, mon.Pick(c.Rng, keys)) + mon.Pick(c.Rng, []string{" ", ", ", " x "}))
		}
		text := b.String()
		want, n := refContractions(refText(text))
		got := mustDrain(c, jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text)).Filter(contractions.Expand), len(text))
		if d := diff(want, got); d != "" {
			c.Fail("%s", d)
		}
		c.See("expansions", n)
		c.Distinct(text)
	})
}

//
// C15
//

func checkASCII(r *mon.Run, g *mon.Gen) {
	r.Rule("Every code point alone and in context, every pair drawn from the folding table, and generated texts (with invalid UTF-8) are folded by the shipped functions and compared with the frozen Lucene table; tokens are marked as lemmas exactly when changed. Non-trivial: contains a character beyond ASCII; distinct by value.")
	r.Assume("the table is that of Lucene's ASCIIFoldingFilter, as shipped beside the source at the pinned commit (frozen in the harness)")

	one := func(c *mon.Case, s string) {
		got, folded := ascii.FoldString(s)
		want := refFold(s)
		if got != want {
			c.NoteQ("input", s)
			c.Fail("FoldString(%q): want %q, got %q", s, want, got)
			return
		}
		if folded != (want != s) {
			c.Fail("FoldString(%q) = %q reports folded=%v", s, got, folded)
		}
		if again, f := ascii.FoldString(got); again != got || f {
			c.Fail("folding %q again gives %q, %v", got, again, f)
		}
		if folded {
			c.See("folded", 1)
		}
	}
	manyWords(r, "", asciiStage)
	longRuns(r, only(asciiStage), "é", "e", "ﬁ", "œuf", "\xff", "ß")
	longTokens(r, g, 1<<20, asciiStage)
	r.Each("codepoints", 0x1100, func(c *mon.Case) {
		for k := 0; k < 256; k++ {
			v := rune(c.Index*256 + k)
			if !utf8.ValidRune(v) {
				continue
			}
			s := string(v)
			for _, x := range []string{s, "a" + s, s + "a", s + s, "x" + s + "y" + s, s + "é", "é" + s, s + "\xff", "\xff" + s} {
				one(c, x)
			}
			if t := jargon.NewToken(s, false); t != nil {
				want, _ := refMap([]tok{see(t)}, func(t tok) string { return refFold(t.V) })
				against(c, "Fold", ascii.Fold, []tok{see(t)}, want)
			}
			c.Distinct(s)
		}
	})
	var table []rune
	for k := range foldTable {
		table = append(table, k)
	}
	sort.Slice(table, func(i, j int) bool { return table[i] < table[j] })
	r.Each("table", len(table), func(c *mon.Case) {
		v := table[c.Index]
		for _, ch := range foldTable[v] {
			if ch > 0x7f {
				c.Internal("table maps %q beyond ASCII", v)
			}
		}
		for k := 0; k < r.Scale(40, 400); k++ {
			s := string(v) + string(mon.Pick(c.Rng, table))
			if k%2 == 0 {
				s = g.Word(c.Rng) + s + g.Word(c.Rng)
			}
			one(c, s)
			c.Distinct(s)
		}
		c.Sample(map[string]string{"from": string(v), "to": foldTable[v]})
	})
	r.Each("texts", r.Cases(30000, 400000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		if c.Rng.IntN(2) == 0 {
			rs := []rune(g.Text(c.Rng, 1+c.Rng.IntN(6)))
			for k := 1 + c.Rng.IntN(6); k > 0 && len(rs) > 0; k-- {
				rs[c.Rng.IntN(len(rs))] = mon.Pick(c.Rng, table)
			}
			text = string(rs)
		}
		c.NoteQ("input", text)
		one(c, text)
		in := anyTokens(c, g, text)
		want, n := refMap(in, func(t tok) string { return refFold(t.V) })
		against(c, "Fold", ascii.Fold, in, want)
		c.See("tokens_folded", n)
		if n > 0 {
			c.Distinct(concat(in))
		}
	})
	r.Each("long", r.Cases(200, 2000), func(c *mon.Case) {
		n := g.Len(c.Rng, 70000)
		s := strings.Repeat(mon.Pick(c.Rng, []string{"a", "é", "Æ", "x\xff", "日"}), n) + string(mon.Pick(c.Rng, table))
		one(c, s)
		c.Distinct(fmt.Sprint(n), s[max(0, len(s)-20):])
	})
}

//
// C16, C17
//

// assignedBlocks are the blocks of 256 code points to visit: all of them, or (quick) those
// in which anything is assigned plus one in 64 of the others.
func assignedBlocks(r *mon.Run) (out []int) {
	for b := 0; b < 0x1100; b++ {
		use := r.Thorough() || b%64 == 0 || b < 0x10
		for k := 0; k < 256 && !use; k++ {
			v := rune(b*256 + k)
			use = unicode.IsGraphic(v) || unicode.Is(unicode.Cf, v)
		}
		if b >= 0x34 && b < 0x4d || b >= 0x4e && b < 0x9f || b >= 0xac && b < 0xd7 || b >= 0x200 && b < 0x330 {
			// ideographs and syllables: a sample is enough for the quick tier
			use = r.Thorough() || b%8 == 0
		}
		if use {
			out = append(out, b)
		}
	}
	return out
}

func checkStages(r *mon.Run, g *mon.Gen, stages []stage, words []string) {
	manyWords(r, "", stages...)
	longRuns(r, only(stages...), "running", "run", "e\u0301", "é", "ﬁ", "maisons", "собаки", "corriendo", "Å")
	most := 1 << 20
	if strings.HasPrefix(stages[0].name, "stem") {
		most = 5000 // the stemmers take long
	}
	longTokens(r, g, most, stages...)
	blocks := assignedBlocks(r)
	r.Each("codepoints", len(blocks), func(c *mon.Case) {
		var in []tok
		for k := 0; k < 256; k++ {
			if v := rune(blocks[c.Index]*256 + k); utf8.ValidRune(v) {
				in = append(in, classify(string(v), false), classify("x"+string(v)+"ing", false))
			}
		}
		for _, st := range stages {
			against(c, st.name, st.filter, in, st.ref(in))
		}
		c.Distinct(concat(in))
	})
	r.Each("words", len(words)+r.Cases(20000, 300000), func(c *mon.Case) {
		var w string
		if c.Index < len(words) {
			w = words[c.Index]
		} else {
			w = g.Word(c.Rng)
			switch c.Rng.IntN(4) {
			case 0:
				w = mon.Recase(c.Rng, mon.Pick(c.Rng, words))
			case 1:
				w = mon.Pick(c.Rng, mon.Near(mon.Pick(c.Rng, words)))
			}
		}
		if w == "" || len(w) > 3000 {
			return
		}
		in := []tok{classify(w, false), classify(w, true), classify(mon.Recase(c.Rng, w), false)}
		for _, st := range stages {
			got := against(c, st.name, st.filter, in, st.ref(in))
			if len(got) == 3 && got[0].Lemma {
				c.See("changed", 1)
				c.Distinct(st.name, w)
			}
		}
		c.Sample(fmt.Sprintf("%.100q", w))
	})
	r.Each("texts", r.Cases(12000, 150000), func(c *mon.Case) {
		text := g.Any(c.Rng)
		c.NoteQ("input", text)
		in := anyTokens(c, g, text)
		for _, st := range stages {
			against(c, st.name, st.filter, in, st.ref(in))
		}
		c.Distinct(concat(in))
	})
	r.Each("prose", r.Cases(150, 2000), func(c *mon.Case) {
		text := g.Prose(c.Rng, 8000)
		c.NoteQ("input", text)
		in := refText(text)
		for _, st := range stages {
			want := st.ref(in)
			got := mustDrain(c, jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text)).Filter(st.filter), len(text))
			if d := diff(want, got); d != "" {
				c.Fail("%s: %s", st.name, d)
			}
		}
		c.Distinct(text)
	})
}

// corpusWords are the distinct words of the repository's corpus and of the word lists here.
func corpusWords(g *mon.Gen) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		for _, t := range refText(s) {
			if t.word() && !seen[t.V] && len(t.V) < 60 {
				seen[t.V] = true
				out = append(out, t.V)
			}
		}
	}
	add(g.Corpus)
	add(foreign)
	sort.Strings(out)
	if len(out) > 20000 {
		out = out[:20000]
	}
	return out
}

const foreign = `
le chien courait rapidement dans les forêts enchantées nous mangerons continuellement majestueusement heureuse heureux nationalité
los perros corrían rápidamente por los bosques encantados comeremos continuamente nacionalidad haciéndolo dígamelo cantándole
собаки бегали быстро по заколдованным лесам продолжительность национальность красивейший бегущая читавшими ейш вшись
hundene løp raskt gjennom de fortryllede skogene nasjonalitet vakreste kjærligheten hundarna sprang snabbt genom de förtrollade skogarna nationaliteten vackraste kärleken
running runner runs easily fairly generously generations national nationalism skies dying lying news inning exceed proceed succeed ties cried by say YES'S dog's dogs' dog’s ADVISORS
`

func checkStemmers(r *mon.Run, g *mon.Gen) {
	r.Rule("Every word of the corpus, of the generator, and every code point (alone and inside a word) goes through the six shipped stemmers; each observed token must be the Snowball stem of its word (kept if that is empty or equal), marked as a lemma exactly when changed, spaces and punctuation untouched, one for one. Non-trivial: a changed word; distinct by language and word.")
	r.Assume("the stems are those of the pinned kljensen/snowball module")
	checkStages(r, g, stemStages, corpusWords(g))
}

func checkNorm(r *mon.Run, g *mon.Gen) {
	r.Rule("Every code point (alone and inside a word), sequences of base and combining characters, and generated texts go through the four shipped normalizers; each observed token must be the normal form of its input token, marked as a lemma exactly when changed, one for one; normalizing again changes nothing (but where the library's own form is unstable). Non-trivial: a changed token; distinct by form and value.")
	r.Assume("the normal forms are those of the pinned golang.org/x/text module")
	words := corpusWords(g)
	if len(words) > 3000 {
		words = words[:3000]
	}
	checkStages(r, g, normStages, words)
	r.Each("sequences", r.Cases(30000, 400000), func(c *mon.Case) {
		var in []tok
		for k := 1 + c.Rng.IntN(6); k > 0; k-- {
			var b strings.Builder
			for j := 1 + c.Rng.IntN(5); j > 0; j-- {
				switch c.Rng.IntN(4) {
				case 0:
					b.WriteString(mon.Pick(c.Rng, []string{"a", "e", "o", "A", "ſ", "ﬁ", "①", "Å", "Ω", "가", "각", "ᄀ", "ᅡ", "ᆨ", "が", "か", "\u1e9b", "\u0958", "\u2126", "㌀", "ﷺ", "½"}))
				case 1, 2:
					b.WriteRune(rune(0x300 + c.Rng.IntN(0x50)))
				case 3:
					b.WriteRune(g.Rune(c.Rng))
				}
			}
			in = append(in, classify(b.String(), c.Rng.IntN(3) == 0))
		}
		c.Note("tokens", fmt.Sprint(in))
		for _, st := range normStages {
			got := against(c, st.name, st.filter, in, st.ref(in))
			again := mustDrain(c, source(real(got)).Filter(st.filter), 1000)
			// the same as once; but the pinned library composes a few supplementary characters wrongly
			// (U+103D2 U+0301 as if it were U+03D2 U+0301), to something which is not a normal form
			want := st.ref(got)
			if diff(got, want) != "" {
				c.See("unstable_forms", 1)
			}
			if d := diff(want, again); d != "" {
				c.Fail("%s of its own result: %s", st.name, d)
			}
		}
		c.Distinct(concat(in))
	})
}

//
// C18
//

func checkStopwords(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case makes a stop list (any words, spaces, punctuation, duplicates; case ignored or not) and a token sequence dense in stop words, other cases of them and near misses; the observed output must be exactly the tokens whose value is not listed, in order and unchanged. Non-trivial: at least one token removed and one kept; distinct by list and input.")
	r.Assume("case is ignored in the sense of Go's strings.ToLower on both sides")

	manyWords(r, "", bigStops(r)...)
	longRuns(r, func(rng *rand.Rand) stage {
		stop, ic := someWords(rng, []string{"the", "a", " ", ",", "A"}), rng.IntN(2) == 0
		return stage{fmt.Sprintf("stop words %q, %v", stop, ic), stopwords.NewFilter(stop, ic), func(in []tok) []tok { return refStop(in, stop, ic) }}
	}, "the", "The", "a", "A", "an")
	longTokens(r, g, 1<<20, bigStops(r)...)
	r.Each("lists", r.Cases(60000, 900000), func(c *mon.Case) {
		var stop []string
		for k := c.Rng.IntN(8); k > 0; k-- {
			w := g.Word(c.Rng)
			if ts := refText(w); len(ts) > 0 && c.Rng.IntN(4) != 0 {
				w = mon.Pick(c.Rng, ts).V
			}
			if c.Rng.IntN(2) == 0 {
				w = mon.Recase(c.Rng, w)
			}
			stop = append(stop, w)
			if c.Rng.IntN(8) == 0 {
				stop = append(stop, w)
			}
		}
		if c.Rng.IntN(6) == 0 {
			stop = append(stop, mon.Pick(c.Rng, []string{" ", ".", "", "\n", ",", "two words"}))
		}
		var b strings.Builder
		for k := c.Rng.IntN(16); k > 0; k-- {
			if c.Rng.IntN(2) == 0 && len(stop) > 0 {
				s := mon.Pick(c.Rng, stop)
				switch c.Rng.IntN(4) {
				case 0:
					s = mon.Recase(c.Rng, s)
				case 1:
					if s != "" && len(s) < 100 {
						s = mon.Pick(c.Rng, mon.Near(s))
					}
				case 2:
					if c.Rng.IntN(2) == 0 {
						s = mon.Alias(c.Rng, s)
					}
				}
				b.WriteString(s)
			} else {
				b.WriteString(g.Word(c.Rng))
			}
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", " ", ", ", ".", "\n"}))
		}
		ic := c.Rng.IntN(2) == 0
		text := b.String()
		in := anyTokens(c, g, text)
		c.Note("stop", fmt.Sprintf("%q ignoreCase=%v", stop, ic))
		c.Note("tokens", fmt.Sprint(in))
		was := fmt.Sprintf("%q", stop)
		want := refStop(in, stop, ic)
		f := stopwords.NewFilter(stop, ic)
		if fmt.Sprintf("%q", stop) != was {
			c.Fail("the caller's list was changed")
		}
		if c.Rng.IntN(3) == 0 {
			// the caller goes on to use the list for something else
			for i := range stop {
				stop[i] = mon.Pick(c.Rng, []string{"", "overwritten", " ", g.Word(c.Rng)})
			}
			c.Note("list", "overwritten after the filter was made")
		}
		against(c, "stopwords", f, in, want)
		c.See("removed", len(in)-len(want))
		if len(want) > 0 && len(want) < len(in) {
			c.Distinct(was, concat(in), fmt.Sprint(ic))
		}
		c.Sample(map[string]any{"stop": was, "ignoreCase": ic, "text": text})
	})
	r.Each("codepoints", 0x1100, func(c *mon.Case) {
		for k := 0; k < 256; k++ {
			v := rune(c.Index*256 + k)
			if !utf8.ValidRune(v) {
				continue
			}
			s := string(v)
			in := []tok{classify(s, false), classify(strings.ToUpper(s), false), classify(strings.ToLower(s), false), classify("x"+s, false), classify(string(unicode.SimpleFold(v)), true)}
			for _, ic := range []bool{false, true} {
				against(c, "stopwords", stopwords.NewFilter([]string{s, "unrelated"}, ic), in, refStop(in, []string{s}, ic))
			}
			c.Distinct(s)
		}
	})
	r.Each("long", r.Cases(60, 600), func(c *mon.Case) {
		var stop []string
		for k := c.Rng.IntN(5000); k >= 0; k-- {
			stop = append(stop, fmt.Sprintf("w%d", k*3))
		}
		var in []tok
		for k := 0; k < 20000; k++ {
			in = append(in, classify(fmt.Sprintf("w%d", c.Rng.IntN(15000)), false), classify(" ", false))
		}
		want := refStop(in, stop, c.Index%2 == 0)
		against(c, "stopwords", stopwords.NewFilter(stop, c.Index%2 == 0), in, want)
		c.See("removed", len(in)-len(want))
		c.Distinct(fmt.Sprint(len(stop)), fmt.Sprint(c.Index))
	})
}

//
// C19
//

func checkTwitter(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case runs the handle and hashtag filters, and filters for other sigils, over texts dense in sigils, legal and illegal names of every length around the limits, and word boundaries of every kind; every observed token is compared with a reference joiner. Non-trivial: at least one joined token; distinct by input.")

	both := []stage{handlesStage, hashtagsStage}
	manyWords(r, "@", handlesStage)
	manyWords(r, "#", hashtagsStage)
	longRuns(r, only(both...), "@", "#", "bob", "@", "#", "1")
	one := func(c *mon.Case, in []tok) {
		c.Note("tokens", fmt.Sprint(in))
		n := 0
		for _, st := range both {
			got := against(c, st.name, st.filter, in, st.ref(in))
			n += len(in) - len(got)
		}
		c.See("joined", n)
		if n > 0 {
			c.Distinct(concat(in))
		}
	}
	r.Each("texts", r.Cases(50000, 800000), func(c *mon.Case) {
		var b strings.Builder
		for k := 1 + c.Rng.IntN(10); k > 0; k-- {
			switch c.Rng.IntN(8) {
			case 0, 1:
				b.WriteString(mon.Pick(c.Rng, []string{"@", "#"}) + strings.Repeat(mon.Pick(c.Rng, []string{"a", "_", "Z", "9", "é", "ab1", "日", "①"}), c.Rng.IntN(18)))
			case 2:
				b.WriteString(mon.Pick(c.Rng, []string{"@", "#", "@@", "##", "@#", "#@", "@ ", "# ", "@.", "#.", "@\n", "\n@", "\n#", "(@", "“#", "x@", "x#", "1@", "é@", "_@", "@-", "'@", "@'", "#'", "🙂@", "$#", "+@", "\u0301@", "@\u0301", "#\u0301", "#🙂", "@️"}))
			default:
				b.WriteString(g.Word(c.Rng))
			}
			b.WriteString(mon.Pick(c.Rng, []string{" ", " ", " ", "", "", ".", ", ", "\n", "@", "#", "-", "_"}))
		}
		text := b.String()
		c.NoteQ("input", text)
		one(c, anyTokens(c, g, text))
		c.Sample(text)
	})
	// every name over a small alphabet, up to beyond the length limit
	r.Each("lengths", 40*24, func(c *mon.Case) {
		n := c.Index % 40
		unit := []string{"a", "Z", "5", "_", "é", "日", "ß", "Ⅷ", "٣", "1a", "-", "'", "😀", "\u0301", "\xff", ".", "z", "0", "A", "`", "{", "[", "/", ":"}[c.Index/40]
		name := strings.Repeat(unit, n)
		for _, v := range []string{name, name + "a", "a" + name, name + "_", name + "é", name + "1"} {
			if v == "" {
				continue
			}
			for _, sig := range []string{"@", "#"} {
				one(c, []tok{classify(sig, false), classify(v, false)})
				one(c, []tok{classify("x", false), classify(" ", false), classify(sig, false), classify(v, true), classify(".", false)})
			}
			one(c, refText("@"+v+" #"+v))
		}
	})
	r.Each("codepoints", 0x1100, func(c *mon.Case) {
		for k := 0; k < 256; k++ {
			v := rune(c.Index*256 + k)
			if !utf8.ValidRune(v) {
				continue
			}
			s := string(v)
			// as the name, in a name, and as the character before the sigil
			in := []tok{classify("@", false), classify(s, false), classify(" ", false), classify("#", false), classify(s, false), classify(" ", false), classify("#", false), classify("a"+s, false), classify(" ", false), classify("@", false), classify("a"+s, false), classify("\n", false),
				classify(s, false), classify("@", false), classify("b", false), classify(" ", false), classify(s, false), classify("#", false), classify("b", false)}
			for _, st := range both {
				got := against(c, st.name, st.filter, in, st.ref(in))
				c.See("joined", len(in)-len(got))
			}
			c.Distinct(s)
		}
	})
	// any sequence over a tiny alphabet of tokens
	alphabet := []string{"@", "#", "a", " ", ".", "é", "\n", "toolongtoolongtoolong"}
	n := len(alphabet)
	r.Each("sequences", 1+n+n*n+n*n*n+n*n*n*n+r.Scale(n*n*n*n*n, n*n*n*n*n+n*n*n*n*n*n), func(c *mon.Case) {
		i, block, k := c.Index, 1, 0
		for i >= block {
			i -= block
			block *= n
			k++
		}
		var in []tok
		for ; k > 0; k-- {
			in = append(in, classify(alphabet[i%n], false))
			i /= n
		}
		one(c, in)
	})
	r.Each("builder", r.Cases(12000, 150000), func(c *mon.Case) {
		sig := mon.Pick(c.Rng, []string{"$", "@", "#", "+", "!", "~", "¿", "x", "--", "€", "é", "#@"})
		kind := c.Rng.IntN(4)
		calls := 0
		legal := func(s string) bool {
			switch kind {
			case 0:
				return true
			case 1:
				return false
			case 2:
				return len(s)%2 == 1
			default:
				return strings.ToUpper(s) == s
			}
		}
		f := sigil.NewFilter(sig, func(s string) bool { calls++; return legal(s) })
		var in []tok
		for k := c.Rng.IntN(14); k > 0; k-- {
			in = append(in, classify(mon.Pick(c.Rng, []string{sig, sig, sig + "x", "x", "Y", " ", ".", "\n", "AB", "é", "$", "@"}), c.Rng.IntN(5) == 0))
		}
		c.Note("sigil", fmt.Sprintf("%q legal=%d", sig, kind))
		c.Note("tokens", fmt.Sprint(in))
		want, joined := refSigil(in, sig, legal)
		against(c, "sigil", f, in, want)
		c.See("joined", joined)
		if joined > 0 {
			c.Distinct(sig, fmt.Sprint(kind), concat(in))
		}
	})
	r.Each("streams", r.Cases(3000, 40000), func(c *mon.Case) {
		text := g.Text(c.Rng, 1+c.Rng.IntN(300))
		c.NoteQ("input", text)
		want, _ := refSigil(refText(text), "@", refHandle)
		want, _ = refSigil(want, "#", refHashtag)
		got := mustDrain(c, jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text)).Filter(twitter.Handles, twitter.Hashtags), len(text))
		if d := diff(want, got); d != "" {
			c.Fail("handles and hashtags: %s", d)
		}
		if t := concat(got); t != text {
			c.Fail("text is not preserved: %s", textDiff(text, t))
		}
		c.Distinct(text)
	})
}

//
// C20
//

func checkMapper(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case builds a mapper of recorded functions (identity, replacing, marking, value- and position-dependent) and observes that every function is called exactly once per token, in order, with the previous function's result, and that the output is the last result. Non-trivial: at least two tokens and one function; distinct by functions and input.")

	two := stage{"mapper", mapper.NewFilter(upcase, suffix), refUpcaseSuffix}
	manyWords(r, "", two)
	longRuns(r, only(two), "a", "A", "b", "é", "X")
	longTokens(r, g, 1<<20, two)
	r.Each("mappers", r.Cases(60000, 900000), func(c *mon.Case) {
		in := real(anyTokens(c, g, g.Any(c.Rng)))
		type call struct {
			f       int
			in, out *jargon.Token
		}
		var calls []call
		k := c.Rng.IntN(5)
		if c.Rng.IntN(200) == 0 {
			k = mon.Pick(c.Rng, []int{9, 17, 33, 70, 130, 300})
			in = in[:min(len(in), 20)]
		}
		var fs []func(*jargon.Token) *jargon.Token
		desc := ""
		for i := 0; i < k; i++ {
			kind := c.Rng.IntN(5)
			desc += fmt.Sprint(kind)
			fs = append(fs, func(t *jargon.Token) *jargon.Token {
				out := t
				switch kind {
				case 0:
				case 1:
					out = jargon.NewToken(t.String()+"z", true)
				case 2:
					out = jargon.NewToken(t.String(), !t.IsLemma())
				case 3:
					if len(t.String())%2 == 0 {
						out = jargon.NewToken("even", true)
					}
				case 4:
					if len(calls)%3 == 0 {
						out = jargon.NewToken(fmt.Sprint(len(calls)), false)
					}
				}
				calls = append(calls, call{i, t, out})
				return out
			})
		}
		c.Note("functions", desc)
		c.Note("tokens", fmt.Sprint(seeAll(in)))
		f := mapper.NewFilter(fs...)
		s := source(in).Filter(f)
		n := 0
		for {
			before := len(calls)
			t, err := s.Next()
			if err != nil {
				c.Fail("unexpected error %v", err)
				return
			}
			if t == nil {
				if len(calls) != before {
					c.Fail("functions are called at the end of the stream")
				}
				break
			}
			if n >= len(in) {
				c.Fail("more tokens than came in")
				return
			}
			cur := in[n]
			made := calls[before:]
			if len(made) != k {
				c.Fail("token %d: %d calls of %d functions", n, len(made), k)
				return
			}
			for i, m := range made {
				if m.f != i || m.in != cur {
					c.Fail("token %d: call %d is of function %d with %s, want %s", n, i, m.f, see(m.in), see(cur))
					return
				}
				cur = m.out
			}
			if t != cur {
				c.Fail("token %d: delivered %s, want %s", n, see(t), see(cur))
				return
			}
			n++
		}
		if n != len(in) {
			c.Fail("%d tokens in, %d out", len(in), n)
		}
		c.See("tokens", n)
		c.See("calls", len(calls))
		if n > 1 && k > 0 {
			c.Distinct(desc, fmt.Sprint(seeAll(in)))
		}
		c.Sample(map[string]any{"functions": desc, "tokens": n, "calls": len(calls)})
	})
	// one mapper, several streams at once
	r.Each("shared", r.Cases(6000, 80000), func(c *mon.Case) {
		f := mapper.NewFilter(upcase, suffix)
		var ins [][]tok
		var ss []*jargon.TokenStream
		for k := 2 + c.Rng.IntN(3); k > 0; k-- {
			in := anyTokens(c, g, g.Any(c.Rng))
			ins = append(ins, in)
			ss = append(ss, source(real(in)).Filter(f))
		}
		got := make([][]tok, len(ss))
		for left, done := len(ss), make([]bool, len(ss)); left > 0; {
			i := c.Rng.IntN(len(ss))
			if done[i] {
				continue
			}
			t, err := ss[i].Next()
			if t == nil || err != nil {
				done[i] = true
				left--
				continue
			}
			got[i] = append(got[i], see(t))
		}
		for i, in := range ins {
			want := refUpcaseSuffix(in)
			if d := diff(want, got[i]); d != "" {
				c.Fail("stream %d: %s", i, d)
			}
			c.See("tokens", len(in))
		}
		c.Distinct(fmt.Sprint(ins))
	})
}

//
// C25
//

func checkChains(r *mon.Run, g *mon.Gen) {
	r.Rule("Each case runs a random chain of shipped and built filters and views over a text, an HTML document or an arbitrary token sequence, and compares every observed token (value, classification, lemma mark, order) with the composition of the filters' reference models. Non-trivial: at least one token and one filter; distinct by chain and input.")

	r.Each("chains", r.Cases(40000, 600000), func(c *mon.Case) {
		names, filters, ref := chain(c.Rng, g, 6)
		text := g.Any(c.Rng)
		c.Note("filters", strings.Join(names, " | "))
		var in []tok
		var s *jargon.TokenStream
		switch c.Rng.IntN(4) {
		case 0:
			in = anyTokens(c, g, text)
			s = source(real(in))
			text = concat(in)
		case 1:
			text = genHTML(c.Rng, g, 1+c.Rng.IntN(8))
			var alt []tok
			in, alt = refHTML(text)
			if alt != nil {
				return
			}
			s = jargon.TokenizeHTML(mon.RandomFeeder(c.Rng, g, text))
		default:
			in = refText(text)
			s = jargon.Tokenize(mon.RandomFeeder(c.Rng, g, text))
		}
		c.NoteQ("input", text)
		want := ref(in)
		got := mustDrain(c, s.Filter(filters...), len(text))
		if d := diff(want, got); d != "" {
			c.Fail("%s", d)
		}
		n := 0
		for _, t := range got {
			if t.Lemma {
				n++
			}
		}
		c.See("tokens_in", len(in))
		c.See("tokens_out", len(got))
		c.See("lemmas", n)
		if len(in) > 0 {
			c.Distinct(strings.Join(names, "|"), text)
		}
		c.Sample(map[string]any{"filters": strings.Join(names, " | "), "text": fmt.Sprintf("%.200q", text)})
	})
	// pairs, systematically: every shipped filter after every other, on a text which concerns both
	st := append(shipped(), wordsStage, lemmasStage, distinctStage)
	text := "I can't believe Étienne's RÉACT JS; don’t @handle #hashtag_1 Ruby on Rails été ﬁne, ANDRÉ's walking café-bar. Luka Dončić isn't LeBron James! " +
		"“Could've” бегущий corriendo naïveté Ĳ ß C++ and C# node.js the The THE the #1 #a @ab_c Objective-C running runs ℵ ½ Å Å\n\tnext line"
	r.Each("pairs", len(st)*len(st)*r.Scale(2, 8), func(c *mon.Case) {
		a, b := st[c.Index%len(st)], st[c.Index/len(st)%len(st)]
		in := text
		if c.Index >= len(st)*len(st) {
			in = g.Text(c.Rng, 40) + text[:c.Rng.IntN(len(text))]
		}
		c.NoteQ("input", in)
		c.Note("filters", a.name+" | "+b.name)
		want := b.ref(a.ref(refText(in)))
		got := mustDrain(c, jargon.TokenizeString(in).Filter(a.filter, b.filter), len(in))
		if d := diff(want, got); d != "" {
			c.Fail("%s", d)
		}
		c.See("tokens_out", len(got))
		c.Distinct(a.name, b.name, in)
	})
	// marks: a token which no filter changed is the token that came in
	r.Each("marks", r.Cases(10000, 120000), func(c *mon.Case) {
		s := mon.Pick(c.Rng, shipped())
		ts := anyTokens(c, g, g.Any(c.Rng))
		c.Note("filter", s.name)
		c.Note("tokens", fmt.Sprint(ts))
		got := mustDrain(c, source(real(ts)).Filter(s.filter), len(concat(ts)))
		values := map[tok]int{}
		for _, t := range ts {
			values[t]++
		}
		for _, t := range got {
			if !t.Lemma {
				// not marked: it must be one of the input tokens, verbatim
				if values[t] == 0 {
					c.Fail("%s is not marked as a lemma, but did not come in", t)
				}
				values[t]--
			}
		}
		c.See("tokens_out", len(got))
		c.Distinct(s.name, concat(ts))
	})
}

// someWords is a random sequence of one to three of the words.
func someWords(rng *rand.Rand, words []string) (out []string) {
	for k := 1 + rng.IntN(3); k > 0; k-- {
		out = append(out, mon.Pick(rng, words))
	}
	return out
}
