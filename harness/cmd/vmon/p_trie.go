package main

import (
	"fmt"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
	"verif/mon"
)

//
// C31: the dictionary structure beneath the synonym filters
//

func checkTrie(r *mon.Run, g *mon.Gen) {
	r.Rule("Random histories interleave additions (including re-additions, prefixes of each other, and phrases which normalize to nothing) with searches of near and exact phrases followed by trailing text; every answer (found, canonical, how many tokens) is compared with a table of normalized phrases. Non-trivial: a history with at least one hit; distinct by the history.")
	r.Each("histories", r.Cases(20000, 400000), func(c *mon.Case) {
		rng := c.Rng
		_, ignoreCase, ignore := randomSynonyms(rng, g)
		t := trie.New(ignoreCase, append([]rune{}, ignore...))
		m := &synModel{dict: map[string]string{}, ignoreCase: ignoreCase, ignore: map[rune]bool{}}
		for _, r := range ignore {
			m.ignore[r] = true
		}
		vocab := synVocab[:3+rng.IntN(len(synVocab)-3)]
		if rng.IntN(4) == 0 {
			vocab = mon.Alphabet(rng)
		}
		var phrases []string
		phrase := func() string {
			if len(phrases) > 0 && rng.IntN(3) == 0 {
				p := mon.Pick(rng, phrases)
				switch rng.IntN(5) {
				case 2:
					return mon.Alias(rng, p)
				case 0:
					return p + " " + mon.Pick(rng, vocab)
				case 1:
					rs := []rune(p)
					return string(rs[:rng.IntN(len(rs)+1)])
				}
				return p
			}
			s := mon.Pick(rng, vocab)
			n := rng.IntN(3)
			if rng.IntN(60) == 0 {
				n = rng.IntN(mon.Pick(rng, []int{20, 100, 400}))
			}
			for i := n; i > 0; i-- {
				s += mon.Pick(rng, []string{" ", " ", "-", "", "  ", "."}) + mon.Pick(rng, vocab)
			}
			if rng.IntN(20) == 0 {
				s = g.Word(rng)
			}
			return s
		}
		var history []string
		hits := 0
		for step := 2 + rng.IntN(40); step > 0; step-- {
			if rng.IntN(3) == 0 {
				p, canon := phrase(), mon.Pick(rng, []string{"x", "canon", "", "two words", fmt.Sprint("canon", step)})
				phrases = append(phrases, p)
				history = append(history, fmt.Sprintf("add %q → %q", p, canon))
				t.Add(real(refText(p)), canon)
				if key := m.norm(p); key != "" {
					m.dict[key] = canon
				}
				c.See("added", 1)
				continue
			}
			s := mon.Recase(rng, phrase())
			if rng.IntN(2) == 0 {
				s += mon.Pick(rng, []string{" ", ".", " x", " and more", ",", "  "})
			}
			in := refText(s)
			history = append(history, fmt.Sprintf("search %q", s))
			found, canonical, consumed := t.SearchCanonical(real(in)...)
			want, wantCanon, wantN := false, "", 0
			key, best := "", ""
			for i, tk := range in {
				key += m.norm(tk.V)
				if cn, ok := m.dict[key]; ok && (!want || key != best) {
					want, wantCanon, wantN, best = true, cn, i+1, key
				}
			}
			if found != want || found && (canonical != wantCanon || consumed != wantN) {
				c.Note("history", strings.Join(history, "; "))
				c.Note("ignore", fmt.Sprintf("%q case=%v", string(ignore), ignoreCase))
				c.Fail("searching %q: found %v %q, %d tokens; want %v %q, %d tokens", s, found, canonical, consumed, want, wantCanon, wantN)
				return
			}
			if found {
				hits++
			}
			c.See("searches", 1)
		}
		c.See("hits", hits)
		if hits > 0 {
			c.Distinct(strings.Join(history, ";"))
		}
		c.Sample(strings.Join(history, "; "))
	})
	// searching finds what was added, for every entry of the shipped dictionaries, and tells how much it used
	tables := []*synModel{soModel, nbaModel}
	sources := []map[string]string{soTable, nbaTable}
	r.Serial("shipped", len(tables), func(c *mon.Case) {
		m := tables[c.Index]
		var ignore []rune
		for _, k := range []rune{' ', '-', '.', '/', '\'', '–'} {
			if m.ignore[k] {
				ignore = append(ignore, k)
			}
		}
		t := trie.New(m.ignoreCase, ignore)
		syn, canon := synonymsOf(sources[c.Index])
		for i, s := range syn {
			t.Add(real(refText(s)), canon[i])
		}
		for i, s := range syn {
			in := refText(s)
			found, cn, n := t.SearchCanonical(append(real(in), jargon.NewToken("zzqx", false))...)
			if m.norm(s) == "" {
				continue
			}
			if !found || cn != canon[i] || n > len(in) {
				c.Fail("%q: found %v %q, %d tokens; want %q", s, found, cn, n, canon[i])
				return
			}
			if m.norm(concat(in[:n])) != m.norm(s) {
				c.Fail("%q: used %d of %d tokens", s, n, len(in))
				return
			}
			c.See("entries", 1)
			c.Distinct(s)
		}
	})
}
