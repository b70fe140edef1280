package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	xnorm "golang.org/x/text/unicode/norm"
	"verif/mon"
)

//go:embed data/ascii.tsv
var asciiTSV string

//go:embed data/stackoverflow.json
var soJSON []byte

//go:embed data/nba.json
var nbaJSON []byte

var (
	foldTable = map[rune]string{}
	soTable   map[string]string
	nbaTable  map[string]string
	soModel   *synModel
	nbaModel  *synModel
)

func init() {
	for _, l := range strings.Split(strings.TrimSuffix(asciiTSV, "\n"), "\n") {
		k, v, ok := strings.Cut(l, "\t")
		n, err := strconv.ParseUint(k, 16, 32)
		if !ok || err != nil {
			panic("ascii.tsv: " + l)
		}
		foldTable[rune(n)] = v
	}
	if err := json.Unmarshal(soJSON, &soTable); err != nil {
		panic(err)
	}
	if err := json.Unmarshal(nbaJSON, &nbaTable); err != nil {
		panic(err)
	}
	soModel = newSynModel(soTable, true, []rune{' ', '-', '.', '/'})
	nbaModel = newSynModel(nbaTable, true, []rune{' ', '.', '\'', '-', '–'})
	if soModel.conflict || nbaModel.conflict {
		panic("conflicting dictionary")
	}
}

// synonymsOf lists the individual synonyms of a table, in order.
func synonymsOf(table map[string]string) (syn, canon []string) {
	keys := make([]string, 0, len(table))
	for k := range table {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, s := range strings.Split(k, ",") {
			if s = strings.TrimSpace(s); s != "" {
				syn = append(syn, s)
				canon = append(canon, table[k])
			}
		}
	}
	return
}

// contractionsBase are the documented contractions.
var contractionsBase = map[string]string{
	"i'll": "i will", "you'll": "you will", "she'll": "she will", "he'll": "he will", "we'll": "we will", "they'll": "they will",
	"i'm": "i am", "you're": "you are", "she's": "she is", "he's": "he is", "we're": "we are", "they're": "they are",
	"i've": "i have", "you've": "you have", "we've": "we have", "they've": "they have",
	"i'd": "i would", "you'd": "you would", "she'd": "she would", "he'd": "he would", "we'd": "we would", "they'd": "they would",
	"isn't": "is not", "aren't": "are not", "wasn't": "was not",
	"don't": "do not", "doesn't": "does not", "didn't": "did not",
	"haven't": "have not", "hadn't": "had not",
	"can't": "can not", "won't": "will not", "will've": "will have",
	"wouldn't": "would not", "would've": "would have",
	"couldn't": "could not", "could've": "could have",
	"shouldn't": "should not", "should've": "should have",
	"mightn't": "might not", "might've": "might have",
	"mustn't": "must not", "must've": "must have",
	"gonna": "going to", "gotta": "got to", "wanna": "want to", "gimme": "give me", "cannot": "can not",
}

func titled(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

// contractionsTable is every documented variation: lower, Title and UPPER case, straight and smart apostrophes.
var contractionsTable = func() map[string]string {
	m := map[string]string{}
	for k, v := range contractionsBase {
		for _, a := range []string{"'", "’"} {
			k := strings.ReplaceAll(k, "'", a)
			m[k] = v
			m[titled(k)] = titled(v)
			m[strings.ToUpper(k)] = strings.ToUpper(v)
		}
	}
	return m
}()

func refContractions(in []tok) (out []tok, expanded int) {
	for _, t := range in {
		v, ok := contractionsTable[t.V]
		if !ok {
			v, ok = contractionsTable[strings.ToLower(t.V)]
		}
		if !ok {
			out = append(out, t)
			continue
		}
		expanded++
		for _, e := range refText(v) {
			e.Lemma = true
			out = append(out, e)
		}
	}
	return
}

// refFold is Lucene's folding, byte-preserving elsewhere.
func refFold(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		if f, ok := foldTable[r]; ok {
			b.WriteString(f)
		} else {
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	return b.String()
}

// stage is a filter and its reference model.
type stage struct {
	name   string
	filter jargon.Filter
	ref    func([]tok) []tok
}

func stemStage(name string, f jargon.Filter, stem func(string, bool) string) stage {
	return stage{name, f, func(in []tok) []tok {
		out, _ := refMap(in, func(t tok) string {
			if !t.word() {
				return t.V
			}
			return stem(t.V, true)
		})
		return out
	}}
}

func normStage(name string, f jargon.Filter, form xnorm.Form) stage {
	return stage{name, f, func(in []tok) []tok {
		out, _ := refMap(in, func(t tok) string { return form.String(t.V) })
		return out
	}}
}

func select_(in []tok, f func(tok) bool) (out []tok) {
	for _, t := range in {
		if f(t) {
			out = append(out, t)
		}
	}
	return
}

func refDistinct(in []tok) []tok {
	seen := map[string]bool{}
	return select_(in, func(t tok) bool {
		if seen[t.V] {
			return false
		}
		seen[t.V] = true
		return true
	})
}

var stemStages = []stage{
	stemStage("stem-english", stemmer.English, english.Stem),
	stemStage("stem-french", stemmer.French, french.Stem),
	stemStage("stem-norwegian", stemmer.Norwegian, norwegian.Stem),
	stemStage("stem-russian", stemmer.Russian, russian.Stem),
	stemStage("stem-spanish", stemmer.Spanish, spanish.Stem),
	stemStage("stem-swedish", stemmer.Swedish, swedish.Stem),
}

var normStages = []stage{
	normStage("nfc", norm.NFC, xnorm.NFC),
	normStage("nfd", norm.NFD, xnorm.NFD),
	normStage("nfkc", norm.NFKC, xnorm.NFKC),
	normStage("nfkd", norm.NFKD, xnorm.NFKD),
}

var soStage = stage{"stackoverflow", stackoverflow.Tags, func(in []tok) []tok { out, _ := soModel.apply(in); return out }}
var nbaStage = stage{"nba", nba.CurrentPlayers, func(in []tok) []tok { out, _ := nbaModel.apply(in); return out }}
var contractionsStage = stage{"contractions", contractions.Expand, func(in []tok) []tok { out, _ := refContractions(in); return out }}
var asciiStage = stage{"ascii", ascii.Fold, func(in []tok) []tok {
	out, _ := refMap(in, func(t tok) string { return refFold(t.V) })
	return out
}}
var handlesStage = stage{"handles", twitter.Handles, func(in []tok) []tok { out, _ := refSigil(in, "@", refHandle); return out }}
var hashtagsStage = stage{"hashtags", twitter.Hashtags, func(in []tok) []tok { out, _ := refSigil(in, "#", refHashtag); return out }}
var wordsStage = stage{"words", (*jargon.TokenStream).Words, func(in []tok) []tok { return select_(in, tok.word) }}
var lemmasStage = stage{"lemmas", (*jargon.TokenStream).Lemmas, func(in []tok) []tok { return select_(in, func(t tok) bool { return t.Lemma }) }}
var distinctStage = stage{"distinct", (*jargon.TokenStream).Distinct, refDistinct}

// shipped are the filters which the repository ships as package-level values.
func shipped() []stage {
	out := []stage{soStage, nbaStage, contractionsStage, asciiStage, handlesStage, hashtagsStage}
	out = append(out, stemStages...)
	return append(out, normStages...)
}

func upcase(t *jargon.Token) *jargon.Token {
	if s := strings.ToUpper(t.String()); s != t.String() {
		return jargon.NewToken(s, true)
	}
	return t
}

func suffix(t *jargon.Token) *jargon.Token {
	if t.IsSpace() || t.IsPunct() {
		return t
	}
	return jargon.NewToken(t.String()+"z", true)
}

// refUpcaseSuffix is the composition of upcase and suffix, token by token.
func refUpcaseSuffix(in []tok) []tok {
	out, _ := refMap(in, func(t tok) string { return strings.ToUpper(t.V) })
	out, _ = refMap(out, func(t tok) string {
		if t.word() {
			return t.V + "z"
		}
		return t.V
	})
	return out
}

// built makes a random filter of one of the builders.
func built(r *rand.Rand, g *mon.Gen) stage {
	switch r.IntN(6) {
	case 0:
		return stage{"mapper", mapper.NewFilter(upcase, suffix), refUpcaseSuffix}
	case 1:
		stop := []string{}
		for i := r.IntN(6); i >= 0; i-- {
			stop = append(stop, g.Word(r))
		}
		stop = append(stop, "the", " ", "On")
		ic := r.IntN(2) == 0
		return stage{fmt.Sprintf("stopwords(%q,%v)", stop, ic), stopwords.NewFilter(stop, ic), func(in []tok) []tok { return refStop(in, stop, ic) }}
	case 2:
		k := 1 + r.IntN(9)
		keep := func(v string, l bool) bool { return (len(v)+k)%3 != 0 || l }
		return stage{"where", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return keep(t.String(), t.IsLemma()) })
		}, func(in []tok) []tok { return select_(in, func(t tok) bool { return keep(t.V, t.Lemma) }) }}
	default:
		for {
			m, ic, ig := randomSynonyms(r, g)
			model := newSynModel(m, ic, ig)
			if model.conflict {
				continue
			}
			return synStage(m, ic, ig, model)
		}
	}
}

func synStage(m map[string]string, ic bool, ig []rune, model *synModel) stage {
	return stage{fmt.Sprintf("synonyms(%q,%v,%q)", m, ic, string(ig)), synonyms.NewFilter(m, ic, ig), func(in []tok) []tok { out, _ := model.apply(in); return out }}
}

// anyStage picks any filter or view.
func anyStage(r *rand.Rand, g *mon.Gen) stage {
	switch r.IntN(10) {
	case 0:
		return wordsStage
	case 1:
		return lemmasStage
	case 2:
		return distinctStage
	case 3, 4:
		return built(r, g)
	default:
		return mon.Pick(r, shipped())
	}
}

// chain picks a chain of stages.
func chain(r *rand.Rand, g *mon.Gen, most int) (names []string, filters []jargon.Filter, ref func([]tok) []tok) {
	var st []stage
	if most > 4 && r.IntN(12) == 0 {
		most = mon.Pick(r, []int{12, 24, 40})
	}
	for i := 1 + r.IntN(most); i > 0; i-- {
		s := anyStage(r, g)
		st = append(st, s)
		names = append(names, s.name)
		filters = append(filters, s.filter)
	}
	return names, filters, func(in []tok) []tok {
		for _, s := range st {
			in = s.ref(in)
		}
		return in
	}
}

var synVocab = []string{"ruby", "on", "rails", "react", "js", "native", "a", "b", "ab", "c", "developer", "10x", "rock", "star", "node.js", "Été", "x", "do", "not", "can't", "C++", "+", "象", "形", "foo_bar", "ß", "İ", "1,000", "Rub", "react.js", "a.b", "œuf", "Straße", "ÉTÉ", "miss", "mi\u017fs", "kit", "\u212ait", "\u212bs", "åk", "ΣΑΣ", "σας"}

// randomSynonyms makes a small synonym table, dense enough that overlaps and near misses are common.
func randomSynonyms(r *rand.Rand, g *mon.Gen) (m map[string]string, ignoreCase bool, ignore []rune) {
	m = map[string]string{}
	vocab := synVocab
	if r.IntN(2) == 0 {
		vocab = vocab[:4+r.IntN(len(vocab)-4)]
	}
	sep := func() string {
		return mon.Pick(r, []string{" ", " ", " ", "  ", "", "-", ".", "\u00a0", "/"})
	}
	for i := 1 + r.IntN(6); i > 0; i-- {
		var syns []string
		for j := 1 + r.IntN(3); j > 0; j-- {
			s := mon.Pick(r, vocab)
			k := r.IntN(4)
			if r.IntN(25) == 0 {
				k = r.IntN(mon.Pick(r, []int{12, 40, 80}))
			}
			for ; k > 0; k-- {
				s += sep() + mon.Pick(r, vocab)
			}
			if r.IntN(12) == 0 {
				s = g.Word(r)
				if !utf8.ValidString(s) || len(s) > 100 {
					s = "plain"
				}
			}
			syns = append(syns, s)
		}
		key := strings.Join(syns, mon.Pick(r, []string{", ", ",", ",  "}))
		if r.IntN(5) == 0 {
			key += ","
		}
		if r.IntN(8) == 0 {
			key = " " + key
		}
		canon := mon.Pick(r, []string{"canon", "two words", "ruby-on-rails", "c#", ".net", "x", "", "boffin", " ", ".", "React", "a"})
		if r.IntN(2) == 0 {
			canon = fmt.Sprintf("canon%d", i)
		}
		m[key] = canon
	}
	ignoreCase = r.IntN(2) == 0
	switch r.IntN(7) {
	case 0:
	case 5:
		ignore = []rune{'s', 'k', ' '}
	case 6:
		ignore = []rune{'å', 'i', 'σ', '-', '\u0301'}
	case 1:
		ignore = []rune{' '}
	case 2:
		ignore = []rune{'-', ' ', '.', '/'}
	case 3:
		ignore = []rune{' ', '.', '\'', '+', '\u00a0'}
	case 4:
		ignore = []rune{'o', ' ', '_'}
	}
	return
}

// synText makes a text which often hits a synonym table.
func synText(r *rand.Rand, g *mon.Gen, m map[string]string) string {
	var keys []string
	for k := range m {
		for _, s := range strings.Split(k, ",") {
			if s = strings.TrimSpace(s); s != "" {
				keys = append(keys, s)
			}
		}
	}
	sort.Strings(keys)
	var b strings.Builder
	for i := 1 + r.IntN(14); i > 0; i-- {
		switch k := r.IntN(10); {
		case k < 4 && len(keys) > 0:
			s := mon.Pick(r, keys)
			switch r.IntN(7) {
			case 6:
				s = mon.Alias(r, s)
			case 0:
				s = strings.ReplaceAll(s, " ", "")
			case 1:
				s = strings.ReplaceAll(s, " ", "  ")
			case 2:
				s = strings.ReplaceAll(s, " ", "\u00a0")
			case 3:
				// truncate: near miss
				if rs := []rune(s); len(rs) > 1 {
					s = string(rs[:1+r.IntN(len(rs)-1)])
				}
			}
			b.WriteString(mon.Recase(r, s))
		case k < 8:
			b.WriteString(mon.Recase(r, mon.Pick(r, synVocab)))
		default:
			b.WriteString(g.Word(r))
		}
		b.WriteString(mon.Pick(r, []string{" ", " ", " ", " ", "  ", "", ", ", ".", "\n", "\u00a0", "-", "/", "\t", " . "}))
	}
	return b.String()
}
