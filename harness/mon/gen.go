package mon

import (
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Gen makes texts.
type Gen struct {
	Mined  Mined
	Corpus string   // prose of the repository's own test data, if any
	Terms  []string // domain terms: dictionary synonyms, names, contractions
	lens   []int
	tables []*unicode.RangeTable
}

var plainWords = strings.Fields(`the a an and or not of in on to be is are has have it do with for from this that
we you he she they I our about programming software developer engineer senior junior team work experience
looking Ruby rails on python java JavaScript node react native angular objective sharp visual basic studio
server database query stack overflow manager management manages running runs accumulations expected
hello world test one two three four five six seven eight nine ten x y z A B C HTML CSS SQL T API v2
Aaron Gordon LeBron James Luka Stephen Curry Nikola Jokic Zion Williamson`)

var oddWords = []string{
	"node.js", "react.js", "asp.net", "first_last", "my.name@domain.com", "123.456", "1,000", "a16z", "3G", "$200.13",
	"wishy-washy", "C++", "C#", "F#", ".net", "Let’s", "Let's", "possessive'", "ש״ח", `א"ב`, "ב'", `"אא"בב"abc`,
	"ウィキペディア", "象形", "café", "cafe\u0301", "naïve", "Žižić", "Ĳssel", "ﬁnd", "straße", "STRASSE", "İstanbul", "ıI", "ΑΣΣ", "ǅ", "ʨ", "～", "⁓",
	"ейш", "книга", "бегущий", "corriendo", "coulait", "løpende", "springande", "été", "niño",
	"👩‍👩‍👧", "🇺🇸", "🇺🇸🇩🇪🇫", "👍🏽", "1️⃣", "ไทยภาษา", "हिन्दी", "한국어", "\u0301", "a\u0301\u0302", "\u200d", "x\u200dy", "\u00ad", "so\u00adft", "\ufeff",
	"don't", "DON’T", "dOn't", "can't", "Cannot", "gonna", "I'm", "we’ve", "it's", "'tis", "rock'n'roll", "o'clock",
	"@", "#", "@@", "##", "@handle", "#hashtag", "#1", "#a", "@way_too_long_handle_x", "@exactly15chars_", "@a@b", "é@foo", "#é", "#日本", "@é@foo", "@ @foo", "#_", "@_", "foo@bar", "#①", "#Ⅷ", "#a.b",
	"http://example.com/a?b=c&d=e#f", "<b>", "&amp;", "<script>", "</script>", "a<b", "a>b",
	"(", ")", "[", "]", "{", "}", "“", "”", "‘", "’", "'", "\"", "«", "»", "¿", "¡", "…", "—", "–", "-", "--", "_", "/", "\\", "|", "+", "=", "$", "€", "%", "^", "~", "`", "*", "&", "!", "?", ";", ":", ",", ".", "...", "·",
	"tcp/ip", "and/or", "24/7", "c/c++", "x.y.z", "a.b.", ".a", "1.", ".1", "1:2", "a:b", "1'2", "a’b", "a‧b", "1٬2", "1⁄2", "a\u0301.\u0301b", "1,\u200d2",
	"\x00", "\x01", "\x7f", "\x80", "\xff", "\xc3", "\xe2\x80", "\xf0\x9f", "abc\xff", "\xed\xa0\x80", "\ufffd", "\u2028", "\u2029", "\u0085",
}

var spaces = []string{" ", " ", " ", " ", " ", " ", "  ", "   ", "\n", "\n\n", "\r\n", "\r", "\t", "\t\t", " \n", "\n ", "\u00a0", "\u00a0\u00a0", "\u2003", "\u3000", "\u1680", "\u202f", "\u200b", "\v", "\f", "\u0085", "\u2028", "", "", "-", ". ", ", ", "; ", ": ", "/", "...", " - ", " — "}

// NewGen loads the repository's corpus and mines its constants.
func NewGen(repo string, terms []string) *Gen {
	g := &Gen{Mined: Mine(repo), Terms: terms}
	if b, err := os.ReadFile(filepath.Join(repo, "testdata", "wikipedia.txt")); err == nil {
		g.Corpus = string(b)
	}
	seen := map[int]bool{}
	add := func(n int) {
		for d := -2; d <= 2; d++ {
			if v := n + d; v >= 0 && v <= 70000 && !seen[v] {
				seen[v] = true
				g.lens = append(g.lens, v)
			}
		}
	}
	for i := 0; i <= 20; i++ {
		add(i)
	}
	for p := 32; p <= 65536; p *= 2 {
		add(p)
	}
	for _, n := range []int{100, 140, 250, 280, 1000, 1500, 5000, 10000} {
		add(n)
	}
	for _, n := range g.Mined.Ints {
		add(n)
	}
	names := []string{"Latin", "Greek", "Cyrillic", "Hebrew", "Arabic", "Devanagari", "Thai", "Hangul", "Han", "Hiragana", "Katakana", "Common", "Inherited"}
	for _, n := range names {
		if t := unicode.Scripts[n]; t != nil {
			g.tables = append(g.tables, t)
		}
	}
	for _, n := range []string{"Mn", "Mc", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Lu", "Ll", "Lt", "Lm", "Lo"} {
		if t := unicode.Categories[n]; t != nil {
			g.tables = append(g.tables, t)
		}
	}
	return g
}

// Pick returns one of the elements.
func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.IntN(len(xs))] }

// InTable picks a character of a table.
func InTable(r *rand.Rand, t *unicode.RangeTable) rune {
	n := len(t.R16) + len(t.R32)
	i := r.IntN(n)
	if i < len(t.R16) {
		x := t.R16[i]
		return rune(uint32(x.Lo) + uint32(r.IntN(int((x.Hi-x.Lo)/x.Stride)+1))*uint32(x.Stride))
	}
	x := t.R32[i-len(t.R16)]
	return rune(x.Lo + uint32(r.IntN(int((x.Hi-x.Lo)/x.Stride)+1))*x.Stride)
}

// Rune picks a rune: mined, by category or script, or any.
func (g *Gen) Rune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.IntN(10) {
		case 0:
			if len(g.Mined.Runes) == 0 {
				continue
			}
			c = Pick(r, g.Mined.Runes)
		case 1, 2, 3:
			c = InTable(r, Pick(r, g.tables))
		case 4:
			c = rune(r.IntN(0x110000))
		case 5:
			c = rune(r.IntN(0x3000))
		default:
			c = rune(r.IntN(0x80))
		}
		if c >= 0 && utf8.ValidRune(c) {
			return c
		}
	}
}

// Len picks an interesting length up to max.
func (g *Gen) Len(r *rand.Rand, max int) int {
	for i := 0; i < 20; i++ {
		if n := Pick(r, g.lens); n <= max {
			return n
		}
	}
	return r.IntN(max + 1)
}

// Recase changes the letter case at random.
func Recase(r *rand.Rand, s string) string {
	switch r.IntN(5) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		c, w := utf8.DecodeRuneInString(s)
		if c == utf8.RuneError {
			return s
		}
		return string(unicode.ToUpper(c)) + s[w:]
	default:
		if !utf8.ValidString(s) {
			return s
		}
		return strings.Map(func(c rune) rune {
			if r.IntN(2) == 0 {
				return unicode.ToUpper(c)
			}
			return unicode.ToLower(c)
		}, s)
	}
}

// Word makes one word-ish piece.
func (g *Gen) Word(r *rand.Rand) string {
	switch k := r.IntN(100); {
	case k < 30:
		return Pick(r, plainWords)
	case k < 45 && len(g.Terms) > 0:
		return Recase(r, Pick(r, g.Terms))
	case k < 70:
		return Pick(r, oddWords)
	case k < 74 && len(g.Mined.Strings) > 0:
		return Pick(r, g.Mined.Strings)
	case k < 84:
		n := 1 + r.IntN(8)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(g.Rune(r))
		}
		return b.String()
	case k < 90:
		n := 1 + r.IntN(12)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEXYZ0123456789_'.,"[r.IntN(48)])
		}
		return b.String()
	case k < 92:
		return strings.Repeat(Pick(r, []string{"a", "é", "7", "_", "Z", "カ", "ж", "😀"}), 1+g.Len(r, 300))
	case k < 94:
		return strings.Repeat(Pick(r, []string{"-", ".", " ", "\n", "@", "#", "a.", "1,", "'", "a ", "@a", "\u0301", "🇺🇸", ","}), 1+g.Len(r, 60))
	default:
		return Recase(r, Pick(r, plainWords))
	}
}

// Text makes a text of about n pieces.
func (g *Gen) Text(r *rand.Rand, n int) string {
	var b strings.Builder
	simple := r.IntN(3) == 0
	for i := 0; i < n; i++ {
		b.WriteString(g.Word(r))
		if simple {
			b.WriteByte(' ')
		} else {
			b.WriteString(Pick(r, spaces))
		}
	}
	return b.String()
}

// Prose cuts a piece of the corpus.
func (g *Gen) Prose(r *rand.Rand, n int) string {
	if len(g.Corpus) == 0 {
		return g.Text(r, n/6+1)
	}
	if n > len(g.Corpus) {
		n = len(g.Corpus)
	}
	at := r.IntN(len(g.Corpus) - n + 1)
	return g.Corpus[at : at+n]
}

// Bytes makes noise.
func (g *Gen) Bytes(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		switch r.IntN(4) {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = " .,'\n@#<>-/&;_"[r.IntN(14)]
		default:
			b[i] = byte('a' + r.IntN(26))
		}
	}
	return string(b)
}

// Mutate damages a text.
func (g *Gen) Mutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.IntN(4); k > 0 && len(b) > 0; k-- {
		i := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			w := g.Word(r)
			b = append(b[:i], append([]byte(w), b[i:]...)...)
		case 3:
			j := i + r.IntN(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 4:
			j := i + r.IntN(min(len(b)-i, 40))
			b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return string(b)
}

// edges are what texts begin or end with now and then: marks, and what is easily trimmed or misread.
var edges = []string{"\ufeff", "\ufffe", "\xff\xfe", "\xfe\xff", "\x00", "\x1a", "\x04", "\n", "\r\n", "\r", " ", "\t", "\v", "\f", "\u00a0", "\u0085", "\u2028", "\u200b", "\u200d", "\u0301", "\u3000", "\u00ad", "#!", "--", "=", "\"", "'", "`", "\\", "\x1b[0m", "\xc3", "\xe2\x80", "\ufffd", "%s", "\xef\xbb", "\n\n", ",", ".", "@", "#"}

// Any makes a text of any of the kinds, mostly small, some with an odd beginning or end.
func (g *Gen) Any(r *rand.Rand) string {
	s := g.any(r)
	if k := r.IntN(24); k < 3 {
		if k != 1 {
			s = Pick(r, edges) + s
		}
		if k != 0 {
			s += Pick(r, edges)
		}
	}
	return s
}

func (g *Gen) any(r *rand.Rand) string {
	switch k := r.IntN(100); {
	case k < 3:
		return ""
	case k < 15:
		return g.Word(r)
	case k < 50:
		return g.Text(r, 1+r.IntN(12))
	case k < 65:
		return g.Text(r, 1+r.IntN(60))
	case k < 75:
		return g.Prose(r, r.IntN(600))
	case k < 85:
		return g.Mutate(r, g.Text(r, 1+r.IntN(20)))
	case k < 92:
		return g.Mutate(r, g.Prose(r, r.IntN(400)))
	case k < 97:
		return g.Bytes(r, r.IntN(200))
	default:
		return g.Text(r, 1+g.Len(r, 260))
	}
}

// Big makes a text of roughly n bytes, with something interesting around the boundaries
// of typical buffers.
func (g *Gen) Big(r *rand.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		left := n - b.Len()
		if r.IntN(3) == 0 {
			b.WriteString(g.Prose(r, min(left, 1+r.IntN(5000))))
		} else {
			b.WriteString(g.Text(r, 1+r.IntN(200)))
		}
		// sometimes align so that a sensitive word straddles a multiple of 4096
		if r.IntN(2) == 0 {
			pad := 4096 - b.Len()%4096
			w := Pick(r, []string{"node.js", "1,000", "can't", "א\"ב", "a\u0301.b", "\r\n", "é", "👩‍👩‍👧", "  ", "Ruby on Rails", "don’t", "@handle", "x.\u0301y"})
			pad -= r.IntN(len(w) + 1)
			if pad > 0 {
				if r.IntN(2) == 0 {
					b.WriteString(strings.Repeat("a ", pad/2) + strings.Repeat(" ", pad%2))
				} else {
					b.WriteString(strings.Repeat(" ", pad))
				}
			}
			b.WriteString(w)
		}
	}
	return b.String()
}

var nearEnds = []string{"s", "'s", "’s", "s'", "es", "ed", "d", "'d", "ing", "ly", "n't", "n’t", "'ve", "’ve", "'ll", "'m", "'re", "'", "’", "-", ".", "..", "_", "+", "#", "1", "2", "0", "™", "®", "\u0301", "\u200d", "\u00ad", "\u00a0", "!", "?", ":", ")", "x", "X", "é", "'s's", "ish", ".js", "js", "'n'", "\x00", "\xff", "…", "/", "*", "٣", "²"}
var nearStarts = []string{"un", "re", "non-", "e", "o'", "O’", "d'", "l’", "'", "’", "‘", "\"", "(", "@", "#", "$", "-", ".", "..", "_", "1", "0", "x", "\u200b", "\u0301", "\u00a0", "\ufeff", "the", "a", "very", "*", "~", "\\", "&", "¿", "\x00", "\xff", "é"}

// aliases are characters which a careless table could take for r: those which agree with it in their lower
// bits, which differ in case only, or which look the same.
func aliases(r rune) []rune {
	var out []rune
	for _, a := range []rune{r ^ 0x10000, r ^ 0x20000, r & 0xffff, r ^ 0x100, r ^ 0x1000, r ^ 0x80, r ^ 0x20, r & 0xff, r + 1, unicode.SimpleFold(r), unicode.SimpleFold(unicode.SimpleFold(r)), unicode.ToTitle(r)} {
		if a != r && a > 0 && utf8.ValidRune(a) {
			out = append(out, a)
		}
	}
	if '!' <= r && r <= '~' {
		out = append(out, r-'!'+0xff01) // full width
	}
	switch {
	case 'a' <= r && r <= 'z':
		out = append(out, r-'a'+0x24d0, r-'a'+0x1d41a)
	case 'A' <= r && r <= 'Z':
		out = append(out, r-'A'+0x24b6, r-'A'+0x1d400)
	}
	return out
}

// Alias replaces a character of w by one which a careless table could take for it.
func Alias(r *rand.Rand, w string) string {
	rs := []rune(w)
	if len(rs) == 0 || !utf8.ValidString(w) {
		return w
	}
	i := r.IntN(len(rs))
	if as := aliases(rs[i]); len(as) > 0 {
		rs[i] = Pick(r, as)
	}
	return string(rs)
}

// Alphabet is a small set of characters which a careless table could take for each other.
func Alphabet(r *rand.Rand) []string {
	base := Pick(r, []rune{'a', 'k', 's', 'i', 'é', 'ß', '0', '_', '日', 'ア', 'ж', 'σ', '\U0001F600', '\U00010400', 'ǆ', 'µ', 'ﬁ', '\u0301', rune(0xa1 + r.IntN(0x2000))})
	out := []string{string(base)}
	for _, a := range aliases(base) {
		out = append(out, string(a))
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if n := 2 + r.IntN(5); len(out) > n {
		out = out[:n]
	}
	return out
}

// Near are the near misses of a word: what it becomes by one slip, or one ending or beginning more.
func Near(w string) []string {
	var out []string
	for _, e := range nearEnds {
		out = append(out, w+e)
		if r := strings.TrimSuffix(w, e); r != w && r != "" {
			out = append(out, r)
		}
	}
	for _, b := range nearStarts {
		out = append(out, b+w)
		if r := strings.TrimPrefix(w, b); r != w && r != "" {
			out = append(out, r)
		}
	}
	rs := []rune(w)
	cut := func(parts ...[]rune) {
		var s []rune
		for _, p := range parts {
			s = append(s, p...)
		}
		if len(s) > 0 {
			out = append(out, string(s))
		}
	}
	for i := range rs {
		cut(rs[:i], rs[i+1:])              // one missing
		cut(rs[:i+1], rs[i:])              // one doubled
		cut(rs[:i], []rune("q"), rs[i+1:]) // one mistaken
		cut(rs[:i])
		cut(rs[i:])
		if i > 0 {
			cut(rs[:i-1], rs[i:i+1], rs[i-1:i], rs[i+1:]) // two swapped
			for _, in := range []rune{' ', '\'', '’', '-', '.', '\u00a0', '\u0301', '\u00ad', '\u200b', '/', '_'} {
				cut(rs[:i], []rune{in}, rs[i:])
			}
		}
		for _, a := range aliases(rs[i]) {
			cut(rs[:i], []rune{a}, rs[i+1:])
		}
		if rs[i] == '\'' || rs[i] == '’' {
			for _, a := range "'’‘`´ʼ′＇\"‛" {
				cut(rs[:i], []rune{a}, rs[i+1:])
			}
		}
	}
	out = append(out, w+w, w+" "+w, w+"-"+w, w+"'"+w)
	return out
}
