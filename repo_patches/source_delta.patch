From 26c80c551dec0c05859cecdea5a1eb5669040d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:35 +0000
Subject: [PATCH 01/17] fix: ASCII folding of U+02A8, U+2053 and U+FF5E

U+02A8 folded to "tr" (Lucene: "tc"), and the two tildes were mapped but
never reported as folded, so a token holding nothing else to fold kept them.
---
 filters/ascii/fold.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 180b82001205e7746bf8bc5e33f049b4edd619f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:00 +0000
Subject: [PATCH 02/17] fix: ASCII folding keeps invalid UTF-8 bytes verbatim

Folding any character of a string used to rewrite the invalid bytes around it
as U+FFFD.
---
 filters/ascii/fold.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 8b11245..6ab4034 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1,13 +1,16 @@
 package ascii
 
-import "bytes"
+import (
+	"bytes"
+	"unicode/utf8"
+)
 
 // FoldString is a utility method for folding a single string. Use the Fold() filter to process a token stream.
 func FoldString(s string) (string, bool) {
 	var b bytes.Buffer
 	folded := false
 
-	for _, r := range s {
+	for i, r := range s {
 		// Quick test: if it's not in range then just keep current character
 		if r < '\u0080' {
 			b.WriteRune(r)
@@ -2149,6 +2152,10 @@ func FoldString(s string) (string, bool) {
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
 				folded = true
+			case utf8.RuneError:
+				// May be an invalid byte, in which case keep it verbatim
+				_, w := utf8.DecodeRuneInString(s[i:])
+				b.WriteString(s[i : i+w])
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 2971e30228a873bd45c8f50737f6e53481e5f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:08 +0000
Subject: [PATCH 03/17] fix: sigil filter treats a queued lookahead like any
 other token
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The token after a lone sigil was passed along without being remembered as the
previous token, nor tried as a sigil itself: "@é@foo" became "@" "é" "@foo",
although the second @ follows a word, and "@@foo" was left in three tokens.
---
 filters/sigil/filter.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..567bb48 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,16 +39,19 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
+	var current *jargon.Token
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
-	if err != nil {
-		return nil, err
-	}
-	if current == nil {
-		return nil, nil
+		// A queued lookahead is evaluated like any other token
+		current = s.outgoing.Pop()
+	} else {
+		token, err := s.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
+		if token == nil {
+			return nil, nil
+		}
+		current = token
 	}
 
 	// Previous token must not be a word
-- 
2.43.0


From e6b840a68365afb1b1fd09eb77f9744dec06182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:08 +0000
Subject: [PATCH 04/17] fix: stemmer keeps a word whose stem is empty
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Russian stemmer reduces some words (such as "ейш") to nothing; the empty
token then ended the stream, silently dropping the rest of the text.
---
 filters/stemmer/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..a5eda07 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -40,8 +40,8 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 
 		stemmed := stem(token.String(), true)
 
-		if stemmed == token.String() {
-			// Had no effect, send back the original
+		if stemmed == token.String() || stemmed == "" {
+			// Had no effect (or left nothing), send back the original
 			return token
 		}
 
-- 
2.43.0


From b9661a697a31f89071ed6cfe972588d63a965406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:08 +0000
Subject: [PATCH 05/17] fix: expanded contractions are lemmas

The tokens which replace a contraction were not marked as lemmas, so Lemmas()
and the -lemmas flag missed them.
---
 filters/contractions/filter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..8b5a4bc 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,9 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From d9fc552b97c0b632d81e04d814b8d1cdcfc7c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:28 +0000
Subject: [PATCH 06/17] fix: resume tokenizing HTML text after a script or
 style block

The end tag never reset the enclosing block, so every text node after the
first script or style was returned as one untokenized string.
---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..45c9454 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,7 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 2e15d25f1ef34606fb236f8caaa11ad3d556f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:44 +0000
Subject: [PATCH 07/17] fix: HTML tokens are verbatim

Tags, comments and text were re-rendered from their parsed form: attributes
requoted, names lower-cased, entities decoded, apostrophes and script bodies
escaped, line ends normalized, and an incomplete tag at the end of input was
dropped. Use the raw source, so that the input can be reconstructed.
---
 tokenizer_html.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 45c9454..4070e97 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,7 +41,20 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// Verbatim source; get it first, as Token() may overwrite it
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
+		if raw != "" {
+			// Incomplete tag at the end of input, keep it verbatim; we'll see the error on the next call
+			token := &Token{
+				value: raw,
+				punct: true,
+				space: false,
+			}
+			return token, nil
+		}
+
 		err := t.htokenizer.Err()
 		if err == io.EOF {
 			// No problem
@@ -63,13 +76,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -80,7 +93,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From 3c311e8804e1d791d0e80d0176cd30bb538d0d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:06 +0000
Subject: [PATCH 08/17] fix: word breaks don't depend on how input is buffered

A break at the end of the buffered data was decided without its lookahead, so
"node.js" was split in three whenever a read happened to end after the dot,
e.g. once per 4K of input.
---
 tokenizer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..85e0277 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -3,6 +3,8 @@ package jargon
 import (
 	"io"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -31,10 +33,30 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: iterators.NewScanner(r, split),
 	}
 }
 
+// split is words.SplitFunc, except that it doesn't settle on a break before having seen what follows it.
+//
+// Some word break rules look beyond the character at a potential break, i.e. the dot in node.js depends on the
+// letter after it. When that lookahead would run past the end of the buffered data, request more data.
+func split(data []byte, atEOF bool) (int, []byte, error) {
+	advance, token, err := words.SplitFunc(data, atEOF)
+	if err != nil || atEOF || advance == 0 {
+		return advance, token, err
+	}
+
+	rest := data[advance:]
+	if r, _ := utf8.DecodeRune(rest); unicode.IsPunct(r) || unicode.IsSymbol(r) {
+		if next, _, err := words.SplitFunc(rest, false); err == nil && next == 0 {
+			return 0, nil, nil
+		}
+	}
+
+	return advance, token, nil
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From 6452b903d81cd725c9a564ddf5d3390812147c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:25 +0000
Subject: [PATCH 09/17] fix: synonyms filter streams, instead of consuming its
 whole input

The first call to Next() read the incoming stream to its end, queueing every
token; memory was proportional to the input, and time quadratic.
---
 filters/synonyms/filter.go | 63 +++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..88ad258 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,61 +137,48 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
+	for {
+		if t.buffer.Len() == 0 {
+			token, err := t.incoming.Next()
+			if err != nil {
+				return nil, err
+			}
+			if token == nil {
+				// EOF
+				return nil, nil
+			}
+			t.buffer.Push(token)
+		}
 
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
+		// Leading space & punct should go straight out
+		head := t.buffer.Tokens[0]
+		if head.IsSpace() || head.IsPunct() {
+			return t.buffer.Pop(), nil
+		}
 
-	// Consume all the words
-	for {
+		// It's a word; look ahead
 		err := t.fill()
 		if err != nil {
 			return nil, err
 		}
 
-		if t.buffer.Len() == 0 {
-			// Nothing left
-			break
-		}
-
 		run, err := t.wordrun()
 		if err != nil {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
-		if found {
-			if canonical != "" {
-				token := jargon.NewToken(canonical, true)
-				t.outgoing.Push(token)
-			}
-			t.buffer.Drop(consumed)
-			continue
+		if !found {
+			// The word didn't lemmatize, pass it along verbatim
+			return t.buffer.Pop(), nil
 		}
 
-		// The word didn't lemmatize, pass it along verbatim
-		t.buffer.PopTo(t.outgoing)
-	}
-
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
+		t.buffer.Drop(consumed)
+		if canonical != "" {
+			return jargon.NewToken(canonical, true), nil
+		}
 	}
-
-	return nil, nil
 }
 
 // fill the buffer until EOF, punctuation, or enough word tokens
-- 
2.43.0


From 78032f5b88be31ae071d614d503d2b673bd22875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:26 +0000
Subject: [PATCH 10/17] fix: a synonyms filter which failed to build keeps
 reporting its error

Only the first stream got the error; using the filter again panicked.
---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 88ad258..2937dae 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From 5dcdf9b2090c5ca2d5442af6cbba141a6ac0a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:53 +0000
Subject: [PATCH 11/17] fix: colliding synonyms resolve deterministically

When two mappings reduce to the same characters, the winner depended on map
iteration order, i.e. differed from run to run.
---
 filters/synonyms/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 2937dae..f50952c 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,16 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+
+	// Iterate in a stable order; where synonyms collide, the result should not depend on map order
+	keys := make([]string, 0, len(f.config.mappings))
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0


From f607a400a5ecc2d5830f8d535deaa8dcf82371cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:55 +0000
Subject: [PATCH 12/17] fix: an empty synonym matches nothing

A mapping with a trailing comma (or a synonym made of ignored characters)
replaced every word which consisted of ignored characters.
---
 filters/synonyms/trie/trie.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/filters/synonyms/trie/trie.go b/filters/synonyms/trie/trie.go
index 26f71aa..1a8c98f 100644
--- a/filters/synonyms/trie/trie.go
+++ b/filters/synonyms/trie/trie.go
@@ -87,6 +87,11 @@ func (t *RuneTrie) Add(tokens []*jargon.Token, canonical string) {
 		}
 	}
 
+	if n == t.root {
+		// Nothing to match, e.g. the empty synonym after a trailing comma
+		return
+	}
+
 	n.hasCanonical = true
 	n.canonical = canonical
 }
-- 
2.43.0


From c50aea3c054350c1ee91d14c420da2c3149c44cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:55 +0000
Subject: [PATCH 13/17] fix: apply filters given as --flag or -flag=true

The flag package accepts these, but the filter was silently not applied.
---
 cmd/jargon/main.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..95d1c2f 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,6 +189,16 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		// Like the flag package, accept --flag and -flag=true
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+		if i := strings.Index(arg, "="); i > 0 {
+			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
+				arg = arg[:i]
+			}
+		}
+
 		filter, found := filterMap[arg]
 		if found {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0


From 7dc48f35f731865d6ef990cb3ce831d17e6bc45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:55 +0000
Subject: [PATCH 14/17] fix: draining a long token queue takes time
 proportional to its length

---
 tokenqueue/queue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index ac388b1..d83b9ba 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -43,8 +43,16 @@ func (q *TokenQueue) Push(tokens ...*Token) {
 	q.Tokens = append(q.Tokens, tokens...)
 }
 
+// maxMove limits how many tokens Drop will move; draining a long queue should take time proportional to its length
+const maxMove = 64
+
 // Drop removes n elements from the front of the queue
 func (q *TokenQueue) Drop(n int) {
+	if rest := q.Tokens[n:]; len(rest) > maxMove {
+		// Too many to move on each call
+		q.Tokens = rest
+		return
+	}
 	// Optimization to avoid array resizing
 	// Move the end to the beginning
 	copy(q.Tokens, q.Tokens[n:])
-- 
2.43.0


From 3d0fd68b019d791da3581bc9e690e6dc7c759da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:39 +0000
Subject: [PATCH 15/17] fix: command: the value of -file, -out or -lang is not
 a filter, even if it looks like one

---
 cmd/jargon/main.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 95d1c2f..8746391 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -188,11 +188,19 @@ var stemmerMap = map[string]jargon.Filter{
 
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
-	for _, arg := range args {
+	for i := 0; i < len(args); i++ {
+		arg := args[i]
+
 		// Like the flag package, accept --flag and -flag=true
 		if strings.HasPrefix(arg, "--") {
 			arg = arg[1:]
 		}
+		switch arg {
+		case "-lang", "-file", "-out":
+			// What follows is its value, even if it looks like a filter
+			i++
+			continue
+		}
 		if i := strings.Index(arg, "="); i > 0 {
 			if on, err := strconv.ParseBool(arg[i+1:]); err == nil && on {
 				arg = arg[:i]
-- 
2.43.0


From ed8cb5a36e610746657ade85d8b7215ad84944d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:10 +0000
Subject: [PATCH 16/17] fix: a queue flushed to itself keeps its tokens

---
 tokenqueue/queue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index d83b9ba..ebc8d89 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -73,6 +73,10 @@ func (q *TokenQueue) PopTo(dst *TokenQueue) {
 
 // FlushTo moves all tokens from one queue to another
 func (q *TokenQueue) FlushTo(dst *TokenQueue) {
+	if dst == q {
+		// Already there; clearing would lose them
+		return
+	}
 	dst.Tokens = append(dst.Tokens, q.Tokens...)
 	q.Clear()
 }
-- 
2.43.0


From 63570e3572a3e45bf61eaf4528c2dc427533a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:15 +0000
Subject: [PATCH 17/17] fix: tags generator, don't take a page with a failing
 HTTP status as complete

---
 filters/stackoverflow/generate/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filters/stackoverflow/generate/main.go b/filters/stackoverflow/generate/main.go
index 248513c..5db6d9e 100644
--- a/filters/stackoverflow/generate/main.go
+++ b/filters/stackoverflow/generate/main.go
@@ -221,6 +221,10 @@ func fetchTags(page, pageSize int, site string) (wrapper, error) {
 		return wrapper, fmt.Errorf("%s: %s", wrapper.ErrorName, wrapper.ErrorMessage)
 	}
 
+	if r.StatusCode != http.StatusOK {
+		return wrapper, fmt.Errorf("status code error: %s", r.Status)
+	}
+
 	return wrapper, nil
 }
 
-- 
2.43.0

