From 5ae1d4c2c5c47f6b30076b6bd1c87314af2f4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:35 +0000
Subject: [PATCH 01/15] fix: synonyms filter reports its build error on every
 use

---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..3f22f86 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From a6426d0e17a4c0ce555d982b6e9a5f9e7c06e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:36 +0000
Subject: [PATCH 02/15] fix: synonyms filter streams its output instead of
 reading all of its input first

---
 filters/synonyms/filter.go | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 3f22f86..28f9032 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,18 +137,8 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
-
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	// Consume all the words
-	for {
+	// Read only until there is something to send out
+	for !t.outgoing.Any() {
 		err := t.fill()
 		if err != nil {
 			return nil, err
@@ -164,11 +154,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 			return nil, err
 		}
 
-		if len(run) == 0 {
-			// No more words
-			break
-		}
-
 		// Try to lemmatize
 		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
 		if found {
@@ -184,9 +169,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 		t.buffer.PopTo(t.outgoing)
 	}
 
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
 	if t.outgoing.Any() {
 		return t.outgoing.Pop(), nil
 	}
-- 
2.43.0


From 09ddda14863cb207d82ab7f1f2fd3bb3bef42663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:37 +0000
Subject: [PATCH 03/15] fix: synonyms filter does not depend on map iteration
 order

---
 filters/synonyms/filter.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 28f9032..75655d6 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,16 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+
+	// Add in a fixed order, so the result does not depend on map iteration
+	keys := make([]string, 0, len(f.config.mappings))
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0


From a6b9ec15193491c1a9a1748594785f7257cbd0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:37 +0000
Subject: [PATCH 04/15] fix: sigil filter examines a token it looked ahead at
 like any other

---
 filters/sigil/filter.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..80eb734 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,11 +39,7 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
-	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
+	current, err := s.read()
 	if err != nil {
 		return nil, err
 	}
@@ -76,6 +72,14 @@ func (s *stream) next() (*jargon.Token, error) {
 	return current, nil
 }
 
+// read returns the queued lookahead, if any, or else the next incoming token
+func (s *stream) read() (*jargon.Token, error) {
+	if s.outgoing.Any() {
+		return s.outgoing.Pop(), nil
+	}
+	return s.incoming.Next()
+}
+
 func (s *stream) try(sigil string, current *jargon.Token, legal func(string) bool) (bool, *jargon.Token, error) {
 	if current.String() != sigil {
 		return false, nil, nil
-- 
2.43.0


From b582e3505414ce91a6ba7bb0d20a2e75e4304dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:38 +0000
Subject: [PATCH 05/15] fix: text after a script or style element is tokenized

---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..45c9454 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,7 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From 45d48f794ddaf5bfc3c82618ab69bbe45d500f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:39 +0000
Subject: [PATCH 06/15] fix: HTML tokens are verbatim source text, including
 unfinished trailing markup

---
 tokenizer_html.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 45c9454..5509a65 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,9 +41,21 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// The verbatim source; needs to be copied before calling Token, which unescapes in place
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if len(raw) > 0 {
+				// Unfinished markup
+				token := &Token{
+					value: raw,
+					punct: true,
+					space: false,
+				}
+				return token, nil
+			}
 			// No problem
 			return nil, nil
 		}
@@ -63,13 +75,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -80,7 +92,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From a2dd3bc1438aac4a449ac1f7848504886a64e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:59 +0000
Subject: [PATCH 07/15] fix: folding a swung dash or fullwidth tilde is
 reported as a fold

---
 filters/ascii/fold.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..25c8a89 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From a3129a5ba6179229a763e23a5b24038308f234ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:50 +0000
Subject: [PATCH 08/15] fix: a word with an empty stem does not end the stream

---
 filters/stemmer/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..44e2a77 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -40,8 +40,8 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 
 		stemmed := stem(token.String(), true)
 
-		if stemmed == token.String() {
-			// Had no effect, send back the original
+		if stemmed == token.String() || stemmed == "" {
+			// Had no effect, or left nothing; send back the original
 			return token
 		}
 
-- 
2.43.0


From 262f5fcfb9b1601b41c32858d20188c391a462b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 09/15] fix: filter options written --name or -name=true take
 effect

---
 cmd/jargon/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index 330f227..e3a1bda 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -189,8 +189,19 @@ var stemmerMap = map[string]jargon.Filter{
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
 	for _, arg := range args {
+		// Like the flag package, accept -name, --name and -name=bool
+		on := true
+		if i := strings.Index(arg, "="); i >= 0 {
+			value, err := strconv.ParseBool(arg[i+1:])
+			on = err == nil && value
+			arg = arg[:i]
+		}
+		if strings.HasPrefix(arg, "--") {
+			arg = arg[1:]
+		}
+
 		filter, found := filterMap[arg]
-		if found {
+		if found && on {
 			if arg == "-stem" && lang != "" {
 				// Look for a language specification
 				stem, found := stemmerMap[lang]
-- 
2.43.0


From 94e6a6bf60c30a0103133b481499cb2a78ae6604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:53 +0000
Subject: [PATCH 10/15] fix: the body of a self-closing script or style tag is
 not tokenized

---
 tokenizer_html.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 5509a65..ae3c310 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -65,7 +65,7 @@ func (t *htokenizer) next() (*Token, error) {
 	htoken := t.htokenizer.Token()
 
 	switch htoken.Type {
-	case html.StartTagToken:
+	case html.StartTagToken, html.SelfClosingTagToken: // HTML disregards the slash of <script/>
 		// Record that we are entering script or style blocks; don't tokenize text
 		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
 			t.parent = htoken.DataAtom
-- 
2.43.0


From 0bd6679220e807aab2c2acfce3f8952de686f2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 11/15] fix: the TC digraph folds to tc, as in Lucene

---
 filters/ascii/fold.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index 25c8a89..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
-- 
2.43.0


From 97b6571b06fa3f76697b99e8f40e9cc5d71c07da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:52 +0000
Subject: [PATCH 12/15] fix: word boundaries do not depend on how the input is
 delivered

A read that ended after an apostrophe, a decimal point and the like made a word boundary there:
of a text longer than the 4096 byte buffer, "don't" became three tokens when it lay on its end.
---
 tokenizer.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index ea098e3..fefb7c6 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -1,8 +1,11 @@
 package jargon
 
 import (
+	"bufio"
 	"io"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/clipperhouse/uax29/iterators"
 	"github.com/clipperhouse/uax29/words"
@@ -31,10 +34,36 @@ type tokenizer struct {
 
 func newTokenizer(r io.Reader) *tokenizer {
 	return &tokenizer{
-		sc: words.NewScanner(r),
+		sc: iterators.NewScanner(r, split),
 	}
 }
 
+// split is words.SplitFunc, except that it waits for enough data to decide on a word boundary. For example, whether
+// "don" is a word depends on what follows an apostrophe; a read may end just there.
+func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
+	advance, token, err = words.SplitFunc(data, atEOF)
+	if atEOF || err != nil || advance == 0 || len(data) >= bufio.MaxScanTokenSize {
+		return advance, token, err
+	}
+
+	// Only punctuation & symbols join two words (or numbers)
+	rest := data[advance:]
+	r, w := utf8.DecodeRune(rest)
+	if !unicode.IsPunct(r) && !unicode.IsSymbol(r) {
+		return advance, token, err
+	}
+
+	// What follows has to be seen, disregarding marks and format characters
+	for rest = rest[w:]; utf8.FullRune(rest); rest = rest[w:] {
+		r, w = utf8.DecodeRune(rest)
+		if !unicode.In(r, unicode.M, unicode.Cf, unicode.Lm, unicode.Sk) {
+			return advance, token, err
+		}
+	}
+
+	return 0, nil, nil
+}
+
 // next returns the next token. Call until it returns nil.
 func (t *tokenizer) next() (*Token, error) {
 	if t.sc.Scan() {
-- 
2.43.0


From 6b747176f355bccb4cc07c19d56bb37bcda56f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:04 +0000
Subject: [PATCH 13/15] fix: a token may be of any length

---
 tokenizer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index fefb7c6..5f5bb10 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -1,8 +1,8 @@
 package jargon
 
 import (
-	"bufio"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -33,8 +33,10 @@ type tokenizer struct {
 }
 
 func newTokenizer(r io.Reader) *tokenizer {
+	sc := iterators.NewScanner(r, split)
+	sc.Buffer(nil, math.MaxInt32) // a token may be of any length
 	return &tokenizer{
-		sc: iterators.NewScanner(r, split),
+		sc: sc,
 	}
 }
 
@@ -42,7 +44,7 @@ func newTokenizer(r io.Reader) *tokenizer {
 // "don" is a word depends on what follows an apostrophe; a read may end just there.
 func split(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	advance, token, err = words.SplitFunc(data, atEOF)
-	if atEOF || err != nil || advance == 0 || len(data) >= bufio.MaxScanTokenSize {
+	if atEOF || err != nil || advance == 0 {
 		return advance, token, err
 	}
 
-- 
2.43.0


From 6387edab5e31cfa43fc328c26f374eca3f9cb851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:00 +0000
Subject: [PATCH 14/15] fix: a token queue does not share the slice it is made
 from

---
 tokenqueue/queue.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tokenqueue/queue.go b/tokenqueue/queue.go
index ac388b1..2931ecf 100644
--- a/tokenqueue/queue.go
+++ b/tokenqueue/queue.go
@@ -11,9 +11,9 @@ type Token = jargon.Token
 
 // New creates a new TokenQueue
 func New(tokens ...*Token) *TokenQueue {
-	return &TokenQueue{
-		Tokens: tokens,
-	}
+	q := &TokenQueue{}
+	q.Push(tokens...) // copies, the slice may be the caller's
+	return q
 }
 
 // TokenQueue is a FIFO queue
-- 
2.43.0


From f7d79286f60de8a5ce03c1ebcde04dfc2bdfaa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:58 +0000
Subject: [PATCH 15/15] fix: the value of -file, -out or -lang, and what
 follows --, is not a filter

jargon -out -stem wrote to the file named -stem, and stemmed too.
---
 cmd/jargon/main.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmd/jargon/main.go b/cmd/jargon/main.go
index e3a1bda..81ce7f2 100644
--- a/cmd/jargon/main.go
+++ b/cmd/jargon/main.go
@@ -188,18 +188,34 @@ var stemmerMap = map[string]jargon.Filter{
 
 func setFilters(c *config, args []string, lang string) error {
 	// Loop through filters; order matters, so can't use flag package
-	for _, arg := range args {
+	for i := 0; i < len(args); i++ {
+		arg := args[i]
+		if arg == "--" {
+			// Like the flag package, there are no flags after this
+			break
+		}
+
 		// Like the flag package, accept -name, --name and -name=bool
 		on := true
-		if i := strings.Index(arg, "="); i >= 0 {
-			value, err := strconv.ParseBool(arg[i+1:])
+		equals := strings.Index(arg, "=")
+		if equals >= 0 {
+			value, err := strconv.ParseBool(arg[equals+1:])
 			on = err == nil && value
-			arg = arg[:i]
+			arg = arg[:equals]
 		}
 		if strings.HasPrefix(arg, "--") {
 			arg = arg[1:]
 		}
 
+		switch arg {
+		case "-lang", "-file", "-out":
+			if equals < 0 {
+				// The next argument is the value of this flag, whatever it looks like
+				i++
+			}
+			continue
+		}
+
 		filter, found := filterMap[arg]
 		if found && on {
 			if arg == "-stem" && lang != "" {
-- 
2.43.0

