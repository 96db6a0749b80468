package main

import (
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stopwords"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c15_list"] = H_c15_list
	registry["c15_words"] = H_c15_words
	registry["c15_runes"] = H_c15_runes
	registry["c15_text"] = H_c15_text
	registry["c15_near"] = H_c15_near
	registry["c15_case"] = H_c15_case
	registry["c15_bytes"] = H_c15_bytes
	registry["c16_around"] = H_c16_around
	registry["c15_long"] = H_c15_long
	registry["c16_words"] = H_c16_words
	registry["c16_near"] = H_c16_near
	registry["c16_any"] = H_c16_any
	registry["c16_rune"] = H_c16_rune
	registry["c16_sequence"] = H_c16_sequence
	registry["c16_long"] = H_c16_long
}

// checkStopped: exactly the tokens not in the list come out.
func checkStopped(list []string, ignoreCase bool, ts []*jargon.Token) {
	before := make([]string, len(list))
	copy(before, list)
	var want []*jargon.Token
	for _, t := range ts {
		stop := false
		for _, s := range list {
			if t.String() == s || ignoreCase && strings.ToLower(t.String()) == strings.ToLower(s) {
				stop = true
			}
		}
		if !stop {
			want = append(want, t)
			sym.Cover("kept")
		} else {
			sym.Cover("stopped")
		}
	}
	f := stopwords.NewFilter(list, ignoreCase)
	got, err := drain(f(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	sym.Assert(identical(got, want), "exactly the tokens that are no stop words come out, unchanged")
}

// H_c15_list: an arbitrary list of two words, one token of n letters.
func H_c15_list() {
	n := sym.Param("n", 2)
	ignoreCase := sym.Choice("ignore case", 2) == 1
	list := []string{sym.Of("stop", "abAZz", n), sym.Of("stop", "aZ.", 1)}
	checkStopped(list, ignoreCase, []*jargon.Token{
		jargon.NewToken(sym.Of("token", "abAZz", n), sym.Bool("lemma")),
		jargon.NewToken(sym.Of("token", "azZ. ", 1), false),
	})
}

var stopLists = [][]string{nil, {"a"}, {"The", "and", "A"}, {" ", "."}, {"a", "a", "B"}, {"", "b c"}, {"don't", "É", "\n"}}

// H_c15_words: k arbitrary tokens of one or two characters, several lists.
func H_c15_words() {
	k := sym.Param("k", 3)
	list := stopLists[sym.Choice("list", len(stopLists))]
	ignoreCase := sym.Choice("ignore case", 2) == 1
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "abAB .\n", 1), false))
	}
	checkStopped(list, ignoreCase, ts)
}

// H_c15_runes: a stop word with a letter outside ASCII, compared with a word with an arbitrary letter there.
func H_c15_runes() {
	r := sym.Rune("r")
	sym.Assume(r < 0x80 || r >= 0xc0 && r < 0x130 || r >= 0x391 && r < 0x3c2 || r >= 0x410 && r < 0x450)
	stop := []string{"éa", "ÉA", "яa", "Ωa", "øA", "ka", "日a"}[sym.Choice("stop", 7)]
	checkStopped([]string{stop}, sym.Choice("ignore case", 2) == 1, []*jargon.Token{jargon.NewToken(string(r)+sym.Of("letter", "aA", 1), false)})
}

// H_c15_text: tokenized text with stop words of any case.
func H_c15_text() {
	s := "the " + sym.Of("t", "tT", 1) + sym.Of("h", "hH", 1) + sym.Of("e", "eE.", 1) + " don't THE it, The"
	checkStopped([]string{"the", "It", ","}, sym.Choice("ignore case", 2) == 1, textTokens(s))
}

// H_c15_long: many stop words, long words, many tokens.
func H_c15_long() {
	n := sym.Size("n", 2, 400, 3, 17, 33, 65, 130)
	ignoreCase := sym.Choice("ignore case", 2) == 1
	var list []string
	var ts []*jargon.Token
	switch sym.Choice("kind", 4) {
	case 0: // many stop words
		for i := 0; i < n; i++ {
			list = append(list, string([]byte{'A' + byte(i%26), 'a' + byte(i/26%26)}))
		}
		ts = append(ts, jargon.NewToken(list[n-1], false), jargon.NewToken(strings.ToLower(list[n-1]), false), jargon.NewToken(list[0], true), jargon.NewToken(list[n/2], true))
	case 1: // a long word
		list = []string{repeat("a", n), repeat("b", n) + "c"}
		ts = append(ts, jargon.NewToken(repeat("a", n), false), jargon.NewToken(repeat("a", n-1)+"A", false), jargon.NewToken(repeat("b", n), false), jargon.NewToken(repeat("b", n)+sym.Of("last", "cCd", 1), false))
	case 2: // a long run of stop words
		list = []string{"a"}
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("a", false))
		}
		ts = append(ts, jargon.NewToken(sym.Of("last", "aAb", 1), false), jargon.NewToken("b", false))
	default: // a long run of other words
		list = []string{"a"}
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("b", false))
		}
		ts = append(ts, jargon.NewToken(sym.Of("last", "aAb", 1), false), jargon.NewToken("a", false))
	}
	checkStopped(list, ignoreCase, ts)
	sym.Cover("long")
}

// the known contractions and their expansions, in lower case with a straight apostrophe
var known = [][2]string{
	{"i'll", "i will"}, {"you'll", "you will"}, {"she'll", "she will"}, {"he'll", "he will"}, {"we'll", "we will"}, {"they'll", "they will"},
	{"i'm", "i am"}, {"you're", "you are"}, {"she's", "she is"}, {"he's", "he is"}, {"we're", "we are"}, {"they're", "they are"},
	{"i've", "i have"}, {"you've", "you have"}, {"we've", "we have"}, {"they've", "they have"},
	{"i'd", "i would"}, {"you'd", "you would"}, {"she'd", "she would"}, {"he'd", "he would"}, {"we'd", "we would"}, {"they'd", "they would"},
	{"isn't", "is not"}, {"aren't", "are not"}, {"wasn't", "was not"},
	{"don't", "do not"}, {"doesn't", "does not"}, {"didn't", "did not"},
	{"haven't", "have not"}, {"hadn't", "had not"},
	{"can't", "can not"},
	{"won't", "will not"}, {"will've", "will have"},
	{"wouldn't", "would not"}, {"would've", "would have"},
	{"couldn't", "could not"}, {"could've", "could have"},
	{"shouldn't", "should not"}, {"should've", "should have"},
	{"mightn't", "might not"}, {"might've", "might have"},
	{"mustn't", "must not"}, {"must've", "must have"},
	{"gonna", "going to"}, {"gotta", "got to"}, {"wanna", "want to"}, {"gimme", "give me"}, {"cannot", "can not"},
}

const (
	caseLower = iota
	caseTitle
	caseUpper
	caseMixed
)

// caseOf says in which case a word of ASCII letters (and an apostrophe) is.
func caseOf(s string) int {
	lower, title, upper := true, true, true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'A' <= c && c <= 'Z' {
			lower = false
			if i > 0 {
				title = false
			}
		}
		if 'a' <= c && c <= 'z' {
			upper = false
			if i == 0 {
				title = false
			}
		}
	}
	switch {
	case lower:
		return caseLower
	case upper:
		return caseUpper
	case title:
		return caseTitle
	}
	return caseMixed
}

func inCase(s string, c int) string {
	switch c {
	case caseUpper:
		return strings.ToUpper(s)
	case caseTitle:
		return strings.ToUpper(s[:1]) + s[1:]
	}
	return s
}

// specExpand is the expansion of a word, "" if it is no contraction.
func specExpand(s string) string {
	plain := s
	if i := strings.Index(s, "’"); i >= 0 {
		plain = s[:i] + "'" + s[i+len("’"):]
	}
	b := make([]byte, 0, len(plain))
	for i := 0; i < len(plain); i++ {
		c := plain[i]
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		b = append(b, c)
	}
	low := string(b)
	for _, k := range known {
		if len(low) == len(k[0]) && low == k[0] {
			return inCase(k[1], caseOf(plain))
		}
	}
	return ""
}

// checkExpanded: every contraction is replaced by the tokens of its expansion, everything else is kept.
func checkExpanded(ts []*jargon.Token) {
	got, err := drain(contractions.Expand(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	i := 0
	for _, t := range ts {
		e := specExpand(t.String())
		if e == "" {
			sym.Assert(i < len(got) && got[i] == t, "what is no contraction comes through unchanged")
			if i >= len(got) {
				return
			}
			i++
			sym.Cover("kept")
			continue
		}
		sp := strings.Index(e, " ")
		for _, w := range []string{e[:sp], " ", e[sp+1:]} {
			sym.Assert(i < len(got) && got[i].String() == w, "a contraction is replaced by the tokens of its expansion")
			if i >= len(got) {
				return
			}
			sym.Assert(got[i].IsSpace() == (w == " ") && !got[i].IsPunct(), "the expansion's tokens are words and spaces")
			i++
		}
		sym.Cover("expanded")
	}
	sym.Assert(i == len(got), "nothing else is delivered")
}

// anyCase is s with every letter in an arbitrary case.
func anyCase(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		if 'a' <= c && c <= 'z' {
			out += sym.Of("letter", string([]byte{c, c - ('a' - 'A')}), 1)
		} else {
			out += string([]byte{c})
		}
	}
	return out
}

// H_c16_words: every known contraction, either apostrophe, every letter in either case.
func H_c16_words() {
	w := known[sym.Choice("contraction", len(known))][0]
	i := strings.Index(w, "'")
	if i < 0 {
		checkExpanded([]*jargon.Token{jargon.NewToken(anyCase(w), false)})
		return
	}
	a := []string{"'", "’"}[sym.Choice("apostrophe", 2)]
	checkExpanded([]*jargon.Token{jargon.NewToken(anyCase(w[:i])+a+anyCase(w[i+1:]), false)})
}

// H_c16_near: a contraction with one byte changed to anything, added or left out.
func H_c16_near() {
	list := []string{"Can't", "WE'RE", "She’s", "DON’T"}
	for _, k := range known {
		list = append(list, k[0])
	}
	w := list[sym.Choice("contraction", len(list))]
	i := sym.Choice("where", len(w)+1)
	change := sym.Choice("change", 3)
	if i == len(w) {
		change = 1
	}
	var s string
	switch change {
	case 0:
		s = w[:i] + sym.String("byte", 1) + w[i+1:]
	case 1:
		s = w[:i] + sym.Of("byte", "'aNt.s ", 1) + w[i:]
	default:
		s = w[:i] + w[i+1:]
	}
	checkExpanded([]*jargon.Token{jargon.NewToken(s, false)})
}

// H_c16_any: any token of n bytes.
func H_c16_any() {
	checkExpanded([]*jargon.Token{jargon.NewToken(sym.String("s", sym.Param("n", 2)), sym.Bool("lemma"))})
}

// H_c16_rune: any character for the apostrophe.
func H_c16_rune() {
	r := sym.Rune("r")
	pair := [][2]string{{"don", "t"}, {"I", "M"}, {"They", "re"}}[sym.Choice("word", 3)]
	checkExpanded([]*jargon.Token{jargon.NewToken(pair[0]+string(r)+pair[1], false)})
}

// H_c16_sequence: contractions among other tokens, from text and made by hand.
func H_c16_sequence() {
	k := sym.Param("k", 3)
	words := []string{"don't", "We’ve", " ", ".", "GOTTA", "a", "dOn't"}
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		c := sym.Choice("token", len(words)+1)
		if c == len(words) {
			ts = append(ts, jargon.NewToken(sym.Of("token", "aI'", 1)+"'"+sym.Of("token", "dDm", 1), false))
			continue
		}
		ts = append(ts, jargon.NewToken(words[c], sym.Choice("lemma", 2) == 1))
	}
	checkExpanded(ts)
}

// H_c16_long: many contractions, long words.
func H_c16_long() {
	n := sym.Size("n", 2, 300, 5, 33, 65, 130)
	var ts []*jargon.Token
	switch sym.Choice("kind", 3) {
	case 0:
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("Don't", false), jargon.NewToken(" ", false))
		}
	case 1:
		ts = append(ts, jargon.NewToken(repeat("a", n)+"'"+sym.Of("letter", "tmd", 1), false))
	default:
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("u", false))
		}
	}
	ts = append(ts, jargon.NewToken(sym.Of("last", "iI", 1)+"'"+sym.Of("last", "mMd", 1), false))
	checkExpanded(ts)
	sym.Cover("long")
}

// H_c15_bytes: a stop word with any bytes after, before or within it.
func H_c15_bytes() {
	word := []string{"the", "A", "É"}[sym.Choice("word", 3)]
	n := sym.Param("n", 2)
	i := []int{0, len(word) / 2, len(word)}[sym.Choice("where", 3)]
	s := word[:i] + sym.String("bytes", n) + word[i:]
	t := jargon.NewToken(s, false)
	f := stopwords.NewFilter([]string{word, "of"}, sym.Choice("ignore case", 2) == 1)
	got, err := drain(f(from(t).stream()))
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == 1 && got[0] == t && got[0].String() == s, "a longer word is no stop word")
	sym.Cover("bytes")
}

// H_c16_around: any character before, after or within a contraction.
func H_c16_around() {
	word := []string{"don't", "dOn't", "IT’S", "She's", "gonna", "GONna", "we’re"}[sym.Choice("contraction", 7)]
	c := string(sym.Rune("r"))
	switch sym.Choice("where", 3) {
	case 0:
		word = c + word
	case 1:
		word += c
	default:
		word = word[:2] + c + word[2:]
	}
	checkExpanded([]*jargon.Token{jargon.NewToken(word, false), jargon.NewToken(".", false)})
}

// H_c15_case: words of several letters, each in either case.
func H_c15_case() {
	word := []string{"then", "It's", "EVERYONE", "o'Clock"}[sym.Choice("word", 4)]
	list := []string{"of", word, "a"}
	var ts []*jargon.Token
	ts = append(ts, jargon.NewToken(anyCase(word), false), jargon.NewToken(word+"s", false), jargon.NewToken(word[1:], false))
	checkStopped(list, sym.Choice("ignore case", 2) == 1, ts)
	sym.Cover("case")
}

// H_c15_near: a stop word with one character changed to any, added or left out.
func H_c15_near() {
	word := []string{"don't", "naïve", "the", "U.S", "A’s", "e\u0301a"}[sym.Choice("word", 6)]
	rs := []rune(word)
	i := sym.Choice("where", len(rs))
	s := string(rs[:i])
	switch sym.Choice("change", 3) {
	case 0:
		r := sym.Rune("character")
		sym.Assume(r < 0x80 || r >= 0xc0 && r < 0x130 || r >= 0x300 && r < 0x310 || r >= 0x391 && r < 0x3c2 || r >= 0x410 && r < 0x450 || r >= 0x2010 && r < 0x2030)
		s += string(r) + string(rs[i+1:])
	case 1:
		s += string(rs[i:i+1]) + sym.Of("added", "'.s -\n", 1) + string(rs[i+1:])
	default:
		s += string(rs[i+1:])
	}
	if s == "" {
		sym.Assume(false)
	}
	checkStopped([]string{"of", word, "a"}, sym.Choice("ignore case", 2) == 1, []*jargon.Token{jargon.NewToken(s, sym.Bool("lemma")), jargon.NewToken("b", false)})
	sym.Cover("near")
}
