package main

import (
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/synonyms"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c10_dicts"] = H_c10_dicts
	registry["c10_text"] = H_c10_text
	registry["c10_phrases"] = H_c10_phrases
	registry["c10_commas"] = H_c10_commas
	registry["c10_separators"] = H_c10_separators
	registry["c10_bytes"] = H_c10_bytes
	registry["c10_runes"] = H_c10_runes
	registry["c10_canon"] = H_c10_canon
	registry["c11_canon"] = H_c11_canon
	registry["c10_long"] = H_c10_long
	registry["c11_dicts"] = H_c11_dicts
	registry["c11_text"] = H_c11_text
	registry["c11_phrases"] = H_c11_phrases
	registry["c11_long"] = H_c11_long
}

// phrase is one listed phrase. words is its number of words.
type phrase struct {
	text      string
	canonical string
	words     int
}

// dict is a synonym dictionary, as the filter takes it and as single phrases.
type dict struct {
	mappings   map[string]string
	phrases    []phrase
	ignoreCase bool
	ignore     []rune
	spelled    [][]rune
	max        int
}

// prepare computes what the oracle needs of every phrase.
func (d *dict) prepare() {
	if d.spelled != nil {
		return
	}
	d.max = 1
	for _, p := range d.phrases {
		d.spelled = append(d.spelled, d.spelling(p.text))
		if p.words > d.max {
			d.max = p.words
		}
	}
}

func (d *dict) filter() jargon.Filter {
	return synonyms.NewFilter(d.mappings, d.ignoreCase, d.ignore)
}

func lowerOf(r rune) rune {
	if r < 0x80 {
		if 'A' <= r && r <= 'Z' {
			return r + ('a' - 'A')
		}
		return r
	}
	return unicode.ToLower(r)
}

// spelling is what is compared: without the ignored characters, and in lower case when case is ignored.
func (d *dict) spelling(s string) []rune {
	var out []rune
next:
	for _, r := range s {
		if d.ignoreCase {
			r = lowerOf(r)
		}
		for _, g := range d.ignore {
			if r == g {
				continue next
			}
		}
		out = append(out, r)
	}
	return out
}

func sameRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// match finds the longest phrase that the words and spaces at the start of ts spell, and the number of
// tokens that spell it; -1 if there is none.
func (d *dict) match(ts []*jargon.Token) (best int, tokens int) {
	best = -1
	d.prepare()
	words := 0
	var got []rune
	longest := 0
	for i, t := range ts {
		if t.IsPunct() {
			break
		}
		got = append(got, d.spelling(t.String())...)
		for j, want := range d.spelled {
			if len(want) > longest && sameRunes(got, want) {
				best, tokens, longest = j, i+1, len(want)
			}
		}
		if !t.IsSpace() {
			words++
			if words == d.max {
				break
			}
		}
	}
	return best, tokens
}

// want is the expected output: in order, kept tokens and replacements.
type want struct {
	kept *jargon.Token
	text string // of a replacement
}

func (d *dict) expect(in []*jargon.Token) []want {
	var out []want
	for i := 0; i < len(in); {
		t := in[i]
		if !t.IsSpace() && !t.IsPunct() {
			best, n := d.match(in[i:])
			if best >= 0 {
				if c := d.phrases[best].canonical; c != "" {
					out = append(out, want{text: c})
				}
				i += n
				continue
			}
		}
		out = append(out, want{kept: t})
		i++
	}
	return out
}

// checkReplaced: the words and lemmas that come out are those expected (white space and
// punctuation are another property's business).
func (d *dict) checkReplaced(in []*jargon.Token) {
	got, err := drain(d.filter()(from(in...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	i := 0
	for _, w := range d.expect(in) {
		if w.kept != nil && (w.kept.IsSpace() || w.kept.IsPunct()) {
			continue
		}
		for i < len(got) && !got[i].IsLemma() && (got[i].IsSpace() || got[i].IsPunct()) {
			i++
		}
		sym.Assert(i < len(got), "every phrase is replaced and every other word kept")
		if i >= len(got) {
			return
		}
		if w.kept != nil {
			sym.Assert(got[i].IsLemma() == w.kept.IsLemma() && got[i].String() == w.kept.String(), "text that spells no listed phrase is not replaced")
			sym.Cover("kept")
		} else {
			sym.Assert(got[i].IsLemma() && got[i].String() == w.text, "the longest listed phrase is replaced by its canonical term")
			sym.Cover("replaced")
		}
		i++
	}
	for ; i < len(got); i++ {
		sym.Assert(!got[i].IsLemma() && (got[i].IsSpace() || got[i].IsPunct()), "nothing is replaced that spells no listed phrase")
	}
	sym.Cover("done")
}

// checkKept: the output is the input with some runs that spell listed phrases replaced, each run starting and
// ending with a word and free of punctuation.
func (d *dict) checkKept(in []*jargon.Token) {
	got, err := drain(d.filter()(from(in...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	sym.Assert(d.aligned(got, in), "everything but replaced phrases comes through, once, in order")
	sym.Cover("done")
}

func (d *dict) aligned(got, in []*jargon.Token) bool {
	if len(in) == 0 {
		return len(got) == 0
	}
	if len(got) > 0 && got[0] == in[0] && d.aligned(got[1:], in[1:]) {
		return true
	}
	if in[0].IsSpace() || in[0].IsPunct() {
		return false
	}
	// a replaced run
	d.prepare()
	var s []rune
	for i, t := range in {
		if t.IsPunct() {
			break
		}
		s = append(s, d.spelling(t.String())...)
		if t.IsSpace() {
			continue
		}
		for j, p := range d.phrases {
			if !sameRunes(s, d.spelled[j]) {
				continue
			}
			if p.canonical == "" {
				if d.aligned(got, in[i+1:]) {
					sym.Cover("removed")
					return true
				}
			} else if len(got) > 0 && got[0].IsLemma() && got[0].String() == p.canonical {
				if d.aligned(got[1:], in[i+1:]) {
					sym.Cover("replaced")
					return true
				}
			}
		}
	}
	return false
}

const nDicts = 17

// aDict is one of several dictionaries with overlapping phrases.
func aDict(k int) *dict {
	switch k {
	case 0:
		return &dict{mappings: map[string]string{}}
	case 1: // a prefix of a phrase is a phrase
		return &dict{mappings: map[string]string{"a": "1", "a b c": "2"}, phrases: []phrase{{"a", "1", 1}, {"a b c", "2", 3}}}
	case 2: // the prefix is no phrase; a phrase starts inside another
		return &dict{mappings: map[string]string{"a b c": "1", "b": "2"}, phrases: []phrase{{"a b c", "1", 3}, {"b", "2", 1}}}
	case 3: // ignored space
		return &dict{mappings: map[string]string{"ab": "1", "b c": "2"}, phrases: []phrase{{"ab", "1", 1}, {"b c", "2", 2}}, ignore: []rune{' '}}
	case 4: // ignored characters and case
		return &dict{mappings: map[string]string{"a b": "1", "A-b.c": "2"}, phrases: []phrase{{"a b", "1", 2}, {"A-b.c", "2", 2}}, ignore: []rune{' ', '-', '.'}, ignoreCase: true}
	case 5: // case matters
		return &dict{mappings: map[string]string{"A": "1", "a b": "2"}, phrases: []phrase{{"A", "1", 1}, {"a b", "2", 2}}}
	case 6: // removal
		return &dict{mappings: map[string]string{"a": "", "b b": "", "b c": "2"}, phrases: []phrase{{"a", "", 1}, {"b b", "", 2}, {"b c", "2", 2}}}
	case 7: // several phrases per entry
		return &dict{mappings: map[string]string{"a b, c,  b": "1", " c c,a": "2"}, phrases: []phrase{{"a b", "1", 2}, {"c", "1", 1}, {"b", "1", 1}, {"c c", "2", 2}, {"a", "2", 1}}}
	case 8: // an apostrophe
		return &dict{mappings: map[string]string{"a'b": "1", "c": "c c"}, phrases: []phrase{{"a'b", "1", 1}, {"c", "c c", 1}}, ignore: []rune{'\''}}
	case 9: // case ignored, spaces not
		return &dict{mappings: map[string]string{"A b": "1", "c A": "2", "C": "3"}, phrases: []phrase{{"A b", "1", 2}, {"c A", "2", 2}, {"C", "3", 1}}, ignoreCase: true}
	case 10: // five words
		return &dict{mappings: map[string]string{"a a a a b": "1", "a a": "2"}, phrases: []phrase{{"a a a a b", "1", 5}, {"a a", "2", 2}}, ignore: []rune{' '}}
	}
	switch k {
	case 11: // one canonical term for a phrase and its beginning
		return &dict{mappings: map[string]string{"a, a b": "1", "b c": "1"}, phrases: []phrase{{"a", "1", 1}, {"a b", "1", 2}, {"b c", "1", 2}}}
	case 12: // commas at the ends, and two in a row
		return &dict{mappings: map[string]string{"a b,": "1", ", c": "", "b,, A": "2"}, phrases: []phrase{{"a b", "1", 2}, {"c", "", 1}, {"b", "2", 1}, {"A", "2", 1}}}
	case 13: // canonical terms of white space and punctuation
		return &dict{mappings: map[string]string{"a": " ", "b c": "\n", "c": "."}, phrases: []phrase{{"a", " ", 1}, {"b c", "\n", 2}, {"c", ".", 1}}}
	case 14: // a letter is ignored, and case
		return &dict{mappings: map[string]string{"cb": "1", "C": "2", "b a b": "3"}, phrases: []phrase{{"cb", "1", 1}, {"C", "2", 1}, {"b a b", "3", 3}}, ignore: []rune{'a', ' '}, ignoreCase: true}
	case 15: // other spaces are ignored too
		return &dict{mappings: map[string]string{"a b": "1", "c": ""}, phrases: []phrase{{"a b", "1", 2}, {"c", "", 1}}, ignore: []rune{' ', '\u2003', '\u00a0'}}
	}
	// one word repeated, spaces ignored
	return &dict{mappings: map[string]string{"aaa": "1", "b": "2"}, phrases: []phrase{{"aaa", "1", 1}, {"b", "2", 1}}, ignore: []rune{' ', '-'}}
}

// synTokens is k arbitrary tokens of one character, or at one place of two or three.
func synTokens(k int) []*jargon.Token {
	var ts []*jargon.Token
	wide := sym.Choice("wide", 4*k+1)
	for i := 0; i < k; i++ {
		switch wide {
		case 2*k + 2*i + 1:
			ts = append(ts, jargon.NewToken(sym.Of("token", "abc", 1), true))
			continue
		case 2*k + 2*i + 2:
			ts = append(ts, jargon.NewToken([]string{"\u00a0", "\u2003", "  "}[sym.Choice("space", 3)], false))
			continue
		}
		switch wide {
		case 2*i + 1:
			ts = append(ts, jargon.NewToken(sym.Of("token", "ab", 1)+sym.Of("token", "ab-", 1), false))
		case 2*i + 2:
			ts = append(ts, jargon.NewToken("a"+sym.Of("token", "'b", 1)+"b", false))
		default:
			ts = append(ts, jargon.NewToken(sym.Of("token", "abcA .\n", 1), false))
		}
	}
	return ts
}

// H_c10_dicts: k arbitrary tokens, every dictionary.
func H_c10_dicts() {
	d := aDict(sym.Choice("dictionary", nDicts))
	d.checkReplaced(synTokens(sym.Param("k", 3)))
}

// H_c11_dicts: the same inputs.
func H_c11_dicts() {
	d := aDict(sym.Choice("dictionary", nDicts))
	d.checkKept(synTokens(sym.Param("k", 3)))
}

func textTokens(s string) []*jargon.Token {
	ts, err := drain(jargon.TokenizeString(s))
	sym.Assert(err == nil, "no error")
	return ts
}

// H_c10_text: tokenized text of n characters.
func H_c10_text() {
	d := aDict(1 + sym.Choice("dictionary", nDicts-1))
	d.checkReplaced(textTokens(sym.Of("s", "abcA -.\n", sym.Param("n", 3))))
}

func H_c11_text() {
	d := aDict(1 + sym.Choice("dictionary", nDicts-1))
	d.checkKept(textTokens(sym.Of("s", "abcA -.\n", sym.Param("n", 3))))
}

// anyPhrases: a dictionary of two arbitrary phrases of w words (of one arbitrary letter each), settings arbitrary,
// and an input of k arbitrary words with single spaces.
func anyPhrases(w, k int) (*dict, []*jargon.Token) {
	d := &dict{mappings: map[string]string{}}
	d.ignoreCase = sym.Choice("ignore case", 2) == 1
	switch sym.Choice("ignore", 3) {
	case 1:
		d.ignore = []rune{' '}
	case 2:
		d.ignore = []rune{' ', rune(sym.ByteOf("ignored", "x.-"))}
	}
	for i := 0; i < 2; i++ {
		text := ""
		words := 1 + sym.Choice("words", w)
		for j := 0; j < words; j++ {
			if j > 0 {
				text += " "
			}
			text += sym.Of("phrase", "abA", 1)
		}
		c := []string{"one", "two"}[i]
		d.mappings[text] = c
		d.phrases = append(d.phrases, phrase{text, c, words})
	}
	// not the same phrase twice
	sym.Assume(!sameRunes(d.spelling(d.phrases[0].text), d.spelling(d.phrases[1].text)))
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		if i > 0 && sym.Choice("space", 2) == 1 {
			ts = append(ts, jargon.NewToken(" ", false))
		}
		ts = append(ts, jargon.NewToken(sym.Of("word", "abAx", 1), false))
	}
	return d, ts
}

func H_c10_phrases() {
	d, ts := anyPhrases(sym.Param("w", 2), sym.Param("k", 3))
	d.checkReplaced(ts)
}

func H_c11_phrases() {
	d, ts := anyPhrases(sym.Param("w", 2), sym.Param("k", 3))
	d.checkKept(ts)
}

// H_c10_commas: an entry of k phrases with arbitrary spaces before and after commas; every phrase counts.
func H_c10_commas() {
	k := sym.Param("k", 3)
	key := ""
	d := &dict{mappings: map[string]string{}, ignore: []rune{' '}}
	for i := 0; i < k; i++ {
		if i > 0 {
			key += ","
		}
		key += repeat(" ", sym.Choice("spaces", 3))
		text := string([]byte{'a' + byte(i)})
		words := 1
		if sym.Choice("two words", 2) == 1 {
			text += " z"
			words = 2
		}
		key += text
		d.phrases = append(d.phrases, phrase{text, "x", words})
	}
	if sym.Choice("removed", 2) == 1 {
		d.mappings[key] = ""
		for i := range d.phrases {
			d.phrases[i].canonical = ""
		}
	} else {
		d.mappings[key] = "x"
	}
	if sym.Choice("ignore spaces", 2) == 1 {
		d.ignore = nil
	}
	var ts []*jargon.Token
	for i := 0; i < 2; i++ {
		ts = append(ts, jargon.NewToken(string([]byte{'a' + byte(sym.Choice("word", k))}), false), jargon.NewToken(" ", false))
		if sym.Choice("z", 2) == 1 {
			ts = append(ts, jargon.NewToken("z", false))
		}
	}
	d.checkReplaced(ts)
}

// H_c10_separators: only a comma separates phrases.
func H_c10_separators() {
	seps := []string{",", ";", "，", "、", "|", "/", "،", "&", "\n", "\t", ",,", " , ", "\u00a0", "\uff1b", "\u037e"}
	sep := seps[sym.Choice("separator", len(seps))]
	d := &dict{mappings: map[string]string{"a" + sep + "b": "x"}, ignoreCase: sym.Choice("ignore case", 2) == 1}
	switch sep {
	case ",", ",,":
		d.phrases = []phrase{{"a", "x", 1}, {"b", "x", 1}}
	case " , ":
		d.phrases = []phrase{{"a ", "x", 1}, {"b", "x", 1}}
	case "|": // a symbol, not punctuation, so a word
		d.phrases = []phrase{{"a|b", "x", 3}}
	default:
		d.phrases = []phrase{{"a" + sep + "b", "x", 2}}
	}
	var ts []*jargon.Token
	for i := 0; i < 3; i++ {
		ts = append(ts, jargon.NewToken([]string{"a", "b", sep, " "}[sym.Choice("token", 4)], false))
	}
	d.checkReplaced(ts)
	sym.Cover("separators")
}

// H_c10_bytes: a listed word with any bytes after, before or within it is not listed.
func H_c10_bytes() {
	d := &dict{mappings: map[string]string{"the": "1", "B É": "2"}}
	d.phrases = []phrase{{"the", "1", 1}, {"B É", "2", 2}}
	d.ignoreCase = sym.Choice("ignore case", 2) == 1
	word := []string{"the", "É"}[sym.Choice("word", 2)]
	i := []int{0, 2, len(word)}[sym.Choice("where", 3)]
	s := word[:i] + sym.String("bytes", sym.Param("n", 1)) + word[i:]
	d.checkReplaced([]*jargon.Token{jargon.NewToken("B", false), jargon.NewToken(" ", false), jargon.NewToken(s, false)})
	sym.Cover("bytes")
}

// H_c10_runes: words of arbitrary letters from several scripts, case ignored or not.
func H_c10_runes() {
	set := []rune{'é', 'É', 'ß', 'я', 'Я', 'İ', 'ſ', 'K', 'k', '\u212a', 'ǅ', 'ǆ', 'Ⅷ', 'ⓐ', 'ẞ', '\u2126', 'Ა', '\U00010400', 'ᾼ', 'ᵃ'}
	d := &dict{mappings: map[string]string{}}
	d.ignoreCase = sym.Choice("ignore case", 2) == 1
	p := "o" + string(set[sym.Choice("rune", len(set))]) + "s"
	d.mappings[p] = "1"
	d.phrases = []phrase{{p, "1", 1}}
	d.checkReplaced([]*jargon.Token{jargon.NewToken("x", false), jargon.NewToken("o"+string(sym.Rune("r"))+"s", false)})
}

func manyWords(n int) ([]*jargon.Token, string) {
	var ts []*jargon.Token
	text := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, jargon.NewToken(" ", false))
			text += " "
		}
		w := string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26)})
		ts = append(ts, jargon.NewToken(w, false))
		text += w
	}
	return ts, text
}

func longSyn() (*dict, []*jargon.Token) {
	n := sym.Size("n", 2, 300, 4, 9, 17, 33, 70)
	run, text := manyWords(n)
	d := &dict{mappings: map[string]string{text: "long", "zz": "1"}, phrases: []phrase{{text, "long", n}, {"zz", "1", 1}}}
	if sym.Choice("ignore", 2) == 1 {
		d.ignore = []rune{' '}
	}
	var ts []*jargon.Token
	switch sym.Choice("input", 5) {
	case 4: // many spaces between the words of a short phrase
		ts = append(ts, run[0])
		for i := 1; i < n; i++ {
			ts = append(ts, jargon.NewToken(" \n"[i&1:i&1+1], false))
		}
		ts = append(ts, jargon.NewToken("zz", false))
		d.mappings[run[0].String()+" zz"] = "2"
		d.phrases = append(d.phrases, phrase{run[0].String() + " zz", "2", 2})
		if len(d.ignore) > 0 {
			d.ignore = append(d.ignore, '\n')
		}
	case 0: // the long phrase, twice
		ts = append(ts, run...)
		ts = append(ts, jargon.NewToken(" ", false))
		ts = append(ts, run...)
	case 1: // broken at the end
		ts = append(ts, run...)
		ts[len(ts)-1] = jargon.NewToken("zz", false)
	case 2: // broken by punctuation
		ts = append(ts, run[:n]...)
		ts = append(ts, jargon.NewToken(".", false))
		ts = append(ts, run[n:]...)
	default: // a long text of unlisted words before
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("u", false), jargon.NewToken(" ", false))
		}
		ts = append(ts, run...)
	}
	ts = append(ts, jargon.NewToken(sym.Of("last", " .,x", 1), false))
	ts = append(ts, jargon.NewToken("zz", false))
	return d, ts
}

// H_c10_long: long phrases and long texts.
func H_c10_long() {
	d, ts := longSyn()
	d.checkReplaced(ts)
}

func H_c11_long() {
	d, ts := longSyn()
	d.checkKept(ts)
}

// canons: a dictionary with one phrase of up to w words and a word of its own, short or long, canonical terms
// of all kinds, also the phrase itself, and text around them; tokens may be lemmas of other filters.
func canons(w int) (*dict, []*jargon.Token) {
	names := [][]string{{"a", "b", "c", "d", "e"}, {"international", "business", "machines", "corporation", "limited"}}[sym.Choice("long", 2)]
	n := 1 + sym.Choice("words", w)
	text := names[0]
	for _, s := range names[1:n] {
		text += " " + s
	}
	c := []string{"", text, names[0], " x ", "x\n", "x, y", "longer than what it stands for"}[sym.Choice("canonical", 7)]
	d := &dict{mappings: map[string]string{text: c, "z": "z"}, phrases: []phrase{{text, c, n}, {"z", "z", 1}}}
	lemma := sym.Choice("lemma", n+1) - 1
	var ts []*jargon.Token
	if sym.Choice("before", 2) == 1 {
		ts = append(ts, jargon.NewToken("z", false))
	}
	for i, s := range names[:n] {
		if len(ts) > 0 {
			ts = append(ts, jargon.NewToken(" ", false))
		}
		ts = append(ts, jargon.NewToken(s, i == lemma))
	}
	switch sym.Choice("after", 4) {
	case 1:
		ts = append(ts, jargon.NewToken(" ", false), jargon.NewToken(sym.Of("word", "az", 1), false))
	case 2:
		ts = append(ts, jargon.NewToken(".", false))
	case 3:
		// the phrase again
		ts = append(ts, jargon.NewToken(" ", false))
		for i, s := range names[:n] {
			if i > 0 {
				ts = append(ts, jargon.NewToken(" ", false))
			}
			ts = append(ts, jargon.NewToken(s, false))
		}
	}
	return d, ts
}

// H_c10_canon: canonical terms of all kinds.
func H_c10_canon() {
	d, ts := canons(sym.Param("w", 4))
	d.checkReplaced(ts)
}

// H_c11_canon: the same inputs.
func H_c11_canon() {
	d, ts := canons(sym.Param("w", 4))
	d.checkKept(ts)
}
