package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stemmer"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
)

func init() {
	registry["c19_letters"] = H_c19_letters
	registry["c19_short"] = H_c19_short
	registry["c19_runes"] = H_c19_runes
	registry["c19_words"] = H_c19_words
	registry["c19_tokens"] = H_c19_tokens
	registry["c19_mixed"] = H_c19_mixed
	registry["c19_long"] = H_c19_long
}

func aStemmer(k int) (jargon.Filter, func(string, bool) string) {
	switch k {
	case 0:
		return stemmer.English, english.Stem
	case 1:
		return stemmer.French, french.Stem
	case 2:
		return stemmer.Norwegian, norwegian.Stem
	case 3:
		return stemmer.Russian, russian.Stem
	case 4:
		return stemmer.Spanish, spanish.Stem
	}
	return stemmer.Swedish, swedish.Stem
}

// checkStemmed: words become their stems in the filter's language, everything else is kept.
func checkStemmed(k int, ts []*jargon.Token) {
	f, stem := aStemmer(k)
	got, err := drain(f(from(ts...).stream()))
	sym.Assert(err == nil && len(got) == len(ts), "one token per token")
	sym.Observe(show(got))
	for i, t := range ts {
		if i >= len(got) {
			return
		}
		if t.IsSpace() || t.IsPunct() {
			sym.Assert(got[i] == t, "space and punctuation are untouched")
			sym.Cover("untouched")
			continue
		}
		want := stem(t.String(), true)
		if want == t.String() || want == "" {
			sym.Assert(got[i] == t, "a word that is its own stem is the original")
			sym.Cover("kept")
		} else {
			sym.Assert(got[i].IsLemma() && got[i].String() == want, "any other word is a lemma with its stem")
			sym.Cover("stemmed")
		}
	}
}

var stemShapes = [][2]string{{"run", "g"}, {"d", "ed"}, {"Cha", "s"}, {"relat", "al"}, {"", "heten"}, {"g", "ement"}}

// H_c19_letters: words with n arbitrary letters in them.
func H_c19_letters() {
	k := sym.Choice("language", 6)
	sh := stemShapes[sym.Choice("shape", len(stemShapes))]
	w := sh[0] + sym.Of("letter", "aeinsSy'", sym.Param("n", 1)) + sh[1]
	checkStemmed(k, []*jargon.Token{jargon.NewToken(w, false)})
}

// H_c19_short: any ASCII token of n characters.
func H_c19_short() {
	k := sym.Choice("language", 6)
	checkStemmed(k, []*jargon.Token{jargon.NewToken(sym.ASCII("s", sym.Param("n", 1)), sym.Bool("lemma"))})
}

// H_c19_runes: a word with one character of Latin-1 or Cyrillic.
func H_c19_runes() {
	k := sym.Choice("language", 6)
	r := sym.Rune("r")
	sym.Assume(r >= 0xc0 && r < 0x100 || r >= 0x410 && r < 0x450)
	sh := [][2]string{{"", ""}, {"mang", "s"}, {"красив", "я"}, {"е", "шая"}}[sym.Choice("shape", 4)]
	checkStemmed(k, []*jargon.Token{jargon.NewToken(sh[0]+string(r)+sh[1], false)})
}

var stemWords = []string{"running", "the", "Management", "continuellement", "havnedistriktene", "бегущая", "ейш", "corriendo", "jaktkarlarne", " ", ".", "\n", "don't", "日本", "A", "ing", "naïve", "\xff",
	"RUNNING", "Running", "rUNNING", "MANAGEMENTS", "БЕГУЩАЯ", "CORRIENDO", "HAVNEDISTRIKTENE", "running's", "re-running", "12ings", "a.bings", "running_ings", "ﬁnishing", "e\u0301tudiants", "itself", "iPhones", "\u00adrunning", "running\x00", "s", "'s"}

// H_c19_words: words of every language through every filter, other tokens around.
func H_c19_words() {
	k := sym.Choice("language", 6)
	checkStemmed(k, []*jargon.Token{jargon.NewToken(stemWords[sym.Choice("word", len(stemWords))], sym.Bool("lemma")), jargon.NewToken(sym.Of("next", "a .", 1), false)})
}

// H_c19_tokens: sequences of tokens.
func H_c19_tokens() {
	k := sym.Choice("language", 6)
	words := []string{"running", "ейш", " ", ".", "a", "ring-ing"}
	var ts []*jargon.Token
	for i := 0; i < sym.Param("k", 3); i++ {
		ts = append(ts, jargon.NewToken(words[sym.Choice("token", len(words))], false))
	}
	checkStemmed(k, ts)
}

// H_c19_long: long words, many tokens.
func H_c19_long() {
	k := sym.Choice("language", 6)
	n := sym.Size("n", 1, 260, 10, 33, 65, 130)
	last := sym.Of("last", "sya.", 1)
	if sym.Choice("kind", 2) == 0 {
		checkStemmed(k, []*jargon.Token{jargon.NewToken(repeat("ab", n)+"ing"+last, false), jargon.NewToken("running", false)})
	} else {
		var ts []*jargon.Token
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken(".", false))
		}
		checkStemmed(k, append(ts, jargon.NewToken("running", false), jargon.NewToken(last, false)))
	}
	sym.Cover("long")
}

// H_c19_mixed: the same words through filters of two languages, one after the other.
func H_c19_mixed() {
	first, second := sym.Choice("first", 6), sym.Choice("second", 6)
	w := []string{"running", "Management", "continuellement", "corriendo", "jaktkarlarne", "havnedistriktene", "красивая", "es"}[sym.Choice("word", 8)]
	ts := []*jargon.Token{jargon.NewToken(w, false), jargon.NewToken(" ", false), jargon.NewToken(w+sym.Of("letter", "sea", 1), true)}
	checkStemmed(first, ts)
	checkStemmed(second, ts)
	checkStemmed(first, ts)
	sym.Cover("mixed")
}
