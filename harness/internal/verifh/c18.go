package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/norm"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
	xnorm "golang.org/x/text/unicode/norm"
)

func init() {
	registry["c18_rune"] = H_c18_rune
	registry["c18_pairs"] = H_c18_pairs
	registry["c18_ascii"] = H_c18_ascii
	registry["c18_tokens"] = H_c18_tokens
	registry["c18_mixed"] = H_c18_mixed
	registry["c18_long"] = H_c18_long
}

func aForm(k int) (jargon.Filter, xnorm.Form) {
	switch k {
	case 0:
		return norm.NFC, xnorm.NFC
	case 1:
		return norm.NFD, xnorm.NFD
	case 2:
		return norm.NFKC, xnorm.NFKC
	}
	return norm.NFKD, xnorm.NFKD
}

// checkNormalized: one token per token, normalized to exactly the filter's form.
func checkNormalized(k int, ts []*jargon.Token) {
	f, form := aForm(k)
	got, err := drain(f(from(ts...).stream()))
	sym.Assert(err == nil && len(got) == len(ts), "one token per token")
	sym.Observe(show(got))
	for i, t := range ts {
		if i >= len(got) {
			return
		}
		want := form.String(t.String())
		if want == t.String() {
			sym.Assert(got[i] == t, "a normalized token is the original")
			sym.Cover("kept")
		} else {
			sym.Assert(got[i].IsLemma() && got[i].String() == want, "any other is a lemma with the normalized text")
			sym.Cover("normalized")
		}
	}
}

// H_c18_rune: any character of a range, alone or in a word.
func H_c18_rune() {
	k := sym.Choice("form", 4)
	r := sym.Rune("r")
	switch sym.Param("range", 0) {
	case 0:
		sym.Assume(r < 0x250)
	case 1:
		sym.Assume(r >= 0x1e00 && r < 0x2200)
	case 2:
		sym.Assume(r >= 0x300 && r < 0x500)
	case 3:
		sym.Assume(r >= 0xac00 && r < 0xac40 || r >= 0xfb00 && r < 0xfb40 || r >= 0xff00 && r < 0xff60)
	default: // a block of 0x800 characters
		lo := rune(sym.Param("range", 0)-4) * 0x800
		if lo >= 0x10000 {
			lo += 0xd000
		}
		sym.Assume(r >= lo && r < lo+0x800)
	}
	checkNormalized(k, []*jargon.Token{jargon.NewToken(string(r), false)})
}

// H_c18_pairs: a base and an arbitrary combining mark.
func H_c18_pairs() {
	k := sym.Choice("form", 4)
	base := []string{"a", "e", "ﬁ", "é", "1"}[sym.Choice("base", 5)]
	r := sym.Rune("r")
	sym.Assume(r >= 0x300 && r < 0x348)
	s := base + string(r)
	if sym.Choice("after", 2) == 1 {
		s += "b"
	}
	checkNormalized(k, []*jargon.Token{jargon.NewToken(s, false)})
}

// H_c18_ascii: ASCII is left alone.
func H_c18_ascii() {
	k := sym.Choice("form", 4)
	checkNormalized(k, []*jargon.Token{jargon.NewToken(sym.ASCII("s", sym.Param("n", 2)), sym.Bool("lemma"))})
}

var normWords = []string{"a", "é", "e\u0301", "ﬁ", "①", " ", ".", "Å", "ệ", "한", "\u1112\u1161\u11ab", "\xff", "½", "\u1e9b\u0323", "\u212b", "\uf900", "\U0001d15e", "\ufdfa", "\u0344", "\u1100\u1161", "ガ", "\uff76\uff9e", "ﬃ", "ǆ", "\u0958", "\u0f73", "a\u0323\u0307", "a\u0307\u0323"}

// H_c18_tokens: sequences of tokens.
func H_c18_tokens() {
	k := sym.Choice("form", 4)
	var ts []*jargon.Token
	for i := 0; i < sym.Param("k", 2); i++ {
		ts = append(ts, jargon.NewToken(normWords[sym.Choice("token", len(normWords))], sym.Choice("lemma", 2) == 1))
	}
	checkNormalized(k, ts)
}

// H_c18_long: long tokens, many tokens.
func H_c18_long() {
	k := sym.Choice("form", 4)
	n := sym.Size("n", 1, 300, 20, 31, 64, 130)
	w := normWords[sym.Choice("word", 6)]
	last := sym.Of("last", "a1.", 1)
	if sym.Choice("kind", 2) == 0 {
		checkNormalized(k, []*jargon.Token{jargon.NewToken(repeat(w, n)+last, false), jargon.NewToken(repeat("a", n)+w, false)})
	} else {
		var ts []*jargon.Token
		for i := 0; i < n; i++ {
			ts = append(ts, jargon.NewToken("a", false))
		}
		checkNormalized(k, append(ts, jargon.NewToken(w, false), jargon.NewToken(last, false)))
	}
	sym.Cover("long")
}

// H_c18_mixed: the same tokens through filters of two forms, one after the other.
func H_c18_mixed() {
	first, second := sym.Choice("first", 4), sym.Choice("second", 4)
	w := normWords[sym.Choice("word", len(normWords))]
	ts := []*jargon.Token{jargon.NewToken(w, false), jargon.NewToken("x"+w, true)}
	checkNormalized(first, ts)
	checkNormalized(second, ts)
	checkNormalized(first, ts)
	sym.Cover("mixed")
}
