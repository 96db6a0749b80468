package main

import (
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/twitter"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c20_tokens"] = H_c20_tokens
	registry["c20_legal"] = H_c20_legal
	registry["c20_sigils"] = H_c20_sigils
	registry["c20_text"] = H_c20_text
	registry["c20_long"] = H_c20_long
	registry["c21_bytes"] = H_c21_bytes
	registry["c21_runes"] = H_c21_runes
	registry["c21_length"] = H_c21_length
	registry["c21_tokens"] = H_c21_tokens
	registry["c21_long"] = H_c21_long
}

// checkJoined: sigils are joined with a legal following token unless a word precedes; everything else is kept.
func checkJoined(f jargon.Filter, sig string, legal func(string) bool, ts []*jargon.Token) {
	got, err := drain(f(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	n := 0
	ok := true // nothing, space or punctuation precedes
	for i := 0; i < len(ts); i++ {
		t := ts[i]
		sym.Assert(n < len(got), "nothing is lost")
		if n >= len(got) {
			return
		}
		if ok && t.String() == sig && i+1 < len(ts) && legal(ts[i+1].String()) {
			i++
			sym.Assert(got[n].IsLemma() && got[n].String() == sig+ts[i].String(), "a sigil is joined with a legal following token")
			sym.Cover("joined")
		} else {
			sym.Assert(got[n] == t, "everything else comes through unchanged")
			sym.Cover("kept")
		}
		ok = got[n].IsSpace() || got[n].IsPunct()
		n++
	}
	sym.Assert(n == len(got), "nothing else is delivered")
}

// H_c20_tokens: k arbitrary tokens.
func H_c20_tokens() {
	k := sym.Param("k", 4)
	sig := []string{"@", "$"}[sym.Choice("sigil", 2)]
	which := sym.Choice("legal", 4)
	legal := func(s string) bool {
		switch which {
		case 0:
			return s == "a"
		case 1:
			return true
		case 2:
			return s != "a" && s != " "
		}
		return false
	}
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "@$a. ", 1), false))
	}
	checkJoined(sigil.NewFilter(sig, legal), sig, legal, ts)
}

// H_c20_legal: legality is an arbitrary function of the text, and it is asked the text of the following token.
func H_c20_legal() {
	k := sym.Param("k", 4)
	answers := map[byte]bool{'@': sym.Bool("@ is legal"), 'a': sym.Bool("a is legal"), ' ': sym.Bool("space is legal"), '.': sym.Bool("dot is legal")}
	legal := func(s string) bool { return answers[s[0]] }
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "@a. ", 1), sym.Choice("lemma", 2) == 1))
	}
	checkJoined(sigil.NewFilter("@", legal), "@", legal, ts)
}

// H_c20_sigils: sigils of any text.
func H_c20_sigils() {
	sig := []string{"@", "@@", "a", " ", "é", "R$"}[sym.Choice("sigil", 6)]
	legal := func(s string) bool { return s != "." }
	var ts []*jargon.Token
	for i := 0; i < sym.Param("k", 3); i++ {
		switch sym.Choice("token", 3) {
		case 0:
			ts = append(ts, jargon.NewToken(sig, false))
		case 1:
			ts = append(ts, jargon.NewToken(sym.Of("token", "@a. ", 1), false))
		default:
			ts = append(ts, jargon.NewToken(sym.Of("token", "@aR", 1)+sym.Of("token", "@a$", 1), false))
		}
	}
	checkJoined(sigil.NewFilter(sig, legal), sig, legal, ts)
}

// H_c20_text: tokenized text.
func H_c20_text() {
	legal := func(s string) bool { return s[0] >= 'a' && s[0] <= 'z' }
	checkJoined(sigil.NewFilter("@", legal), "@", legal, textTokens(sym.Of("s", "@ab. ", sym.Param("n", 4))))
}

// H_c20_long: many sigils, long texts.
func H_c20_long() {
	n := sym.Size("n", 2, 400, 5, 33, 65, 130)
	legal := func(s string) bool { return len(s) > 1 || s == "a" }
	var ts []*jargon.Token
	kind := sym.Choice("kind", 5)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			ts = append(ts, jargon.NewToken("@", false))
		case 1:
			ts = append(ts, jargon.NewToken("@", false), jargon.NewToken("a", false), jargon.NewToken(" ", false))
		case 2:
			ts = append(ts, jargon.NewToken(" ", false))
		case 3:
			ts = append(ts, jargon.NewToken("w", false), jargon.NewToken(" ", false))
		}
	}
	if kind == 4 {
		ts = append(ts, jargon.NewToken("@", false), jargon.NewToken(repeat("a", n), false))
	}
	ts = append(ts, jargon.NewToken(sym.Of("last", "@a ", 1), false), jargon.NewToken("@", false), jargon.NewToken("a", false))
	checkJoined(sigil.NewFilter("@", legal), "@", legal, ts)
	sym.Cover("long")
}

func specHandle(s string) bool {
	n := 0
	for _, r := range s {
		n++
		if n > 15 || !('A' <= r && r <= 'Z' || 'a' <= r && r <= 'z' || '0' <= r && r <= '9' || r == '_') {
			return false
		}
	}
	return true
}

func specHashtag(s string) bool {
	n := 0
	single := false
	all := true
	for _, r := range s {
		n++
		single = unicode.IsLetter(r)
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' {
			all = false
		}
	}
	if n == 1 {
		return single
	}
	return all
}

// checkTwitter: either filter on some tokens.
func checkTwitter(ts []*jargon.Token) {
	if sym.Choice("filter", 2) == 0 {
		checkJoined(twitter.Handles, "@", specHandle, ts)
	} else {
		checkJoined(twitter.Hashtags, "#", specHashtag, ts)
	}
}

func sigils() *jargon.Token { return jargon.NewToken(sym.Of("sigil", "@#", 1), false) }

// H_c21_bytes: a sigil before any token of n bytes.
func H_c21_bytes() {
	s := sym.String("s", sym.Param("n", 2))
	sym.Assume(utf8.ValidString(s))
	checkTwitter([]*jargon.Token{sigils(), jargon.NewToken(s, false)})
}

// H_c21_runes: a sigil before a token with any character in it.
func H_c21_runes() {
	r := string(sym.Rune("r"))
	s := []string{r, "a" + r, r + "1", "1" + r, r + "_", "é" + r, "ab" + r + "cd", "_éa1" + r}[sym.Choice("shape", 8)]
	checkTwitter([]*jargon.Token{sigils(), jargon.NewToken(s, false)})
}

// H_c21_length: tokens around the length limit, with an arbitrary character at either end.
func H_c21_length() {
	n := 10 + sym.Choice("length", 8)
	s := repeat([]string{"a", "Z", "_", "5", "é"}[sym.Choice("fill", 5)], n-1)
	c := sym.ASCII("c", 1)
	if sym.Choice("where", 2) == 0 {
		s = c + s
	} else {
		s += c
	}
	checkTwitter([]*jargon.Token{sigils(), jargon.NewToken(s, false)})
}

// H_c21_tokens: k arbitrary tokens.
func H_c21_tokens() {
	k := sym.Param("k", 4)
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "@#a1_. ", 1), false))
	}
	checkTwitter(ts)
}

// H_c21_long: long names.
func H_c21_long() {
	n := sym.Size("n", 1, 600, 14, 15, 16, 64, 140, 280)
	s := repeat([]string{"a", "1", "é"}[sym.Choice("fill", 3)], n) + sym.Of("last", "a1_-", 1)
	checkTwitter([]*jargon.Token{sigils(), jargon.NewToken(s, false), jargon.NewToken(" ", false), sigils(), jargon.NewToken("ab", false)})
	sym.Cover("long")
}
