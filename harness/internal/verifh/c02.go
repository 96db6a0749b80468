package main

import (
	"io"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

var eof = io.EOF

func init() {
	registry["c02_new"] = H_c02_new
	registry["c02_ascii"] = H_c02_ascii
	registry["c02_runes"] = H_c02_runes
	registry["c02_stream"] = H_c02_stream
	registry["c02_long"] = H_c02_long
}

func flagsRight(t *jargon.Token, s string, lemma bool) {
	if s == "" {
		sym.Assert(t == nil, "empty text makes no token")
		sym.Cover("empty")
		return
	}
	sym.Assert(t != nil, "non-empty text makes a token")
	if t == nil {
		return
	}
	sym.Assert(t.String() == s, "a token reports its text")
	sym.Assert(t.IsLemma() == lemma, "a token reports the lemma flag it was made with")
	sp, pu := specSpace(s), specPunct(s)
	sym.Assert(t.IsSpace() == sp, "space if and only if all characters are white space")
	sym.Assert(t.IsPunct() == pu, "punctuation if and only if all characters are punctuation or line breaks or tab")
	if sp {
		sym.Cover("space")
	}
	if pu {
		sym.Cover("punct")
	}
	if !sp && !pu {
		sym.Cover("word")
	}
	sym.Observe(show([]*jargon.Token{t}))
}

// H_c02_new: any text of n bytes.
func H_c02_new() {
	s := sym.String("s", sym.Param("n", 2))
	lemma := sym.Bool("lemma")
	flagsRight(jargon.NewToken(s, lemma), s, lemma)
}

// H_c02_ascii: any ASCII text of n bytes; making a token twice gives the same.
func H_c02_ascii() {
	s := sym.ASCII("s", sym.Param("n", 4))
	lemma := sym.Bool("lemma")
	t := jargon.NewToken(s, !lemma)
	flagsRight(jargon.NewToken(s, lemma), s, lemma)
	flagsRight(t, s, !lemma)
}

// H_c02_runes: any text of n Unicode characters.
func H_c02_runes() {
	s := ""
	for i := sym.Param("n", 1); i > 0; i-- {
		s += string(sym.Rune("r"))
	}
	lemma := sym.Bool("lemma")
	flagsRight(jargon.NewToken(s, lemma), s, lemma)
}

// H_c02_stream: the tokens of any text of n bytes.
func H_c02_stream() {
	s := sym.String("s", sym.Param("n", 2))
	ts, err := drain(jargon.TokenizeString(s))
	sym.Assert(err == nil, "no error")
	for _, t := range ts {
		flagsRight(t, t.String(), false)
	}
	sym.Cover("stream")
}

// H_c02_long: long texts of one character with one arbitrary byte somewhere.
func H_c02_long() {
	n := sym.Size("n", 2, 600, 3, 17, 33, 64, 128, 256)
	fill := []string{" ", ".", "a", "\n", "\u2003", "é"}[sym.Choice("fill", 6)]
	a := repeat(fill, n)
	b := sym.ASCII("s", 1)
	s := ""
	switch sym.Choice("where", 3) {
	case 0:
		s = b + a
	case 1:
		s = a + b
	default:
		s = a + b + a
	}
	lemma := sym.Bool("lemma")
	flagsRight(jargon.NewToken(s, lemma), s, lemma)
}
