package main

import (
	"unicode"
	"unicode/utf8"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c25_tags"] = H_c25_tags
	registry["c25_players"] = H_c25_players
	registry["c25_context"] = H_c25_context
}

// spelling is a term with every letter in either case and any inner spaces removed.
func spelling(term string) string {
	var b []byte
	for _, r := range term {
		if r == ' ' {
			if sym.Choice("space", 2) == 0 {
				b = append(b, ' ')
			}
			continue
		}
		lo, up := unicode.ToLower(r), unicode.ToUpper(r)
		if lo == up || unicode.ToLower(up) != lo || unicode.ToUpper(lo) != up {
			b = append(b, string(r)...)
			continue
		}
		l, u := string(lo), string(up)
		if utf8.RuneLen(lo) != utf8.RuneLen(up) {
			if sym.Choice("case", 2) == 0 {
				b = append(b, l...)
			} else {
				b = append(b, u...)
			}
			continue
		}
		differ := 0
		for i := range []byte(l) {
			if l[i] != u[i] {
				differ++
			}
		}
		if differ > 1 {
			if sym.Choice("case", 2) == 1 {
				l = u
			}
			b = append(b, l...)
			continue
		}
		for i := range []byte(l) {
			if l[i] == u[i] {
				b = append(b, l[i])
			} else {
				b = append(b, sym.ByteOf("letter", string([]byte{l[i], u[i]})))
			}
		}
	}
	return string(b)
}

func leading(term string) int {
	n := 0
	for n < len(term) && term[n] == '.' {
		n++
	}
	return n
}

// recognized checks one of the dictionary's terms, chosen from a part of it.
func recognized(f jargon.Filter, dict []dictEntry, before, after string) {
	parts, part := sym.Param("parts", 1), sym.Param("part", 0)
	drain(f(jargon.TokenizeString("warm up")))
	lo, hi := len(dict)*part/parts, len(dict)*(part+1)/parts
	e := dict[lo+sym.Choice("term", hi-lo)]
	s := spelling(e.term)
	got, err := drain(f(jargon.TokenizeString(before + s + after)))
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	k := len(before) + leading(e.term)
	sym.Assert(len(got) == k+1+len(after), "the term is recognized as one: "+e.term)
	sym.Assert(got[k].IsLemma() && got[k].String() == e.canonical, "the term is replaced by its canonical term: "+e.term)
	for i, t := range got {
		if i != k {
			sym.Assert(!t.IsLemma(), "nothing else is replaced")
		}
	}
	sym.Cover("recognized")
}

// H_c25_tags: Stack Overflow tags and synonyms.
func H_c25_tags() { recognized(stackoverflow.Tags, dictTags, "", "") }

// H_c25_players: NBA players.
func H_c25_players() { recognized(nba.CurrentPlayers, dictPlayers, "", "") }

// H_c25_context: terms between other tokens.
func H_c25_context() {
	before := []string{"(", "; ", ")\n"}[sym.Choice("before", 3)]
	after := []string{")", "; ", "\n\n"}[sym.Choice("after", 3)]
	if sym.Param("players", 0) == 1 {
		recognized(nba.CurrentPlayers, dictPlayers, before, after)
	} else {
		recognized(stackoverflow.Tags, dictTags, before, after)
	}
}
