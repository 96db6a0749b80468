package main

import (
	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c27_chunks"] = H_c27_chunks
	registry["c27_bytes"] = H_c27_bytes
	registry["c27_runes"] = H_c27_runes
	registry["c27_html"] = H_c27_html
	registry["c27_place"] = H_c27_place
	registry["c27_where"] = H_c27_where
}

func delivered(s string, html, pieces bool) []*jargon.Token {
	var ts *jargon.TokenStream
	switch {
	case html && pieces:
		ts = jargon.TokenizeHTML(&chunks{data: s, max: 8})
	case html:
		ts = jargon.TokenizeHTML(&whole{data: s, err: eof})
	case pieces:
		ts = jargon.Tokenize(&chunks{data: s, max: 8})
	default:
		ts = jargon.TokenizeString(s)
	}
	got, err := drain(ts)
	sym.Assert(err == nil, "no error")
	return got
}

func alike(s string, html bool) {
	want := delivered(s, html, false)
	got := delivered(s, html, true)
	sym.Observe(show(got))
	sym.Assert(sameTokens(got, want), "the tokens do not depend on the pieces")
	sym.Cover("alike")
}

// H_c27_chunks: characters that make word-break rules interact, in any pieces.
func H_c27_chunks() { alike(sym.Of("s", "a1.'\n\" ", sym.Param("n", 3)), false) }

// H_c27_bytes: any bytes, in any pieces.
func H_c27_bytes() { alike(sym.String("s", sym.Param("n", 2)), false) }

// H_c27_runes: any character before, after or between word characters and what may join them.
func H_c27_runes() {
	r := string(sym.Rune("r"))
	s := []string{"a" + r + "b", "1" + r + "2", "a'" + r + "b", "1." + r + "2", "a" + r + "'b", "א\"" + r + "א"}[sym.Param("form", 0)]
	want := delivered(s, false, false)
	p := &pieces{}
	for i := range []byte(s) {
		p.rest = append(p.rest, s[i:i+1])
	}
	got, err := drain(jargon.Tokenize(p))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(got, want), "the tokens do not depend on the pieces")
	sym.Cover("runes")
}

// H_c27_html: HTML in any pieces.
func H_c27_html() {
	s := sym.Of("s", "a<>/&;'", sym.Param("n", 2))
	alike([]string{"", "<b", "it", "<!--", "&am"}[sym.Choice("before", 5)]+s+[]string{"", "p;'s", "-->", " c>d'e"}[sym.Choice("after", 4)], true)
}

// H_c27_place: a text after a line that fills buffers to about their size.
func H_c27_place() {
	n := sym.Size("n", 8, 9000, 100, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 8188, 8190, 8192)
	s := []string{"don't", "1,234.5", "e.g. x", "a\u0301'\u0301b", "it's <b>"}[sym.Choice("text", 5)] + sym.Of("s", "a1.' ", sym.Param("n", 1))
	fill := repeat([]string{"ab ", "abcdefg "}[sym.Choice("fill", 2)], n/3+1)[:n-1] + "\n"
	want := delivered(s, false, false)
	var got []*jargon.Token
	if sym.Choice("html", 2) == 1 {
		sym.Assume(len(s) < 7) // no markup
		got = delivered(fill+s, true, false)
	} else {
		got = delivered(fill+s, false, false)
	}
	sym.Assert(len(got) > len(want), "the tokens of the text follow those of the line")
	k := len(got) - len(want)
	sym.Assert(concat(got[:k]) == fill, "the line ends where it ends")
	sym.Assert(sameTokens(got[k:], want), "the tokens of the text are those of the text alone")
	sym.Cover("place")
}

// H_c27_where: one break between two pieces, anywhere in a longer text.
func H_c27_where() {
	s := "It's 1,234.5 a.b\u00b7c \u05d0\"\u05d0 e\u0301'\u0301f \r\n\U0001F1FA\U0001F1F8\U0001F468\u200d\U0001F469 " + sym.Of("s", "a1.' ", sym.Param("n", 1))
	k := sym.Choice("where", len(s)-1) + 1
	want := delivered(s, false, false)
	got, err := drain(jargon.Tokenize(&pieces{[]string{s[:k], s[k:]}}))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(got, want), "the tokens do not depend on the pieces")
	sym.Cover("where")
}

// pieces is a reader that delivers the given pieces.
type pieces struct{ rest []string }

func (p *pieces) Read(b []byte) (int, error) {
	if len(p.rest) == 0 {
		return 0, eof
	}
	n := copy(b, p.rest[0])
	if p.rest[0] = p.rest[0][n:]; p.rest[0] == "" {
		p.rest = p.rest[1:]
	}
	return n, nil
}
