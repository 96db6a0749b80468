package main

import (
	"bufio"
	"bytes"
	"io"
	"strings"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c01_string"] = H_c01_string
	registry["c01_chunks"] = H_c01_chunks
	registry["c01_classes"] = H_c01_classes
	registry["c01_runes"] = H_c01_runes
	registry["c01_long"] = H_c01_long
	registry["c01_word"] = H_c01_word
	registry["c01_similar"] = H_c01_similar
	registry["c01_many"] = H_c01_many
	registry["c01_kinds"] = H_c01_kinds
	registry["c01_huge"] = H_c01_huge
}

// lossless drains ts, checking that it delivers s and that tokens never change.
func lossless(ts *jargon.TokenStream, s string) {
	var seen []snapshot
	out := ""
	for {
		t, err := ts.Next()
		sym.Assert(err == nil, "tokenizing ends without error")
		if err != nil {
			return
		}
		if t == nil {
			break
		}
		sym.Assert(len(t.String()) > 0, "tokens are not empty")
		sym.Assert(!t.IsLemma(), "tokens are not lemmas")
		seen = append(seen, snap(t))
		out += t.String()
	}
	sym.Observe(out)
	sym.Assert(out == s, "the tokens concatenate to the input")
	for _, x := range seen {
		sym.Assert(x.unchanged(), "delivered tokens do not change")
	}
	t, err := ts.Next()
	sym.Assert(t == nil && err == nil, "the stream stays ended")
	if len(seen) > 1 {
		sym.Cover("several tokens")
	}
	sym.Cover("done")
}

// H_c01_string: any string of n bytes.
func H_c01_string() {
	s := sym.String("s", sym.Param("n", 2))
	lossless(jargon.TokenizeString(s), s)
}

// H_c01_chunks: any string of n bytes, delivered in any pieces.
func H_c01_chunks() {
	s := sym.String("s", sym.Param("n", 2))
	lossless(jargon.Tokenize(&chunks{data: s, max: 8, empty: 1}), s)
}

// H_c01_classes: longer strings over characters that make word-break rules interact.
func H_c01_classes() {
	s := sym.Of("s", "a1 .'\n", sym.Param("n", 4))
	if sym.Choice("reader", 2) == 0 {
		lossless(jargon.TokenizeString(s), s)
	} else {
		lossless(jargon.Tokenize(strings.NewReader(s)), s)
	}
}

// H_c01_runes: any sequence of n Unicode characters.
func H_c01_runes() {
	s := ""
	for i := sym.Param("n", 1); i > 0; i-- {
		s += string(sym.Rune("r"))
	}
	lossless(jargon.TokenizeString(s), s)
}

// H_c01_long: texts around sizes that matter to buffers, with arbitrary ends.
func H_c01_long() {
	n := sym.Size("n", 8, 9000, 100, 4094, 4095, 4096, 8192)
	fill := []string{"ab ", "abcdefg", "é, ", "\xff."}[sym.Choice("fill", 4)]
	s := repeat(fill, n/len(fill))
	s = s[:len(s)-1] + sym.String("s", sym.Param("n", 2))
	if sym.Choice("pieces", 2) == 0 {
		lossless(jargon.TokenizeString(s), s)
	} else {
		lossless(jargon.Tokenize(&whole{data: s, err: eof}), s)
	}
}

// H_c01_word: one long word, or run of spaces, with an arbitrary character inside.
func H_c01_word() {
	n := sym.Size("n", 1, 9000, 15, 255, 4095)
	fill := []string{"a", " ", "é"}[sym.Choice("fill", 3)]
	s := repeat(fill, n/len(fill)) + string(sym.Rune("r")) + repeat(fill, sym.Param("tail", 3)) + "b"
	lossless(jargon.TokenizeString(s), s)
	sym.Cover("word")
}

// H_c01_huge: words beyond any fixed buffer.
func H_c01_huge() {
	n := []int{65530, 70000}[sym.Choice("n", 2)]
	fill := []string{"abcdefgh", "        ", "1"}[sym.Choice("fill", 3)]
	s := "a " + repeat(fill, n/len(fill)+1) + sym.Of("end", ".a' ", 1)
	if sym.Choice("pieces", 2) == 0 {
		lossless(jargon.TokenizeString(s), s)
	} else {
		lossless(jargon.TokenizeHTML(&whole{data: s, err: eof}), s)
	}
	sym.Cover("huge")
}

// similar is two words of about n letters that differ in at most one arbitrary character.
func similar(n int, set string) (string, string) {
	w := repeat("abcdefgh", n/8+1)[:n]
	at := []int{0, n / 2, n - 1}[sym.Choice("place", 3)]
	return w, w[:at] + sym.Of("differs", set, 1) + w[at+1:]
}

// H_c01_similar: words that differ in one character only.
func H_c01_similar() {
	n := sym.Size("n", 1, 300, 3, 7, 12, 33)
	v, w := similar(n, "abzA1'.-\n")
	s := v + " " + w + "  " + v + "\r\n" + w
	lossless(jargon.TokenizeString(s), s)
	sym.Cover("similar")
}

var manyKinds = []string{"ab", "  ", ".", "\r\n", "\n", "\r", "é", "\xff", "1,2", "\t", "a'b", "\u00a0", "日", "\x00", "\ufeff", " ", "🇺🇸", "🇬🇸", "👩🏽", "👨🏽", "한국", "กข", "カナ"}

// H_c01_many: n tokens, then arbitrary ones.
func H_c01_many() {
	n := sym.Size("n", 1, 600, 9, 33)
	s := repeat("a.", n/2)
	if n%2 == 1 {
		s += "a"
	}
	if sym.Choice("kinds", 2) == 1 {
		s = ""
		for i := 0; i < n; i++ {
			s += manyKinds[i%len(manyKinds)]
		}
	}
	for i := 0; i < 2; i++ {
		s += manyKinds[sym.Choice("kind", len(manyKinds))]
	}
	lossless(jargon.TokenizeString(s), s)
	sym.Cover("many")
}

// able is a reader that can do more than read, with some of its data read before.
type able struct {
	data  string
	pos   int
	delay int // bytes not there yet when asked for the length
}

func (a *able) Read(p []byte) (int, error) {
	if a.pos == len(a.data) {
		return 0, io.EOF
	}
	n := copy(p, a.data[a.pos:])
	a.pos += n
	a.delay = 0
	return n, nil
}

func (a *able) Seek(offset int64, whence int) (int64, error) {
	n := int(offset)
	switch whence {
	case io.SeekCurrent:
		n += a.pos
	case io.SeekEnd:
		n += len(a.data)
	}
	a.pos = n
	return int64(n), nil
}

func (a *able) Len() int {
	n := len(a.data) - a.pos - a.delay
	if n < 0 {
		return 0
	}
	return n
}

func (a *able) ReadByte() (byte, error) {
	var p [1]byte
	_, err := a.Read(p[:])
	return p[0], err
}

func (a *able) UnreadByte() error {
	a.pos--
	return nil
}

func (a *able) Close() error {
	a.pos = len(a.data)
	return nil
}

// aReader is a reader of s of some kind, from which something else was read before.
func aReader(s string) io.Reader {
	before := []string{"", "x", "<b> "}[sym.Choice("read before", 3)]
	var r io.Reader
	switch sym.Choice("reader", 7) {
	case 0:
		r = strings.NewReader(before + s)
	case 1:
		r = bytes.NewReader([]byte(before + s))
	case 2:
		r = bytes.NewBufferString(before + s)
	case 3:
		r = bufio.NewReader(strings.NewReader(before + s))
	case 4:
		r = &able{data: before + s, delay: sym.Choice("delay", 3)}
	case 5:
		r = io.LimitReader(strings.NewReader(before+s+"more"), int64(len(before)+len(s)))
	default:
		r = io.MultiReader(strings.NewReader(before), strings.NewReader(s[:len(s)/2]), &able{data: s[len(s)/2:]})
	}
	for n := 0; n < len(before); {
		p := make([]byte, len(before)-n)
		m, err := r.Read(p)
		sym.Assert(err == nil, "no error")
		n += m
	}
	return r
}

// H_c01_kinds: readers of all kinds, read from before.
func H_c01_kinds() {
	s := []string{"", "it's ", "ab\r\n"}[sym.Choice("text", 3)] + sym.Of("s", "a. \xef", sym.Param("n", 1))
	lossless(jargon.Tokenize(aReader(s)), s)
	sym.Cover("kinds")
}
