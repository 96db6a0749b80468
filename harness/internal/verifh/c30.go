package main

import (
	"strings"
	"unicode"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c30_ascii"] = H_c30_ascii
	registry["c30_joins"] = H_c30_joins
	registry["c30_kinds"] = H_c30_kinds
	registry["c30_middles"] = H_c30_middles
	registry["c30_letters"] = H_c30_letters
	registry["c30_marks"] = H_c30_marks
	registry["c30_alone"] = H_c30_alone
	registry["c30_long"] = H_c30_long
}

// Kinds of characters, after Unicode Standard Annex 29, table 3.
const (
	kOther = iota
	kCR
	kLF
	kNewline
	kSpace
	kLetter
	kHebrew
	kNumber
	kKatakana
	kJoiner // ExtendNumLet
	kSingleQuote
	kDoubleQuote
	kMidLetter
	kMidNumLet
	kMidNum
	kMark // Extend, Format, ZWJ
	kFlag // Regional_Indicator
)

// kindOfASCII gives the kind of an ASCII character.
func kindOfASCII(b byte) int {
	switch {
	case 'a' <= b && b <= 'z', 'A' <= b && b <= 'Z':
		return kLetter
	case '0' <= b && b <= '9':
		return kNumber
	}
	switch b {
	case '\r':
		return kCR
	case '\n':
		return kLF
	case '\v', '\f':
		return kNewline
	case ' ':
		return kSpace
	case '_':
		return kJoiner
	case '\'':
		return kSingleQuote
	case '"':
		return kDoubleQuote
	case ':':
		return kMidLetter
	case '.':
		return kMidNumLet
	case ',', ';':
		return kMidNum
	}
	return kOther
}

func line(k int) bool   { return k == kCR || k == kLF || k == kNewline }
func letter(k int) bool { return k == kLetter || k == kHebrew }
func wordish(k int) bool {
	return letter(k) || k == kNumber || k == kKatakana
}
func midLetter(k int) bool { return k == kMidLetter || k == kMidNumLet || k == kSingleQuote }
func midNumber(k int) bool { return k == kMidNum || k == kMidNumLet || k == kSingleQuote }

// breaks tells whether there is a word boundary before character i, rule by rule.
func breaks(kinds []int, i int) bool {
	last, cur := kinds[i-1], kinds[i]
	switch {
	case last == kCR && cur == kLF: // WB3
		return false
	case line(last) || line(cur): // WB3a, b
		return true
	case last == kSpace && cur == kSpace: // WB3d
		return false
	case cur == kMark: // WB4
		return false
	}
	// WB4: marks after something are as good as not there
	p := i - 1
	for p > 0 && kinds[p] == kMark && !line(kinds[p-1]) {
		p--
	}
	last = kinds[p]
	before := kOther
	q := p - 1
	for q > 0 && kinds[q] == kMark && !line(kinds[q-1]) {
		q--
	}
	if q >= 0 {
		before = kinds[q]
	}
	after := kOther
	for n := i + 1; n < len(kinds); n++ {
		if kinds[n] != kMark {
			after = kinds[n]
			break
		}
	}
	switch {
	case (letter(last) || last == kNumber) && (letter(cur) || cur == kNumber): // WB5, 8, 9, 10
		return false
	case letter(last) && midLetter(cur) && letter(after): // WB6
		return false
	case letter(before) && midLetter(last) && letter(cur): // WB7
		return false
	case last == kHebrew && cur == kSingleQuote: // WB7a
		return false
	case last == kHebrew && cur == kDoubleQuote && after == kHebrew: // WB7b
		return false
	case before == kHebrew && last == kDoubleQuote && cur == kHebrew: // WB7c
		return false
	case before == kNumber && midNumber(last) && cur == kNumber: // WB11
		return false
	case last == kNumber && midNumber(cur) && after == kNumber: // WB12
		return false
	case last == kKatakana && cur == kKatakana: // WB13
		return false
	case (wordish(last) || last == kJoiner) && cur == kJoiner: // WB13a
		return false
	case last == kJoiner && wordish(cur): // WB13b
		return false
	case last == kFlag && cur == kFlag: // WB15, 16
		flags := 0
		for j := p; j >= 0; j-- {
			if kinds[j] == kMark && j > 0 {
				continue
			}
			if kinds[j] != kFlag {
				break
			}
			flags++
		}
		return flags%2 == 0
	}
	return true
}

// divided gives the words of the characters.
func divided(chars []string, kinds []int) []string {
	var words []string
	for i, c := range chars {
		if i == 0 || breaks(kinds, i) {
			words = append(words, c)
		} else {
			words[len(words)-1] += c
		}
	}
	return words
}

// divides checks the tokens of a text.
func divides(chars []string, kinds []int) {
	want := divided(chars, kinds)
	var ts *jargon.TokenStream
	if s := strings.Join(chars, ""); sym.Param("reader", 0) == 1 {
		ts = jargon.Tokenize(&whole{data: s, err: eof})
	} else {
		ts = jargon.TokenizeString(s)
	}
	got, err := drain(ts)
	sym.Assert(err == nil, "no error")
	sym.Observe(show(got))
	sym.Assert(len(got) == len(want), "as many tokens as there are words")
	if len(got) == len(want) {
		for i := range want {
			sym.Assert(got[i].String() == want[i], "each token is a word")
		}
	}
	sym.Cover("divided")
}

func ofBytes(s string) ([]string, []int) {
	var chars []string
	var kinds []int
	for i := 0; i < len(s); i++ {
		chars = append(chars, s[i:i+1])
		kinds = append(kinds, kindOfASCII(s[i]))
	}
	return chars, kinds
}

// H_c30_ascii: any n ASCII characters.
func H_c30_ascii() {
	s := sym.String("text", sym.Param("n", 2))
	for i := 0; i < len(s); i++ {
		sym.Assume(s[i] < 0x80)
	}
	divides(ofBytes(s))
}

// H_c30_joins: n characters that join others.
func H_c30_joins() { divides(ofBytes(sym.Of("text", "ab12.',:_\" \r\n-", sym.Param("n", 4)))) }

var (
	kindChars = []string{"a", "1", "é", "\u0301", "\u2019", "א", "\"", "'", "٣", "カ", "漢", "\U0001F1FA", "\u00a0", "\u2003", ".", "_", "\r", "\u2028", "\u00ad", "\u200d"}
	kindKinds = []int{kLetter, kNumber, kLetter, kMark, kMidNumLet, kHebrew, kDoubleQuote, kSingleQuote, kNumber, kKatakana, kOther, kFlag, kOther, kSpace, kMidNumLet, kJoiner, kCR, kNewline, kMark, kMark}
)

// H_c30_kinds: k characters of all kinds.
func H_c30_kinds() {
	var chars []string
	var kinds []int
	for k := sym.Param("k", 2); k > 0; k-- {
		i := sym.Choice("character", len(kindChars))
		chars = append(chars, kindChars[i])
		kinds = append(kinds, kindKinds[i])
	}
	divides(chars, kinds)
}

var (
	middles = []struct {
		char string
		kind int
	}{
		{":", kMidLetter}, {"\u00b7", kMidLetter}, {"\u0387", kMidLetter}, {"\u055f", kMidLetter}, {"\u05f4", kMidLetter}, {"\u2027", kMidLetter}, {"\ufe13", kMidLetter}, {"\ufe55", kMidLetter}, {"\uff1a", kMidLetter},
		{".", kMidNumLet}, {"\u2018", kMidNumLet}, {"\u2019", kMidNumLet}, {"\u2024", kMidNumLet}, {"\ufe52", kMidNumLet}, {"\uff07", kMidNumLet}, {"\uff0e", kMidNumLet},
		{",", kMidNum}, {";", kMidNum}, {"\u037e", kMidNum}, {"\u0589", kMidNum}, {"\u060c", kMidNum}, {"\u066c", kMidNum}, {"\u07f8", kMidNum}, {"\u2044", kMidNum}, {"\ufe10", kMidNum}, {"\ufe14", kMidNum}, {"\ufe50", kMidNum}, {"\uff0c", kMidNum}, {"\uff1b", kMidNum},
		{"_", kJoiner}, {"\u203f", kJoiner}, {"\u2040", kJoiner}, {"\u2054", kJoiner}, {"\ufe33", kJoiner}, {"\uff3f", kJoiner}, {"\u202f", kJoiner},
		{"'", kSingleQuote}, {"\"", kDoubleQuote}, {"-", kOther}, {"/", kOther}, {"\u2010", kOther}, {"\u3001", kOther}, {"\u200b", kOther}, {"@", kOther}, {"\u00a0", kOther},
	}
	besides = [][2]string{{"abcd", "l"}, {"1234", "n"}, {"٣٣٣", "n"}, {"אבג", "h"}, {"яяя", "l"}, {"カカ", "k"}, {"漢", "o"}, {"한글", "l"}}
)

// H_c30_middles: every character that joins letters, digits or both, between words and numbers.
func H_c30_middles() {
	var chars []string
	var kinds []int
	add := func(w [2]string) {
		for _, r := range w[0] {
			chars = append(chars, string(r))
			kinds = append(kinds, map[string]int{"l": kLetter, "n": kNumber, "h": kHebrew, "k": kKatakana, "o": kOther}[w[1]])
		}
	}
	add(besides[sym.Choice("before", len(besides))])
	m := middles[sym.Choice("middle", len(middles))]
	for i := sym.Choice("more", 2); i >= 0; i-- {
		chars, kinds = append(chars, m.char), append(kinds, m.kind)
	}
	add(besides[sym.Choice("after", len(besides))])
	divides(chars, kinds)
	sym.Cover("middles")
}

// recent tells whether a character is one that Unicode 13 does not have.
func recent(r rune) bool {
	return r >= 0x870 && r <= 0x89f || r == 0x8b5 || r >= 0x8c8 && r <= 0x8d2 || r == 0xc3c || r == 0xece || r == 0x180f ||
		r >= 0x1ac1 && r <= 0x1aff || r == 0x1c89 || r == 0x1c8a || r == 0x1dfa
}

// H_c30_letters: any letter of an alphabet, any digit, in words.
func H_c30_letters() {
	r := sym.Rune("r")
	sym.Assume(r < 0x3000 && !recent(r))
	sym.Assume(unicode.IsLetter(r) && unicode.In(r, unicode.Latin, unicode.Greek, unicode.Cyrillic, unicode.Armenian, unicode.Arabic, unicode.Georgian, unicode.Devanagari, unicode.Cherokee, unicode.Ethiopic))
	c := string(r)
	text := []string{c, "a" + c, c + "1", "x" + c + "_" + c, "a." + c + "'a", c + "\u0301" + c}[sym.Choice("word", 6)]
	got, err := drain(jargon.TokenizeString(" " + text + " "))
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == 3 && got[1].String() == text, "letters and what joins them stay together")
	sym.Cover("letters")
}

// H_c30_marks: any combining mark stays with what it follows.
func H_c30_marks() {
	r := sym.Rune("r")
	sym.Assume(r < 0x3000 && !recent(r))
	sym.Assume(unicode.In(r, unicode.Mn, unicode.Me))
	before := []string{"a", "1", "-", "é", "漢", " ", "."}[sym.Choice("before", 7)]
	got, err := drain(jargon.TokenizeString(before + string(r)))
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == 1, "a combining mark stays with what it follows")
	sym.Cover("marks")
}

// H_c30_alone: punctuation and symbols are tokens of their own.
func H_c30_alone() {
	r := sym.Rune("r")
	sym.Assume(unicode.In(r, unicode.Ps, unicode.Pe, unicode.Sc, unicode.Sm, unicode.Pi, unicode.Pf) && r != '\u2018' && r != '\u2019' && r != '\u2044')
	c := string(r)
	around := [][2]string{{"a", "b"}, {"1", "2"}, {" ", " "}, {c, "."}, {"א", "א"}}[sym.Choice("around", 5)]
	got, err := drain(jargon.TokenizeString(around[0] + c + around[1]))
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) == 3 && got[1].String() == c, "every other character is a token of its own")
	sym.Cover("alone")
}

// H_c30_long: long words of several makes, and what ends them.
func H_c30_long() {
	n := sym.Size("n", 1, 9000, 64, 255, 4095, 4096)
	w := repeat([]string{"a", "1", "_", " ", "a.", "1,", "é", "a\u0301"}[sym.Choice("of", 8)], n)
	end := sym.Of("end", "a1 .\n", 2)
	got, err := drain(jargon.TokenizeString("(" + w + ")" + end))
	sym.Assert(err == nil, "no error")
	sym.Assert(len(got) >= 3 && got[0].String() == "(", "punctuation is a token")
	last := got[1].String()
	if strings.HasSuffix(w, ".") || strings.HasSuffix(w, ",") {
		last += got[2].String()
		sym.Assert(len(got[2].String()) == 1, "trailing punctuation is a token")
	}
	sym.Assert(last == w, "a word of any length is one token")
	sym.Cover("long")
}
