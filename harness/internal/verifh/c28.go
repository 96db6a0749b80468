package main

import (
	"io"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c28_token"] = H_c28_token
	registry["c28_rune"] = H_c28_rune
	registry["c28_words"] = H_c28_words
	registry["c28_huge"] = H_c28_huge
	registry["c28_text"] = H_c28_text
	registry["c28_tokens"] = H_c28_tokens
	registry["c28_odd"] = H_c28_odd
	registry["c28_long"] = H_c28_long
	registry["c29_tokens"] = H_c29_tokens
	registry["c29_dictionary"] = H_c29_dictionary
	registry["c29_lists"] = H_c29_lists
	registry["c29_text"] = H_c29_text
}

const nProvided = nReused + 7

// provided is one of all filters and views.
func provided(k int) jargon.Filter {
	switch k - nReused {
	case 0:
		return stackoverflow.Tags
	case 1:
		return nba.CurrentPlayers
	case 2:
		return stemmer.Norwegian
	case 3:
		return stemmer.Spanish
	case 4:
		return stemmer.Swedish
	case 5:
		return norm.NFD
	case 6:
		return norm.NFKC
	}
	return reused(k)
}

// someProvided chooses a filter. The dictionaries are built before, once.
func someProvided() int {
	stackoverflow.Tags(from().stream())
	nba.CurrentPlayers(from().stream())
	if f := sym.Param("f", -1); f >= 0 {
		return f
	}
	return sym.Choice("filter", nProvided)
}

// normal tells whether a filter is one of the Unicode normal forms, whose tables are
// beyond what can be explored for any character. They get characters of a few kinds.
func normal(k int) bool { return k == 10 || k == nFilters+2 || k >= nReused+5 }

// someBytes is n arbitrary bytes.
func someBytes(k int, name string, n int) string {
	if normal(k) {
		b := ""
		for ; n > 0; n-- {
			b += []string{"a", ".", "\xc3", "\xa9", "\xcc", "\x81", "\xff"}[sym.Choice(name, 7)]
		}
		return b
	}
	return sym.String(name, n)
}

// someRune is an arbitrary character.
func someRune(k int, name string) string {
	if normal(k) {
		return []string{"a", "\u00e9", "\u0301", "\u1e9b", "\u0323", "\ufb01", "\uac00", "\u1100", "\u0344", "\u2126", "\U0001d15e", "\ufdfa"}[sym.Choice(name, 12)]
	}
	return string([]rune{sym.Rune(name)})
}

// ends reads a stream to its end, which has to come.
func ends(ts *jargon.TokenStream, most int) int {
	n := 0
	for {
		t, err := ts.Next()
		sym.Assert(err == nil, "no text is an error")
		if t == nil || err != nil {
			break
		}
		n++
		sym.Assert(n <= most, "the stream ends")
		if n > most {
			return n
		}
	}
	t, err := ts.Next()
	sym.Assert(t == nil && err == nil, "an ended stream stays ended")
	return n
}

// H_c28_token: a token of any n bytes through every filter.
func H_c28_token() {
	k := someProvided()
	n := sym.Param("n", 1)
	t := jargon.NewToken(someBytes(k, "token", n), sym.Choice("lemma", 2) == 1)
	ends(provided(k)(from(t).stream()), 4)
	sym.Cover("token")
}

// H_c28_words: a token of n characters that filters look at.
func H_c28_words() {
	k := someProvided()
	t := jargon.NewToken(sym.Of("token", "nt'es_#0", sym.Param("n", 3)), false)
	ends(provided(k)(from(t).stream()), 4)
	sym.Cover("words")
}

// H_c28_huge: a word beyond any fixed buffer through every filter.
func H_c28_huge() {
	k := someProvided()
	n := 66000
	s := "@" + repeat("abcdefgh", n/8) + sym.Of("end", "sé", 1)
	ends(provided(k)(jargon.TokenizeString(s)), 8)
	sym.Cover("huge")
}

// H_c28_rune: any character next to others through every filter.
func H_c28_rune() {
	k := someProvided()
	r := someRune(k, "character")
	s := []string{r, "a" + r, r + "s", "@" + r, "tion" + r + "s"}[sym.Choice("place", 5)]
	ends(provided(k)(jargon.TokenizeString(s)), 12)
	sym.Cover("rune")
}

// H_c28_text: any n bytes, tokenized as text or HTML, through every filter.
func H_c28_text() {
	k := someProvided()
	s := someBytes(k, "text", sym.Param("n", 1))
	var ts *jargon.TokenStream
	if sym.Choice("html", 2) == 1 {
		ts = jargon.TokenizeHTML(strings.NewReader("<b>" + s))
	} else {
		ts = jargon.TokenizeString(s + "a")
	}
	ends(provided(k)(ts), 12)
	sym.Cover("text")
}

// H_c28_tokens: k tokens through two filters in a row.
func H_c28_tokens() {
	f, g := someProvided(), sym.Choice("filter", nProvided)
	pool := []string{"a", " ", "@", "don't", "é", ".", "C#", "\xff", "ейш"}
	var ts []*jargon.Token
	for i := sym.Param("k", 2); i > 0; i-- {
		ts = append(ts, jargon.NewToken(pool[sym.Choice("token", len(pool))], false))
	}
	ends(from(ts...).stream().Filter(provided(f), provided(g)), 12)
	sym.Cover("tokens")
}

// H_c28_odd: filters made with unusual arguments.
func H_c28_odd() {
	s := sym.Of("text", "a ,@.", sym.Param("n", 2))
	var f jargon.Filter
	switch sym.Choice("filter", 12) {
	case 0:
		f = synonyms.NewFilter(nil, true, nil)
	case 1:
		f = synonyms.NewFilter(map[string]string{"": "x"}, false, nil)
	case 2:
		f = synonyms.NewFilter(map[string]string{",": "x", " ": "y", ",,a": ""}, true, []rune{',', ' ', 'a'})
	case 3:
		f = synonyms.NewFilter(map[string]string{"a": " ", ". a": "."}, true, []rune{'.', '.', 0, -1})
	case 4:
		f = synonyms.NewFilter(map[string]string{"\xff a": "\xff"}, true, []rune{0xfffd})
	case 5:
		f = stopwords.NewFilter(nil, true)
	case 6:
		f = stopwords.NewFilter([]string{"", "a", "a"}, false)
	case 7:
		f = sigil.NewFilter("", func(string) bool { return true })
	case 8:
		f = sigil.NewFilter("@a", func(string) bool { return true })
	case 9:
		f = sigil.NewFilter("a", func(s string) bool { return s == " " })
	case 10:
		f = mapper.NewFilter()
	default:
		f = mapper.NewFilter(nil...)
	}
	ends(f(jargon.TokenizeString(s)), 12)
	ends(f(jargon.TokenizeString("")), 0)
	ends(contractions.Expand(f(from().stream())), 0)
	sym.Cover("odd")
}

// H_c28_long: long tokens and many tokens.
func H_c28_long() {
	k := someProvided()
	n := sym.Size("n", 1, 600, 15, 33, 129, 260)
	switch sym.Choice("shape", 4) {
	case 0:
		t := jargon.NewToken(repeat("a", n)+sym.Of("end", "s'", 1), false)
		ends(provided(k)(from(t).stream()), 4)
	case 1:
		t := jargon.NewToken(repeat("é", n/2+1)+sym.Of("end", "s.", 1), false)
		ends(provided(k)(from(t).stream()), 4)
	case 2:
		ends(provided(k)(jargon.TokenizeString(repeat("@a ", n)+sym.Of("end", "a.", 1))), 3*n+4)
	default:
		ends(provided(k)(jargon.TokenizeString(repeat(". ", n)+sym.Of("end", "a.", 1))), 2*n+4)
	}
	sym.Cover("long")
}

// H_c29_tokens: no filter alters a token it is given or has delivered.
func H_c29_tokens() {
	k := someProvided()
	pool := []string{"a", " ", "@", "don't", "é", ".", "it", "tests"}
	var ts []*jargon.Token
	for i := sym.Param("k", 2); i > 0; i-- {
		if sym.Choice("kind", 2) == 0 {
			ts = append(ts, jargon.NewToken(pool[sym.Choice("token", len(pool))], sym.Choice("lemma", 2) == 1))
		} else {
			ts = append(ts, jargon.NewToken(sym.Of("token", "aAb@#.", 1), false))
		}
	}
	var before []snapshot
	for _, t := range ts {
		before = append(before, snap(t))
	}
	out := provided(k)(from(ts...).stream())
	for {
		t, err := out.Next()
		sym.Assert(err == nil, "no error")
		if t == nil || err != nil {
			break
		}
		before = append(before, snap(t))
		for _, b := range before {
			sym.Assert(b.unchanged(), "no token is altered")
		}
	}
	sym.Cover("tokens")
}

// H_c29_dictionary: a dictionary and the ignored characters are left alone, and may be used for other filters.
func H_c29_dictionary() {
	which := sym.Choice("dictionary", 6)
	make := func() map[string]string {
		return []map[string]string{
			{"a b": "1", "A, c": "", " b": "2"},
			{"": "1", "a": "2"},
			{",": "1", " ": "2", "a,,b ": "3"},
			{"a b c a": "a", "A": "A", "a": "a", "c": ""},
			{"a, b": " B\n", " c ,A": "1, 2", "b c": "b  c", "ca": "É"},
			{},
		}[which]
	}
	m := make()
	ignore := []rune{'-', ' ', '-', 'B'}
	ignoreCase := sym.Choice("ignore case", 2) == 1
	s := sym.Of("text", "aAbc -,", sym.Param("n", 2))
	want, err := drain(synonyms.NewFilter(make(), ignoreCase, []rune{'-', ' ', '-', 'B'})(jargon.TokenizeString(s)))
	sym.Assert(err == nil, "no error")
	for i := 0; i < 2; i++ {
		got, err := drain(synonyms.NewFilter(m, ignoreCase, ignore)(jargon.TokenizeString(s)))
		sym.Assert(err == nil && sameTokens(got, want), "a dictionary can be used again")
		keep := make()
		sym.Assert(len(m) == len(keep), "the dictionary keeps its size")
		for k, v := range keep {
			x, found := m[k]
			sym.Assert(found && x == v, "the dictionary is left alone")
		}
		sym.Assert(string(ignore) == "- -B", "the ignored characters are left alone")
	}
	sym.Cover("dictionary")
}

// H_c29_lists: stop words, functions and queued tokens are left alone.
func H_c29_lists() {
	words := []string{sym.Of("word", "aB", 1), "It", sym.Of("word", "aB", 1), "a", "The"}
	keep := append([]string{}, words...)
	f := stopwords.NewFilter(words, sym.Choice("ignore case", 2) == 1)
	s := sym.Of("text", "aAbB ", sym.Param("n", 2))
	drain(f(jargon.TokenizeString(s + " it")))
	for i := range words {
		sym.Assert(words[i] == keep[i], "the list is left alone")
	}
	calls := ""
	funcs := []func(*jargon.Token) *jargon.Token{
		func(t *jargon.Token) *jargon.Token { calls += "1"; return t },
		func(t *jargon.Token) *jargon.Token { calls += "2"; return t },
		func(t *jargon.Token) *jargon.Token { calls += "3"; return t },
	}
	drain(mapper.NewFilter(funcs[:2]...)(jargon.TokenizeString(s)))
	calls = ""
	t := jargon.NewToken("a", false)
	for _, f := range funcs {
		f(t)
	}
	sym.Assert(calls == "123", "the functions are left alone")
	fs := []jargon.Filter{stemmer.English, (*jargon.TokenStream).Words, contractions.Expand}
	a, err := drain(jargon.TokenizeString(s).Filter(fs...))
	sym.Assert(err == nil, "no error")
	b, err := drain(jargon.TokenizeString(s).Filter(fs...))
	sym.Assert(err == nil && sameTokens(a, b), "a list of filters can be used again")
	sym.Cover("lists")
}

// H_c29_text: the bytes a reader delivers and what a consumer keeps are left alone.
func H_c29_text() {
	k := someProvided()
	data := []byte("it's " + sym.Of("text", "aA@é<", 1) + " B")
	keep := string(data)
	r := &lender{data: data}
	var ts *jargon.TokenStream
	if sym.Choice("html", 2) == 1 {
		ts = jargon.TokenizeHTML(r)
	} else {
		ts = jargon.Tokenize(r)
	}
	got, err := provided(k)(ts).ToSlice()
	sym.Assert(err == nil, "no error")
	var before []snapshot
	for _, t := range got {
		before = append(before, snap(t))
	}
	again, err := provided(k)(from(got...).stream()).ToSlice()
	sym.Assert(err == nil, "no error")
	_ = again
	for _, b := range before {
		sym.Assert(b.unchanged(), "no token is altered")
	}
	sym.Assert(string(data) == keep, "the source's bytes are left alone")
	sym.Cover("text")
}

// lender delivers all its data at once and keeps it.
type lender struct {
	data []byte
	pos  int
}

func (l *lender) Read(p []byte) (int, error) {
	w := &whole{data: string(l.data[l.pos:]), err: io.EOF}
	n, err := w.Read(p)
	l.pos += n
	return n, err
}
