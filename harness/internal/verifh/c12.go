package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c12_mappers"] = H_c12_mappers
	registry["c12_views"] = H_c12_views
	registry["c12_sigil"] = H_c12_sigil
	registry["c12_contractions"] = H_c12_contractions
	registry["c12_synonyms"] = H_c12_synonyms
	registry["c12_chain"] = H_c12_chain
	registry["c12_long"] = H_c12_long
	registry["c12_longsyn"] = H_c12_longsyn
}

const nOneToOne = 15

// oneToOne is one of the filters that deliver one token per token.
func oneToOne(k int) jargon.Filter {
	switch k {
	case 0:
		return mapper.NewFilter()
	case 1:
		return mapper.NewFilter(same, same)
	case 2:
		return ascii.Fold
	case 3:
		return norm.NFC
	case 4:
		return norm.NFD
	case 5:
		return norm.NFKC
	case 6:
		return norm.NFKD
	case 7:
		return stemmer.English
	case 8:
		return stemmer.French
	case 9:
		return stemmer.Norwegian
	case 10:
		return stemmer.Russian
	case 11:
		return stemmer.Spanish
	case 12:
		return stemmer.Swedish
	case 13:
		return func(ts *jargon.TokenStream) *jargon.TokenStream {
			return ts.Where(func(*jargon.Token) bool { return true })
		}
	}
	return stopwords.NewFilter([]string{"zz"}, true)
}

// H_c12_mappers: one token read per token delivered, none before the first is asked for.
func H_c12_mappers() {
	f := oneToOne(sym.Choice("filter", nOneToOne))
	k := sym.Param("k", 2)
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken([]string{"a", " ", ".", "é", "running", "я"}[sym.Choice("token", 6)], sym.Bool("lemma")))
	}
	src := from(ts...)
	out := f(src.stream())
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	for i := 0; i < k; i++ {
		t, err := out.Next()
		sym.Assert(t != nil && err == nil, "one token per token")
		sym.Assert(src.pos == i+1, "no lookahead")
	}
	sym.Cover("mappers")
}

// H_c12_views: a view or stop-word filter reads just up to the token it delivers.
func H_c12_views() {
	k := sym.Param("k", 4)
	view := sym.Choice("view", 6)
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "abA .", 1), sym.Bool("lemma")))
	}
	src := from(ts...)
	in := src.stream()
	var out *jargon.TokenStream
	switch view {
	case 0:
		out = in.Words()
	case 1:
		out = in.Lemmas()
	case 2:
		out = in.Distinct()
	case 3:
		out = in.Where(func(t *jargon.Token) bool { return t.String() == "a" })
	case 4:
		out = stopwords.NewFilter([]string{"a", " "}, true)(in)
	default:
		out = stopwords.NewFilter([]string{"a", "."}, false)(in)
	}
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	last := 0
	for {
		t, err := out.Next()
		sym.Assert(err == nil, "no error")
		if t == nil {
			break
		}
		sym.Assert(src.pos > last && ts[src.pos-1] == t, "no token is read beyond the one delivered")
		last = src.pos
	}
	sym.Cover("views")
}

// H_c12_sigil: one token ahead.
func H_c12_sigil() {
	k := sym.Param("k", 4)
	which := sym.Choice("filter", 3)
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "@#a .", 1), false))
	}
	src := from(ts...)
	var out *jargon.TokenStream
	switch which {
	case 0:
		out = sigil.NewFilter("@", func(s string) bool { return s == "a" || s == "@" })(src.stream())
	case 1:
		out = twitter.Handles(src.stream())
	default:
		out = twitter.Hashtags(src.stream())
	}
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	covered := 0
	for {
		t, err := out.Next()
		sym.Assert(err == nil, "no error")
		if t == nil {
			break
		}
		covered++
		if t.IsLemma() {
			covered++
		}
		sym.Assert(src.pos <= covered+1, "at most one token is read ahead")
	}
	sym.Cover("sigil")
}

// H_c12_contractions: no lookahead; an expansion comes from the token read last.
func H_c12_contractions() {
	k := sym.Param("k", 3)
	var ts []*jargon.Token
	total := make([]int, k+1) // tokens delivered for the first i tokens
	for i := 0; i < k; i++ {
		c := sym.Choice("token", 4)
		ts = append(ts, jargon.NewToken([]string{"a", " ", "don't", "He’s"}[c], false))
		total[i+1] = total[i] + []int{1, 1, 3, 3}[c]
	}
	src := from(ts...)
	out := contractions.Expand(src.stream())
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	for n := 0; n < total[k]; n++ {
		t, err := out.Next()
		sym.Assert(t != nil && err == nil, "no early end")
		need := 0
		for total[need] <= n {
			need++
		}
		sym.Assert(src.pos <= need, "no lookahead")
	}
	sym.Cover("contractions")
}

// lookahead checks the synonym filter's: at every token delivered, the words read and not yet delivered or
// replaced are at most max, and with spaces at most one at a time so are the tokens. Phrases are found by the
// number of words (canonicals '1', '2', ... say how many).
func lookahead(f jargon.Filter, ts []*jargon.Token, max int) {
	words := make([]int, len(ts)+1)
	for i, t := range ts {
		words[i+1] = words[i]
		if !t.IsSpace() && !t.IsPunct() {
			words[i+1]++
		}
	}
	src := from(ts...)
	out := f(src.stream())
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	covered := 0 // words delivered or replaced
	for {
		t, err := out.Next()
		sym.Assert(err == nil, "no error")
		if t == nil {
			break
		}
		if t.IsLemma() {
			covered += int(t.String()[0] - '0')
		} else if !t.IsSpace() && !t.IsPunct() {
			covered++
		}
		sym.Assert(words[src.pos]-covered <= max, "no more words are read ahead than the longest phrase has")
	}
	sym.Assert(covered == words[len(ts)], "every word is delivered or replaced")
}

// H_c12_synonyms: k arbitrary tokens.
func H_c12_synonyms() {
	k := sym.Param("k", 5)
	var f jargon.Filter
	max := 1
	switch sym.Choice("dictionary", 5) {
	case 0:
		f = synonyms.NewFilter(map[string]string{"a": "1"}, false, nil)
	case 1:
		f, max = synonyms.NewFilter(map[string]string{"a b": "2"}, false, nil), 2
	case 2:
		f, max = synonyms.NewFilter(map[string]string{"a b c": "3", "a": "1"}, false, nil), 3
	case 3:
		f, max = synonyms.NewFilter(map[string]string{"b a": "2", "c c c": "3"}, true, []rune{'-'}), 3
	default:
		f, max = synonyms.NewFilter(map[string]string{"c": "1", "x y z w": "4"}, false, nil), 4
	}
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "abc .", 1), false))
	}
	lookahead(f, ts, max)
	sym.Cover("synonyms")
}

// H_c12_chain: a chain of filters over a reader reads no more than a block ahead.
func H_c12_chain() {
	k := sym.Choice("filter", nFilters)
	if k == 1 || k == 2 {
		return // Lemmas and Distinct may have nothing to deliver, however much they read
	}
	f := anyFilter(k)
	n := sym.Size("n", 4000, 20000, 12000)
	src := &counted{text: "a b. @a é #b don't it's running c, "}
	out := jargon.Tokenize(src).Filter(f)
	read, got := 0, 0
	for i := 0; i < 20; i++ {
		t, err := out.Next()
		sym.Assert(err == nil, "no error")
		if t == nil {
			break
		}
		got++
		read = src.total
		sym.Assert(read <= n+150000, "an endless text is delivered as it comes")
	}
	sym.Assert(got > 0, "something is delivered before the end")
	sym.Cover("chain")
}

// counted repeats text forever and counts what was read; it ends the run when far too much is read.
type counted struct {
	text  string
	total int
}

func (c *counted) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && n < 512 {
		p[n] = c.text[(c.total+n)%len(c.text)]
		n++
	}
	c.total += n
	sym.Assert(c.total < 200000, "an endless text is delivered as it comes")
	return n, nil
}

// H_c12_long: long inputs, no filter falls behind.
func H_c12_long() {
	n := sym.Size("n", 2, 600, 20, 64, 130, 260)
	var ts []*jargon.Token
	for i := 0; i < n; i++ {
		w := string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'q'})
		ts = append(ts, jargon.NewToken(w, true))
	}
	ts = append(ts, jargon.NewToken(sym.Of("last", "xyz", 1), true))
	src := from(ts...)
	in := src.stream()
	k := sym.Choice("filter", nFilters+4)
	var out *jargon.TokenStream
	slack := 0
	switch {
	case k < nFilters:
		out = anyFilter(k)(in)
		slack = 3
	case k == nFilters:
		out = in.Words().Lemmas().Distinct()
	case k == nFilters+1:
		out = oneToOne(0)(oneToOne(14)(in))
	case k == nFilters+2:
		out = stemmer.French(in)
	default:
		out = norm.NFKD(in)
	}
	for i := range ts {
		t, err := out.Next()
		sym.Assert(t != nil && err == nil, "no early end")
		sym.Assert(src.pos <= i+1+slack, "lookahead does not grow")
	}
	sym.Cover("long")
}

// H_c12_longsyn: the synonym filter over long inputs with and without phrases.
func H_c12_longsyn() {
	n := sym.Size("n", 2, 600, 20, 64, 130, 260)
	var ts []*jargon.Token
	kind := sym.Choice("input", 4)
	for i := 0; i < n; i++ {
		switch kind {
		case 0: // no phrase
			ts = append(ts, jargon.NewToken("u", false), jargon.NewToken(" ", false))
		case 1: // nothing but beginnings of the phrase
			ts = append(ts, jargon.NewToken("a", false), jargon.NewToken(" ", false))
		case 2: // nothing but phrases
			ts = append(ts, jargon.NewToken("a", false), jargon.NewToken(" ", false), jargon.NewToken("b", false), jargon.NewToken(" ", false))
		default: // words without spaces
			ts = append(ts, jargon.NewToken("u", false))
		}
	}
	ts = append(ts, jargon.NewToken(sym.Of("last", "ab .", 1), false))
	lookahead(synonyms.NewFilter(map[string]string{"a b": "2", "v w x": "3"}, false, nil), ts, 3)
	sym.Cover("long synonyms")
}
