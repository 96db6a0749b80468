package main

import (
	"bytes"
	"sync"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c26_filter"] = H_c26_filter
	registry["c26_words"] = H_c26_words
	registry["c26_three"] = H_c26_three
	registry["c26_shared"] = H_c26_shared
	registry["c26_functions"] = H_c26_functions
	registry["c26_tokens"] = H_c26_tokens
	registry["c26_unbuildable"] = H_c26_unbuildable
	registry["c26_html"] = H_c26_html
}

// together runs the functions in goroutines of their own and waits for them.
func together(fs ...func()) {
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for _, f := range fs {
		f := f
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

// consumed is what one goroutine saw.
type consumed struct {
	tokens []*jargon.Token
	err    error
}

func (c *consumed) run(f jargon.Filter, text string) {
	c.tokens, c.err = drain(f(jargon.TokenizeString(text)))
}

const c26text = "a b c it's é running "

// H_c26_filter: two goroutines make the first use of a filter value; a second round follows.
func H_c26_filter() {
	k := sym.Choice("filter", nReused)
	x := sym.Of("text", "ab @#.", 1)
	one, two := c26text+x+"a", x+"b c"
	rounds := sym.Param("rounds", 1)
	f := reused(k)
	var a, b [2]consumed
	for i := 0; i < rounds; i++ {
		together(func() { a[i].run(f, one) }, func() { b[i].run(f, two) })
	}
	var alone, alone2 consumed
	alone.run(reused(k), one)
	alone2.run(reused(k), two)
	for i := 0; i < rounds; i++ {
		sym.Assert(a[i].err == nil && b[i].err == nil, "no error")
		sym.Assert(sameTokens(a[i].tokens, alone.tokens), "the same as alone")
		sym.Assert(sameTokens(b[i].tokens, alone2.tokens), "the same as alone, in the other goroutine")
	}
	sym.Cover("filter")
}

// H_c26_three: three goroutines make the first use of a filter value.
func H_c26_three() {
	k := sym.Choice("filter", nReused)
	text := "a b" + sym.Of("text", "a@", 1) + "c"
	f := reused(k)
	var a [3]consumed
	together(func() { a[0].run(f, text) }, func() { a[1].run(f, text) }, func() { a[2].run(f, text) })
	var alone consumed
	alone.run(reused(k), text)
	for i := range a {
		sym.Assert(a[i].err == nil && sameTokens(a[i].tokens, alone.tokens), "the same as alone")
	}
	sym.Cover("three")
}

var c26words = []string{"x'", "don't", "DON'T", "It’s", "xx's", "RUNNING", "naïve", "É", "ﬁ", "日本", "e\u0301", "a.b", "1,2", "@", "#", "@a", "C++", "\t", "\n", " ", "_", "", "\xff", "international", "The", "iOS"}

// H_c26_words: two goroutines use one filter value, or values of one kind, with any word of several kinds
// (also one that was used before, as another value of its kind was).
func H_c26_words() {
	k := sym.Choice("filter", nReused)
	w := jargon.NewToken(c26words[sym.Choice("word", len(c26words))], false)
	ts := []*jargon.Token{w, jargon.NewToken("a", false), w}
	f := reused(k)
	g := f
	switch sym.Choice("values", 3) {
	case 1:
		g = reused(k)
	case 2:
		drain(reused(k)(from(ts...).stream()))
	}
	var a, b consumed
	together(
		func() { a.tokens, a.err = drain(f(from(ts...).stream())) },
		func() { b.tokens, b.err = drain(g(from(ts...).stream())) },
	)
	want, _ := drain(reused(k)(from(ts...).stream()))
	sym.Assert(a.err == nil && b.err == nil, "no error")
	sym.Assert(sameTokens(a.tokens, want), "the same as alone")
	sym.Assert(sameTokens(b.tokens, want), "the same as alone, in the other goroutine")
	sym.Cover("words")
}

const nFunctions = 14

// function calls one of the package's functions and shows the result.
func function(k int, text string) string {
	switch k {
	case 0:
		return show([]*jargon.Token{jargon.NewToken(text, false), jargon.NewToken("a", true), jargon.NewToken(".", false)})
	case 1:
		s, err := jargon.TokenizeString("a b. " + text).String()
		if err != nil {
			return "error"
		}
		return s
	case 2:
		ts, err := drain(jargon.Tokenize(&whole{data: "<p>a b. " + text, err: eof}))
		if err != nil {
			return "error"
		}
		return show(ts)
	case 3:
		var b bytes.Buffer
		n, err := jargon.TokenizeString(text + " a").Words().WriteTo(&b)
		if err != nil || n != int64(b.Len()) {
			return "error"
		}
		return b.String()
	case 4:
		n, err := jargon.TokenizeString(text + " a " + text).Distinct().Lemmas().Count()
		if err != nil || n != 0 {
			return "error"
		}
		return "none"
	case 5:
		f := synonyms.NewFilter(map[string]string{"a b": "1", text: "2"}, true, []rune{' '})
		ts, err := drain(f(jargon.TokenizeString("A b " + text)))
		if err != nil {
			return "error"
		}
		return show(ts)
	case 6:
		ts, err := drain(stopwords.NewFilter([]string{"a", text}, true)(jargon.TokenizeString("A b " + text)))
		if err != nil {
			return "error"
		}
		return show(ts)
	case 7:
		s, ok := ascii.FoldString("é" + text)
		if !ok {
			return "unfolded" + s
		}
		return s
	case 8:
		ts, err := drain(norm.NFKC(jargon.TokenizeString("ﬁ " + text)))
		if err != nil {
			return "error"
		}
		return show(ts)
	}
	// the provided filter values
	stem := []jargon.Filter{stemmer.English, stemmer.French, stemmer.Norwegian, stemmer.Russian, stemmer.Spanish, stemmer.Swedish}
	f := reused(8)
	if k == 9 {
		f = reused(12)
	}
	if k == 10 {
		f = reused(13)
	}
	if k > 10 {
		f = stem[(k-11)*2]
	}
	ts, err := drain(f(jargon.TokenizeString("it's running @a #b " + text)))
	if err != nil {
		return "error"
	}
	return show(ts)
}

// H_c26_shared: two filters made from the same dictionary and lists, at the same time.
func H_c26_shared() {
	m := map[string]string{"a b, c": " x ", "A": "y"}
	ignore := []rune{'-', ' ', 'Q'}
	words := []string{"a", "It", sym.Of("word", "aB", 1)}
	s := "a-b c. " + sym.Of("text", "aAB.", 1)
	ignoreCase := sym.Choice("ignore case", 2) == 1
	stop := sym.Choice("kind", 2) == 1
	run := func() string {
		var f jargon.Filter
		if stop {
			f = stopwords.NewFilter(words, ignoreCase)
		} else {
			f = synonyms.NewFilter(m, ignoreCase, ignore)
		}
		ts, err := drain(f(jargon.TokenizeString(s)))
		if err != nil {
			return "error"
		}
		return show(ts)
	}
	var a, b string
	together(func() { a = run() }, func() { b = run() })
	want := run()
	sym.Assert(a == want && b == want, "the same as alone")
	sym.Cover("shared")
}

// H_c26_functions: any two of the package's functions at the same time.
func H_c26_functions() {
	k, l := sym.Choice("one", nFunctions), sym.Choice("two", nFunctions)
	sym.Assume(k <= l)
	one := sym.Of("text", "ab.", 1)
	two := one + "b"
	var a, b string
	together(func() { a = function(k, one) }, func() { b = function(l, two) })
	sym.Assert(a == function(k, one), "the same as alone")
	sym.Assert(b == function(l, two), "the same as alone, in the other goroutine")
	sym.Cover("functions")
}

// H_c26_tokens: the same tokens in two streams.
func H_c26_tokens() {
	k := sym.Choice("filter", nReused)
	tokens := []*jargon.Token{
		jargon.NewToken("a", true), jargon.NewToken(" ", false), jargon.NewToken(sym.Of("token", "ab@.", 1), false),
		jargon.NewToken("b", false), jargon.NewToken("it's", false), jargon.NewToken("é", false), jargon.NewToken("running", false),
	}
	var before []snapshot
	for _, t := range tokens {
		before = append(before, snap(t))
	}
	f := reused(k)
	var a, b consumed
	together(
		func() { a.tokens, a.err = drain(f(from(tokens...).stream())) },
		func() { b.tokens, b.err = drain(f(from(tokens...).stream())) },
	)
	sym.Assert(a.err == nil && b.err == nil, "no error")
	sym.Assert(sameTokens(a.tokens, b.tokens), "both goroutines get the same")
	want, _ := drain(reused(k)(from(tokens...).stream()))
	sym.Assert(sameTokens(a.tokens, want), "the same as alone")
	for _, s := range before {
		sym.Assert(s.unchanged(), "shared tokens are unchanged")
	}
	sym.Cover("tokens")
}

// H_c26_unbuildable: concurrent first uses of a filter whose dictionary cannot be built.
func H_c26_unbuildable() {
	long := repeat("abcdefgh", 70000/8)
	_, unbuildable := jargon.TokenizeString(long).Count()
	f := synonyms.NewFilter(map[string]string{long: "x", "b": "y"}, true, []rune{' '})
	text := "b"
	var a, b consumed
	together(func() { a.run(f, text) }, func() { b.run(f, text) })
	if unbuildable == nil {
		sym.Assert(a.err == nil && b.err == nil && concat(a.tokens) == "y" && concat(b.tokens) == "y", "both get their output")
	} else {
		sym.Assert(a.err != nil && b.err != nil, "both report the error")
	}
	sym.Cover("unbuildable")
}

// H_c26_html: HTML tokenizing in two goroutines.
func H_c26_html() {
	docs := []string{"<p>a b</p>", "<script>a</script>b", "a<!-- c -->&amp;b", "<style>a</style><br/>b"}
	k, l := sym.Choice("one", len(docs)), sym.Choice("two", len(docs))
	x := sym.Of("text", "ab<", 1)
	one, two := docs[k]+x, x+docs[l]
	html := func(s string) consumed {
		var c consumed
		c.tokens, c.err = drain(jargon.TokenizeHTML(&whole{data: s, err: eof}))
		return c
	}
	var a, b consumed
	together(func() { a = html(one) }, func() { b = html(two) })
	sym.Assert(a.err == nil && b.err == nil, "no error")
	sym.Assert(sameTokens(a.tokens, html(one).tokens), "the same as alone")
	sym.Assert(sameTokens(b.tokens, html(two).tokens), "the same as alone, in the other goroutine")
	sym.Cover("html")
}
