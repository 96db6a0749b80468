package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"strings"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/twitter"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
	"golang.org/x/net/html"
)

func init() {
	registry["c05_text"] = H_c05_text
	registry["c05_html"] = H_c05_html
	registry["c05_filters"] = H_c05_filters
	registry["c05_pipeline"] = H_c05_pipeline
	registry["c05_toolong"] = H_c05_toolong
	registry["c05_long"] = H_c05_long
	registry["c05_kinds"] = H_c05_kinds
}

func same(t *jargon.Token) *jargon.Token { return t }

const nFilters = 14

// anyFilter is one of the provided filters and views.
func anyFilter(k int) jargon.Filter {
	switch k {
	case 0:
		return (*jargon.TokenStream).Words
	case 1:
		return (*jargon.TokenStream).Lemmas
	case 2:
		return (*jargon.TokenStream).Distinct
	case 3:
		return func(ts *jargon.TokenStream) *jargon.TokenStream {
			return ts.Where(func(t *jargon.Token) bool { return t.String() != "b" })
		}
	case 4:
		return mapper.NewFilter(same)
	case 5:
		return stopwords.NewFilter([]string{"a", "It"}, true)
	case 6:
		return synonyms.NewFilter(map[string]string{"a b c": "abc", "a": "A!"}, true, []rune{' '})
	case 7:
		return sigil.NewFilter("@", func(s string) bool { return s == "a" })
	case 8:
		return contractions.Expand
	case 9:
		return ascii.Fold
	case 10:
		return norm.NFC
	case 11:
		return stemmer.English
	case 12:
		return twitter.Handles
	}
	return twitter.Hashtags
}

// fails consumes ts in one of all ways and checks that the source's error comes out; it
// returns the tokens delivered before the error where the way of consuming shows them.
func fails(ts *jargon.TokenStream, way int) ([]*jargon.Token, bool) {
	switch way {
	case 0:
		got, err := drain(ts)
		sym.Assert(err == errSource, "Next reports the source's error")
		return got, true
	case 1:
		var got []*jargon.Token
		for ts.Scan() {
			got = append(got, ts.Token())
		}
		sym.Assert(ts.Err() == errSource, "Err after Scan reports the source's error")
		return got, true
	case 2:
		_, err := ts.ToSlice()
		sym.Assert(err == errSource, "ToSlice reports the source's error")
	case 3:
		_, err := ts.String()
		sym.Assert(err == errSource, "String reports the source's error")
	case 4:
		_, err := ts.Count()
		sym.Assert(err == errSource, "Count reports the source's error")
	default:
		var b bytes.Buffer
		n, err := ts.WriteTo(&b)
		sym.Assert(err == errSource, "WriteTo reports the source's error")
		sym.Assert(n == int64(b.Len()), "WriteTo counts what it wrote")
	}
	return nil, false
}

func prefixOf(got, want []*jargon.Token) bool {
	if len(got) > len(want) {
		return false
	}
	return sameTokens(got, want[:len(got)])
}

// H_c05_text: a reader of any text of n bytes that fails, in any pieces.
func H_c05_text() {
	s := sym.String("s", sym.Param("n", 1))
	got, ok := fails(jargon.Tokenize(&chunks{data: s, max: 8, empty: 1, fail: true}), sym.Choice("way", 6))
	if ok {
		want, _ := drain(jargon.TokenizeString(s))
		sym.Assert(prefixOf(got, want), "what was delivered is a prefix")
		sym.Observe(show(got))
	}
	sym.Cover("text")
}

// H_c05_html: the same for HTML.
func H_c05_html() {
	pre := []string{"", "<b>", "<script>a", "a b", "<!-", "<a h", "<a x=\"", "</a ", "<!doctype h", "<textarea>a", "a&am"}
	s := pre[sym.Choice("before", len(pre))] + sym.Of("s", "<>/a! -\xe9", sym.Param("n", 1))
	got, ok := fails(jargon.TokenizeHTML(&chunks{data: s, max: 3, fail: true}), sym.Choice("way", 6))
	if ok {
		want, _ := drain(jargon.TokenizeHTML(strings.NewReader(s)))
		sym.Assert(prefixOf(got, want), "what was delivered is a prefix")
		sym.Observe(show(got))
	}
	sym.Cover("html")
}

var words5 = []string{"a", " ", "b", "c", ".", "@", "#", "don't", "é"}

// H_c05_filters: a stream of k tokens that fails, behind each filter and view.
func H_c05_filters() {
	k := sym.Param("k", 2)
	f := anyFilter(sym.Choice("filter", nFilters))
	way := sym.Choice("way", 6)
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(words5[sym.Choice("token", len(words5))], sym.Choice("lemma", 1) == 1))
	}
	src := &source{tokens: ts, err: errSource, together: k > 0 && k < 3 && sym.Choice("together", 2) == 1}
	got, ok := fails(f(src.stream()), way)
	if ok {
		want, err := drain(f(from(ts...).stream()))
		sym.Assert(err == nil, "no error without the failure")
		sym.Assert(prefixOf(got, want), "what was delivered is a prefix")
		sym.Observe(show(got))
	}
	sym.Cover("filter")
}

// H_c05_pipeline: two filters in a row over a failing reader.
func H_c05_pipeline() {
	f := anyFilter(sym.Choice("filter", nFilters))
	g := anyFilter(sym.Choice("filter", nFilters))
	s := []string{"", "a", "a ", "a b", "@a don't"}[sym.Choice("text", 5)]
	got, ok := fails(jargon.Tokenize(&whole{data: s, err: errSource}).Filter(f, g), sym.Choice("way", 6))
	if ok {
		want, _ := drain(jargon.TokenizeString(s).Filter(f, g))
		sym.Assert(prefixOf(got, want), "what was delivered is a prefix")
	}
	sym.Cover("pipeline")
}

// H_c05_toolong: a word beyond the tokenizer's limit is never cut off silently.
func H_c05_toolong() {
	s := "a " + repeat("abcdefgh", 70000/8) + " b"
	ts := jargon.TokenizeString(s)
	got, err := drain(ts)
	sym.Assert(err != nil || concat(got) == s, "an overlong word is delivered or reported")
	sym.Cover("too long")
}

// H_c05_long: failures after longer inputs.
func H_c05_long() {
	n := sym.Size("n", 4, 9000, 60, 4095, 4096, 4097, 8200)
	s := repeat("ab, ", n/4) + sym.Of("s", "a ,\xe9", 1)
	got, ok := fails(jargon.Tokenize(&whole{data: s, err: errSource}), sym.Choice("way", 2))
	if ok {
		sym.Assert(strings.HasPrefix(s, concat(got)), "what was delivered is a prefix")
	}
	sym.Cover("long")
}

// wrapped is an error around another.
type wrapped struct{ err error }

func (w *wrapped) Error() string   { return w.err.Error() }
func (w *wrapped) Unwrap() error   { return w.err }
func (w *wrapped) Is(e error) bool { return e == w.err }
func (w *wrapped) Timeout() bool   { return true }
func (w *wrapped) Temporary() bool { return true }

// H_c05_kinds: errors of all kinds, also ones that resemble the end of input.
func H_c05_kinds() {
	kinds := []error{io.ErrUnexpectedEOF, &wrapped{io.EOF}, errors.New("EOF"), errors.New(""), io.ErrClosedPipe, io.ErrNoProgress,
		io.ErrShortBuffer, bufio.ErrFinalToken, bufio.ErrTooLong, &wrapped{io.ErrUnexpectedEOF}, html.ErrBufferExceeded}
	old := errSource
	errSource = kinds[sym.Choice("kind", len(kinds))]
	defer func() { errSource = old }()
	way := sym.Choice("way", 6)
	s := []string{"", "a", "a b ", "<b>a", "don't <", "@a", "@", "a #", "<a x"}[sym.Choice("text", 9)]
	var ts *jargon.TokenStream
	switch sym.Choice("source", 4) {
	case 0:
		ts = jargon.Tokenize(&whole{data: s, err: errSource})
	case 1:
		ts = jargon.TokenizeHTML(&whole{data: s, err: errSource})
	case 2:
		ts = jargon.TokenizeHTML(&whole{data: s, err: errSource}).Filter(anyFilter(sym.Choice("filter", nFilters)))
	default:
		src := &source{tokens: textTokens(s), err: errSource}
		ts = src.stream().Filter(anyFilter(sym.Choice("filter", nFilters)))
	}
	fails(ts, way)
	sym.Cover("kinds")
}
