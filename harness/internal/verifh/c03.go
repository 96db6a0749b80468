package main

import (
	"strings"

	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c03_string"] = H_c03_string
	registry["c03_markup"] = H_c03_markup
	registry["c03_context"] = H_c03_context
	registry["c03_chunks"] = H_c03_chunks
	registry["c03_kinds"] = H_c03_kinds
	registry["c03_long"] = H_c03_long
}

func losslessHTML(ts *jargon.TokenStream, s string) {
	var seen []snapshot
	out := ""
	for {
		t, err := ts.Next()
		sym.Assert(err == nil, "tokenizing ends without error")
		if err != nil {
			return
		}
		if t == nil {
			break
		}
		sym.Assert(len(t.String()) > 0, "tokens are not empty")
		seen = append(seen, snap(t))
		out += t.String()
	}
	sym.Observe(out)
	sym.Assert(out == s, "the tokens concatenate to the input")
	for _, x := range seen {
		sym.Assert(x.unchanged(), "delivered tokens do not change")
	}
	t, err := ts.Next()
	sym.Assert(t == nil && err == nil, "the stream stays ended")
	if len(seen) > 1 {
		sym.Cover("several tokens")
	}
	sym.Cover("done")
}

// H_c03_string: any input of n bytes.
func H_c03_string() {
	s := sym.String("s", sym.Param("n", 2))
	losslessHTML(jargon.TokenizeHTML(strings.NewReader(s)), s)
}

// H_c03_markup: n arbitrary characters of markup.
func H_c03_markup() {
	s := sym.Of("s", "<>/!-=\"a &", sym.Param("n", 3))
	losslessHTML(jargon.TokenizeHTML(strings.NewReader(s)), s)
}

// H_c03_context: n arbitrary characters of markup in the contexts HTML distinguishes.
func H_c03_context() {
	x := sym.Of("s", "<>/!-=\"'a &;S\x00\r\xc3", sym.Param("n", 2))
	pre := []string{"<script>", "<STYLE>", "<script>a</script", "<style></Style", "<script><!--<script>", "<![CDATA[", "<svg><![CDATA[", "<!--", "<a b=", "<a b=\"", "<title>", "&am", "</", "<textarea>", "<b/", "<!DOCTYPE ", "<?"}
	post := []string{"", "</script>a", "</style>&lt;", "-->", "\">t", ">", ";"}
	s := pre[sym.Choice("before", len(pre))] + x + post[sym.Choice("after", len(post))]
	losslessHTML(jargon.TokenizeHTML(strings.NewReader(s)), s)
}

// H_c03_chunks: markup in any pieces.
func H_c03_chunks() {
	x := sym.Of("s", "<>/!-\"a &", sym.Param("n", 1))
	s := []string{"<b>", "a&", "<i", "<!-"}[sym.Choice("before", 4)] + x
	losslessHTML(jargon.TokenizeHTML(&chunks{data: s, max: 3, empty: 1}), s)
}

// H_c03_long: text, tags and bodies around sizes that matter to buffers.
func H_c03_long() {
	n := sym.Size("n", 8, 9000, 100, 4090, 4096, 5000)
	pre := []string{"", "<a b='", "<!--", "<script>", "<b>"}[sym.Choice("before", 5)]
	s := pre + repeat("ab ", n/3) + sym.Of("s", "<>'- a", sym.Param("n", 1))
	losslessHTML(jargon.TokenizeHTML(&whole{data: s, err: eof}), s)
}

// H_c03_kinds: readers of all kinds, read from before.
func H_c03_kinds() {
	s := []string{"", "it's <i>", "<script>a b"}[sym.Choice("text", 3)] + sym.Of("s", "a< \xef", sym.Param("n", 1))
	losslessHTML(jargon.TokenizeHTML(aReader(s)), s)
	sym.Cover("kinds")
}
