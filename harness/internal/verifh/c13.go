package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c13_interleaved"] = H_c13_interleaved
	registry["c13_again"] = H_c13_again
	registry["c13_words"] = H_c13_words
	registry["c13_many"] = H_c13_many
	registry["c13_after"] = H_c13_after
	registry["c13_unbuildable"] = H_c13_unbuildable
	registry["c14_order"] = H_c14_order
	registry["c14_same"] = H_c14_same
	registry["c14_large"] = H_c14_large
}

const nReused = nFilters + 6

func reused(k int) jargon.Filter {
	switch k - nFilters {
	case 0:
		return synonyms.NewFilter(map[string]string{"a": "", "b c": "1", "B": "2"}, false, []rune{' '})
	case 1:
		return stopwords.NewFilter([]string{"a", "It"}, false)
	case 2:
		return norm.NFKD
	case 3:
		return stemmer.Russian
	case 4:
		return stemmer.French
	case 5:
		return (*jargon.TokenStream).Distinct
	}
	return anyFilter(k)
}

// someTokens is k arbitrary tokens.
func someTokens(k int) []*jargon.Token {
	var ts []*jargon.Token
	for i := 0; i < k; i++ {
		ts = append(ts, jargon.NewToken(sym.Of("token", "ab @#.", 1), false))
	}
	return ts
}

// H_c13_interleaved: two streams through one filter value, consumed in any order.
func H_c13_interleaved() {
	k := sym.Choice("filter", nReused)
	n := sym.Param("n", 2)
	interleave(k, someTokens(n), someTokens(n))
}

// H_c13_words: the same for texts in which a word becomes several tokens, several one, or another.
func H_c13_words() {
	k := sym.Choice("filter", nReused)
	texts := []string{"don't", "a b", "@a", "é it"}
	pick := func() []*jargon.Token { return textTokens(texts[sym.Choice("text", len(texts))]) }
	interleave(k, pick(), pick())
}

func interleave(k int, a, b []*jargon.Token) {
	wantA, errA := drain(reused(k)(from(a...).stream()))
	wantB, errB := drain(reused(k)(from(b...).stream()))
	sym.Assert(errA == nil && errB == nil, "no error")
	f := reused(k)
	outA := f(from(a...).stream())
	outB := f(from(b...).stream())
	var gotA, gotB []*jargon.Token
	doneA, doneB := false, false
	for !doneA || !doneB {
		first := !doneA
		if !doneA && !doneB {
			first = sym.Choice("which", 2) == 0
		}
		if first {
			t, err := outA.Next()
			sym.Assert(err == nil, "no error")
			if t == nil {
				doneA = true
			} else {
				gotA = append(gotA, t)
			}
		} else {
			t, err := outB.Next()
			sym.Assert(err == nil, "no error")
			if t == nil {
				doneB = true
			} else {
				gotB = append(gotB, t)
			}
		}
		sym.Assert(len(gotA) <= len(wantA) && len(gotB) <= len(wantB), "no more than a fresh filter gives")
	}
	sym.Observe(show(gotA) + show(gotB))
	sym.Assert(sameTokens(gotA, wantA), "the first stream gets what a fresh filter gives")
	sym.Assert(sameTokens(gotB, wantB), "the second stream gets what a fresh filter gives")
	sym.Cover("interleaved")
}

// H_c13_again: a second stream after the first was abandoned at any point.
func H_c13_again() {
	k := sym.Choice("filter", nReused)
	n := sym.Param("n", 3)
	a, b := someTokens(n), someTokens(2)
	want, _ := drain(reused(k)(from(b...).stream()))
	f := reused(k)
	out := f(from(a...).stream())
	for i := sym.Choice("read", 2*n+1); i > 0; i-- {
		out.Next()
	}
	got, err := drain(f(from(b...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(got, want), "a later stream gets what a fresh filter gives")
	sym.Cover("again")
}

// H_c13_many: one filter value for many streams.
func H_c13_many() {
	k := sym.Choice("filter", nReused)
	n := sym.Size("n", 2, 300, 3, 20, 70, 130)
	f := reused(k)
	texts := []string{"a b c it's", "I don't @a #b é A", ""}
	var wants [3][]*jargon.Token
	for i, s := range texts {
		wants[i], _ = drain(reused(k)(jargon.TokenizeString(s)))
	}
	for i := 0; i < n; i++ {
		got, err := drain(f(jargon.TokenizeString(texts[i%3])))
		sym.Assert(err == nil, "no error")
		sym.Assert(sameTokens(got, wants[i%3]), "every stream gets what a fresh filter gives")
	}
	last := sym.Of("last", "ab @#.", 1)
	want, _ := drain(reused(k)(jargon.TokenizeString(last)))
	got, err := drain(f(jargon.TokenizeString(last)))
	sym.Assert(err == nil && sameTokens(got, want), "the last stream too")
	sym.Cover("many")
}

// H_c13_unbuildable: a dictionary with a word the tokenizer cannot take; every use reports the error.
func H_c13_unbuildable() {
	long := repeat("abcdefgh", 70000/8)
	key := []string{long, "a, " + long, long + ", a"}[sym.Choice("entry", 3)]
	f := synonyms.NewFilter(map[string]string{key: "x", "b": "y"}, sym.Choice("case", 2) == 1, []rune{' '})
	text := sym.Of("text", "ab .", 1)
	sym.Cover("unbuildable")
	if _, err := jargon.TokenizeString(key).Count(); err == nil {
		// It can be built: every use works
		for use := 0; use < 2; use++ {
			got, err := drain(f(jargon.TokenizeString(long + text)))
			want := "x" + text
			if text == "a" || text == "b" {
				want = long + text
			}
			sym.Assert(err == nil && concat(got) == want, "a phrase of any length is replaced at every use")
		}
		return
	}
	for use := 0; use < 3; use++ {
		out := f(jargon.TokenizeString(text))
		switch sym.Choice("way", 3) {
		case 0:
			t, err := out.Next()
			sym.Assert(t == nil && err != nil, "every use reports the error")
			t, err = out.Next()
			sym.Assert(t == nil && err != nil, "and goes on reporting it")
		case 1:
			sym.Assert(!out.Scan() && out.Err() != nil, "every use reports the error by Scan")
		default:
			s, err := out.String()
			sym.Assert(s == "" && err != nil, "every use reports the error by String")
		}
	}
}

// H_c14_order: entries that spell the same phrase; the dictionary may be enumerated in any order.
func H_c14_order() {
	var m map[string]string
	ignore := []rune{' ', '-'}
	switch sym.Choice("dictionary", 6) {
	case 0:
		m = map[string]string{"a b": "1", "ab": "2"}
	case 1:
		m = map[string]string{"Ab": "1", "ab": "2", "aB": "3"}
	case 2:
		m = map[string]string{"a b, c": "1", "ab": "2", "C": "3"}
	case 3:
		m = map[string]string{"a-b": "1", "a b": "", "a": "3"}
	case 4:
		m = map[string]string{"a": "1", "a b": "2", "ab c": "3"}
	default:
		m = map[string]string{"a,b": "1", "b,a": "2", "A": "3"}
	}
	ignoreCase := sym.Choice("ignore case", 2) == 1
	ts := textTokens(sym.Of("text", "abcA -.", sym.Param("n", 3)))
	sym.MapOrder(true)
	one, err := drain(synonyms.NewFilter(m, ignoreCase, ignore)(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	two, err := drain(synonyms.NewFilter(m, ignoreCase, ignore)(from(ts...).stream()))
	sym.MapOrder(false)
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(one, two), "the order of enumeration does not matter")
	sym.Cover("order")
}

// H_c14_same: a dictionary built in another order of insertion, arbitrary keys.
func H_c14_same() {
	k1, k2 := sym.Of("key", "abA ", 2), sym.Of("key", "abA ", 2)
	sym.Assume(k1 != k2)
	one := map[string]string{}
	one[k1] = "1"
	one[k2] = "2"
	two := map[string]string{}
	two[k2] = "2"
	two[k1] = "1"
	ts := textTokens(sym.Of("text", "abA ", sym.Param("n", 2)))
	ignoreCase := sym.Choice("ignore case", 2) == 1
	a, err := drain(synonyms.NewFilter(one, ignoreCase, []rune{' '})(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	b, err := drain(synonyms.NewFilter(two, ignoreCase, []rune{' '})(from(ts...).stream()))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(a, b), "the order of insertion does not matter")
	sym.Cover("same")
}

// H_c14_large: many entries that spell the same phrases, inserted in one order and in the reverse.
func H_c14_large() {
	n := sym.Size("n", 2, 200, 9, 20, 65, 130)
	one, two := map[string]string{}, map[string]string{}
	key := func(i int) string { return string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26)}) }
	var keys, vals []string
	for i := 0; i < n; i++ {
		keys = append(keys, key(i), key(i)[:1]+" "+key(i)[1:])
		vals = append(vals, "x"+key(i), "y"+key(i))
	}
	for i := range keys {
		one[keys[i]] = vals[i]
		two[keys[len(keys)-1-i]] = vals[len(keys)-1-i]
	}
	text := key(n-1) + " " + key(n/2) + " " + key(0) + sym.Of("text", "a ", 1)
	a, err := drain(synonyms.NewFilter(one, false, []rune{' '})(jargon.TokenizeString(text)))
	sym.Assert(err == nil, "no error")
	b, err := drain(synonyms.NewFilter(two, false, []rune{' '})(jargon.TokenizeString(text)))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(a, b), "the order of insertion does not matter")
	sym.Cover("large")
}

// H_c13_after: a stream after another of any of several texts.
func H_c13_after() {
	k := sym.Choice("filter", nReused)
	texts := []string{"don't a b c @abcdefghijklmno", "#international @a", "b c abcdefghijklmnopqrst", "éa It's its running.", "@", "a b"}
	a, b := texts[sym.Choice("text", len(texts))], sym.Of("text", "@#a", 1)+texts[sym.Choice("text", len(texts))]
	want, _ := drain(reused(k)(jargon.TokenizeString(b)))
	f := reused(k)
	drain(f(jargon.TokenizeString(a)))
	got, err := drain(f(jargon.TokenizeString(b)))
	sym.Assert(err == nil, "no error")
	sym.Assert(sameTokens(got, want), "a later stream gets what a fresh filter gives")
	sym.Cover("after")
}
