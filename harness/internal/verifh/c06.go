package main

import (
	"github.com/clipperhouse/jargon"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c06_where"] = H_c06_where
	registry["c06_views"] = H_c06_views
	registry["c06_distinct"] = H_c06_distinct
	registry["c06_nested"] = H_c06_nested
	registry["c06_similar"] = H_c06_similar
	registry["c06_again"] = H_c06_again
	registry["c06_pair"] = H_c06_pair
	registry["c06_long"] = H_c06_long
}

// checkView reads a view of src and compares it with the matching tokens of all.
func checkView(view *jargon.TokenStream, src *source, all []*jargon.Token, match func(i int) bool) {
	var want []*jargon.Token
	var need []int // tokens of the source needed to deliver want[i]
	for i, t := range all {
		if match(i) {
			want = append(want, t)
			need = append(need, i+1)
		}
	}
	for i, w := range want {
		t, err := view.Next()
		sym.Assert(err == nil, "no error")
		sym.Assert(t == w, "a view delivers the matching tokens themselves, in order")
		sym.Assert(src.asked <= need[i], "a view reads no further than it needs")
	}
	t, err := view.Next()
	sym.Assert(t == nil && err == nil, "a view delivers nothing else")
	t, err = view.Next()
	sym.Assert(t == nil && err == nil, "a view stays ended")
	if len(want) > 0 && len(want) < len(all) {
		sym.Cover("some match")
	}
}

func symTokens(k, n int, set string) []*jargon.Token {
	var all []*jargon.Token
	for i := 0; i < k; i++ {
		all = append(all, jargon.NewToken(sym.Of("token", set, n), sym.Bool("lemma")))
	}
	return all
}

// H_c06_where: k tokens, an arbitrary predicate.
func H_c06_where() {
	k := sym.Param("k", 3)
	all := symTokens(k, 1, "ab .")
	verdict := make([]bool, k)
	for i := range verdict {
		verdict[i] = sym.Bool("matches")
	}
	src := from(all...)
	asked := 0
	view := src.stream().Where(func(t *jargon.Token) bool {
		sym.Assert(asked < k && t == all[asked], "the predicate is asked once per token, in order")
		asked++
		return verdict[asked-1]
	})
	sym.Assert(asked == 0 && src.asked == 0, "a view reads nothing before it is read")
	checkView(view, src, all, func(i int) bool { return verdict[i] })
	sym.Assert(asked == k, "the predicate is asked for every token")
	sym.Cover("where")
}

// H_c06_views: Words and Lemmas over k tokens of any text.
func H_c06_views() {
	k := sym.Param("k", 2)
	all := symTokens(k, 1, "a1 .\n@\t_$")
	if sym.Choice("extra", 2) == 1 {
		all = append(all, jargon.NewToken(sym.String("s", sym.Param("n", 2)), sym.Bool("lemma")))
	}
	src := from(all...)
	if sym.Choice("view", 2) == 0 {
		checkView(src.stream().Words(), src, all, func(i int) bool {
			return !specSpace(all[i].String()) && !specPunct(all[i].String())
		})
		sym.Cover("words")
	} else {
		checkView(src.stream().Lemmas(), src, all, func(i int) bool { return all[i].IsLemma() })
		sym.Cover("lemmas")
	}
}

// H_c06_distinct: k tokens of n arbitrary bytes.
func H_c06_distinct() {
	k := sym.Param("k", 3)
	n := sym.Param("n", 2)
	var all []*jargon.Token
	for i := 0; i < k; i++ {
		m := n
		if i > 0 && sym.Choice("shorter", 2) == 1 {
			m = 1
		}
		all = append(all, jargon.NewToken(sym.String("token", m), sym.Bool("lemma")))
	}
	src := from(all...)
	checkView(src.stream().Distinct(), src, all, func(i int) bool {
		for j := 0; j < i; j++ {
			if all[j].String() == all[i].String() {
				return false
			}
		}
		return true
	})
	sym.Cover("distinct")
}

// H_c06_nested: a view of a view, and two views used side by side on their own sources.
func H_c06_nested() {
	k := sym.Param("k", 3)
	all := symTokens(k, 1, "aA .")
	src := from(all...)
	other := from(all...)
	d2 := other.stream().Distinct()
	word := func(i int) bool { return !specSpace(all[i].String()) && !specPunct(all[i].String()) }
	first := func(i int, m func(int) bool) bool {
		for j := 0; j < i; j++ {
			if m(j) && all[j].String() == all[i].String() {
				return false
			}
		}
		return true
	}
	d2.Next()
	switch sym.Choice("views", 4) {
	case 0:
		checkView(src.stream().Words().Distinct(), src, all, func(i int) bool { return word(i) && first(i, word) })
	case 1:
		checkView(src.stream().Distinct().Words(), src, all, func(i int) bool { return word(i) && first(i, word) })
	case 2:
		lem := func(i int) bool { return all[i].IsLemma() }
		checkView(src.stream().Lemmas().Distinct(), src, all, func(i int) bool { return lem(i) && first(i, lem) })
	default:
		checkView(src.stream().Words().Lemmas(), src, all, func(i int) bool { return word(i) && all[i].IsLemma() })
	}
	sym.Cover("nested")
}

// H_c06_long: long streams with arbitrary tokens at the end.
func H_c06_long() {
	n := sym.Size("n", 2, 5000, 20, 64, 128, 256, 1000, 4100)
	view := sym.Choice("view", 3)
	var all []*jargon.Token
	for i := 0; i < n; i++ {
		s := string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26), 'a' + byte(i/676)})
		if i%4 == 1 && view < 2 {
			s = " "
		}
		all = append(all, jargon.NewToken(s, i%5 == 0))
	}
	all = append(all, symTokens(1, 1, "a .")...)
	all = append(all, jargon.NewToken(sym.Of("token", "ac", 3), false))
	src := from(all...)
	switch view {
	case 0:
		checkView(src.stream().Words(), src, all, func(i int) bool {
			return !specSpace(all[i].String()) && !specPunct(all[i].String())
		})
	case 1:
		checkView(src.stream().Lemmas(), src, all, func(i int) bool { return all[i].IsLemma() })
	default:
		seen := map[string]bool{}
		checkView(src.stream().Distinct(), src, all, func(i int) bool {
			if seen[all[i].String()] {
				return false
			}
			seen[all[i].String()] = true
			return true
		})
	}
	sym.Cover("long")
}

// H_c06_similar: long tokens that differ in one character only.
func H_c06_similar() {
	n := sym.Size("n", 1, 600, 3, 17, 70)
	v, w := similar(n, "abzA1")
	all := []*jargon.Token{jargon.NewToken(v, false), jargon.NewToken(w, true), jargon.NewToken(v+"x", false), jargon.NewToken(w, false), jargon.NewToken("x"+v, false), jargon.NewToken(v, true)}
	src := from(all...)
	seen := map[string]bool{}
	checkView(src.stream().Distinct(), src, all, func(i int) bool {
		if seen[all[i].String()] {
			return false
		}
		seen[all[i].String()] = true
		return true
	})
	sym.Cover("similar")
}

// H_c06_again: a second view of a stream that was read through a first one.
func H_c06_again() {
	k := sym.Param("k", 3)
	all := symTokens(k, 1, "ab .")
	src := from(all...)
	ts := src.stream()
	view := sym.Choice("view", 3)
	make := func() *jargon.TokenStream {
		switch view {
		case 0:
			return ts.Words()
		case 1:
			return ts.Lemmas()
		}
		return ts.Distinct()
	}
	make().Next()
	at := src.pos
	checkView(make(), src, all, func(i int) bool {
		if i < at {
			return false
		}
		switch view {
		case 0:
			return !specSpace(all[i].String()) && !specPunct(all[i].String())
		case 1:
			return all[i].IsLemma()
		}
		for j := at; j < i; j++ {
			if all[j].String() == all[i].String() {
				return false
			}
		}
		return true
	})
	sym.Cover("again")
}

// H_c06_pair: two words of n arbitrary letters and digits.
func H_c06_pair() {
	n := sym.Param("n", 5)
	const set = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	a, b := sym.Of("token", set, n), sym.Of("token", set, n)
	all := []*jargon.Token{jargon.NewToken(a, false), jargon.NewToken(b, false)}
	src := from(all...)
	checkView(src.stream().Distinct(), src, all, func(i int) bool { return i == 0 || a != b })
	sym.Cover("pair")
}
