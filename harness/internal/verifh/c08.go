package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/mapper"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c08_compose"] = H_c08_compose
	registry["c08_custom"] = H_c08_custom
	registry["c08_mapper"] = H_c08_mapper
	registry["c08_long"] = H_c08_long
}

// H_c08_compose: up to k provided filters over any of several texts.
func H_c08_compose() {
	k := sym.Param("k", 2)
	var fs []jargon.Filter
	for i := 0; i < k; i++ {
		fs = append(fs, anyFilter(sym.Choice("filter", nFilters)))
	}
	s := []string{"", "a b c", "I don't @a #b é a it's", "A a é.b running @a"}[sym.Choice("text", 4)]
	got, err := drain(jargon.TokenizeString(s).Filter(fs...))
	sym.Assert(err == nil, "no error")
	one := jargon.TokenizeString(s)
	for _, f := range fs {
		one = f(one)
	}
	want, _ := drain(one)
	sym.Observe(show(got))
	sym.Assert(sameTokens(got, want), "several filters in one call equal one after another")
	two := jargon.TokenizeString(s)
	for _, f := range fs {
		two = two.Filter(f)
	}
	got, _ = drain(two)
	sym.Assert(sameTokens(got, want), "chained calls equal one call")
	sym.Cover("compose")
}

// H_c08_custom: filters that record the order they see tokens in; no filters at all.
func H_c08_custom() {
	k := sym.Choice("filters", sym.Param("k", 4)+1)
	n := sym.Param("n", 2)
	all := symTokens(n, 1, "a .")
	log := ""
	var fs []jargon.Filter
	for i := 0; i < k; i++ {
		name := string([]byte{'0' + byte(i)})
		fs = append(fs, func(in *jargon.TokenStream) *jargon.TokenStream {
			log += "f" + name
			return jargon.NewTokenStream(func() (*jargon.Token, error) {
				t, err := in.Next()
				if t == nil || err != nil {
					return t, err
				}
				return jargon.NewToken(t.String()+name, t.IsLemma()), nil
			})
		})
	}
	src := from(all...)
	ts := src.stream()
	out := ts.Filter(fs...)
	want, suffix := "", ""
	for i := 0; i < k; i++ {
		want += "f" + string([]byte{'0' + byte(i)})
		suffix += string([]byte{'0' + byte(i)})
	}
	sym.Assert(log == want, "each filter is applied once, left to right")
	got, err := drain(out)
	sym.Assert(err == nil && len(got) == n, "one token per token")
	for i := range got {
		if k == 0 {
			sym.Assert(got[i] == all[i], "no filters leave the stream unchanged")
			continue
		}
		sym.Assert(got[i].String() == all[i].String()+suffix, "each filter sees the previous filter's tokens")
		sym.Assert(got[i].IsLemma() == all[i].IsLemma(), "flags pass through")
	}
	sym.Cover("custom")
}

// H_c08_mapper: a mapper of up to k functions, each keeping or replacing the token.
func H_c08_mapper() {
	k := sym.Choice("functions", sym.Param("k", 3)+1)
	n := sym.Param("n", 2)
	all := symTokens(n, 1, "a .")
	// the token at each position and stage
	stage := make([]*jargon.Token, n)
	copy(stage, all)
	calls := make([]int, n)
	pos := 0
	var fs []func(*jargon.Token) *jargon.Token
	for i := 0; i < k; i++ {
		i := i
		fs = append(fs, func(t *jargon.Token) *jargon.Token {
			sym.Assert(pos < n && t == stage[pos], "each function gets the previous function's result")
			sym.Assert(calls[pos] == i, "functions run in order, once each")
			calls[pos]++
			r := t
			switch sym.Choice("replace", 3) {
			case 1:
				r = jargon.NewToken(t.String()+"x", sym.Bool("lemma"))
			case 2:
				r = jargon.NewToken(t.String(), !t.IsLemma())
			}
			stage[pos] = r
			return r
		})
	}
	src := from(all...)
	out := mapper.NewFilter(fs...)(src.stream())
	sym.Assert(src.asked == 0, "nothing is read before it is asked for")
	for pos = 0; pos < n; pos++ {
		t, err := out.Next()
		sym.Assert(err == nil && t == stage[pos], "each token comes out as the last function's result")
		sym.Assert(calls[pos] == k, "every function runs for every token")
		sym.Assert(src.asked == pos+1, "one token is read per token")
	}
	t, err := out.Next()
	sym.Assert(t == nil && err == nil, "nothing else is delivered")
	sym.Cover("mapper")
}

// H_c08_long: many tokens, many functions.
func H_c08_long() {
	n := sym.Size("n", 2, 1200, 20, 64, 128, 256)
	k := []int{1, 5, 17, 40}[sym.Choice("functions", 4)]
	var all []*jargon.Token
	for i := 0; i < n; i++ {
		all = append(all, jargon.NewToken(string([]byte{'a' + byte(i%26), 'a' + byte(i/26%26)}), false))
	}
	all = append(all, symTokens(1, 1, "a .")...)
	calls := 0
	var fs []func(*jargon.Token) *jargon.Token
	for i := 0; i < k; i++ {
		i := i
		fs = append(fs, func(t *jargon.Token) *jargon.Token {
			sym.Assert(calls%k == i, "functions run in order, once each")
			calls++
			return t
		})
	}
	var got []*jargon.Token
	var err error
	if sym.Choice("filters", 2) == 0 {
		got, err = drain(mapper.NewFilter(fs...)(from(all...).stream()))
	} else {
		var ff []jargon.Filter
		for _, f := range fs {
			ff = append(ff, mapper.NewFilter(f))
		}
		got, err = drain(from(all...).stream().Filter(ff...))
	}
	sym.Assert(err == nil && identical(got, all), "every token comes out")
	sym.Assert(calls == k*len(all), "every function runs for every token")
	sym.Cover("long")
}
