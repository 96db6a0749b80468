package main

import (
	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	sym "github.com/clipperhouse/jargon/internal/verifsym"
)

func init() {
	registry["c17_rune"] = H_c17_rune
	registry["c17_context"] = H_c17_context
	registry["c17_beside"] = H_c17_beside
	registry["c17_ascii"] = H_c17_ascii
	registry["c17_two"] = H_c17_two
	registry["c17_filter"] = H_c17_filter
	registry["c17_long"] = H_c17_long
}

// foldOf is the table's entry for a character, if there is one.
func foldOf(r rune) (string, bool) {
	lo, hi := 0, len(luceneChars)
	for lo < hi {
		mid := (lo + hi) / 2
		if luceneChars[mid] < r {
			lo = mid + 1
		} else {
			hi = mid
		}
	}
	if lo < len(luceneChars) && luceneChars[lo] == r {
		return luceneFolds[lo], true
	}
	return string(r), false
}

func specFold(rs []rune) (string, bool) {
	s, any := "", false
	for _, r := range rs {
		f, ok := foldOf(r)
		s += f
		any = any || ok
	}
	return s, any
}

func checkFold(rs []rune) {
	s := string(rs)
	want, any := specFold(rs)
	got, folded := ascii.FoldString(s)
	sym.Observe(got)
	sym.Assert(got == want, "every character is replaced by its entry or kept")
	sym.Assert(folded == any, "a fold is reported exactly when a character has an entry")
	if any {
		sym.Cover("folded")
	} else {
		sym.Cover("kept")
	}
}

// H_c17_rune: any single character.
func H_c17_rune() {
	checkFold([]rune{sym.Rune("r")})
}

// H_c17_context: any character between others, folded or not.
func H_c17_context() {
	set := []rune{'a', 'é', '日', 'ß', 0xff5e, 0x10000, '~'}
	before := set[sym.Choice("before", len(set))]
	after := set[sym.Choice("after", len(set))]
	r := sym.Rune("r")
	sym.Assume(r < 0x0250 || r > 0x1dff && r < 0x2080 || r > 0xff00)
	checkFold([]rune{before, r, after})
}

// H_c17_beside: any character at all, beside characters that are folded or not.
func H_c17_beside() {
	set := [][2][]rune{{{'é'}, {}}, {{}, {'é'}}, {{'e'}, {}}, {{0xc6, '日'}, {'ß', 'x'}}}
	around := set[sym.Choice("beside", len(set))]
	rs := append([]rune{}, around[0]...)
	rs = append(rs, sym.Rune("r"))
	rs = append(rs, around[1]...)
	checkFold(rs)
}

// H_c17_ascii: ASCII text of n characters is kept.
func H_c17_ascii() {
	s := sym.ASCII("s", sym.Param("n", 3))
	got, folded := ascii.FoldString(s)
	sym.Assert(got == s && !folded, "ASCII text is kept and no fold reported")
	sym.Cover("ascii")
}

// H_c17_two: two arbitrary characters of the first Latin blocks.
func H_c17_two() {
	r, q := sym.Rune("r"), sym.Rune("q")
	sym.Assume(r >= 0xb8 && r < 0xd0 && q >= 0xd8 && q < 0x104)
	checkFold([]rune{r, q})
}

// H_c17_filter: the filter on k tokens.
func H_c17_filter() {
	k := sym.Param("k", 2)
	var ts []*jargon.Token
	var wants []string
	var anys []bool
	for i := 0; i < k; i++ {
		var rs []rune
		switch sym.Choice("token", 4) {
		case 0:
			rs = []rune{'a'}
		case 1:
			r := sym.Rune("r")
			sym.Assume(r >= 0xa0 && r < 0xd0 || r >= 0x2010 && r < 0x2060 || r >= 0xff50 && r < 0xff60)
			rs = []rune{r}
		case 2:
			rs = []rune{'x', 'é', '日'}
		default:
			rs = []rune{' '}
		}
		w, any := specFold(rs)
		wants, anys = append(wants, w), append(anys, any)
		ts = append(ts, jargon.NewToken(string(rs), sym.Choice("lemma", 2) == 1))
	}
	got, err := drain(ascii.Fold(from(ts...).stream()))
	sym.Assert(err == nil && len(got) == k, "one token per token")
	sym.Observe(show(got))
	for i := range got {
		if i >= k {
			break
		}
		if anys[i] {
			sym.Assert(got[i].IsLemma() && got[i].String() == wants[i], "a folded token is a lemma with the folded text")
		} else {
			sym.Assert(got[i] == ts[i], "any other token is the original")
		}
	}
	sym.Cover("filter")
}

// H_c17_long: long strings, the folded character anywhere.
func H_c17_long() {
	n := sym.Size("n", 1, 600, 10, 63, 64, 130, 260)
	r := sym.Rune("r")
	sym.Assume(r >= 0xb8 && r < 0xc8 || r >= 0x2050 && r < 0x2058)
	var rs []rune
	switch sym.Choice("where", 3) {
	case 0:
		rs = append(rs, r)
		for i := 0; i < n; i++ {
			rs = append(rs, 'a')
		}
	case 1:
		for i := 0; i < n; i++ {
			rs = append(rs, 'a')
		}
		rs = append(rs, r)
	default:
		for i := 0; i < n; i++ {
			rs = append(rs, 'é')
		}
		rs = append(rs, r)
	}
	checkFold(rs)
	sym.Cover("long")
}
