package main

import "sort"

// Exact domains of variables wider than a byte, as sorted disjoint ranges. Conditions built of comparisons of one
// variable with constants (and of tables over it) have such a domain; others are evaluated value by value once the
// ranges leave few values, and go to the solver otherwise.

type rng struct{ lo, hi uint64 } // inclusive

type rdomain struct {
	simple  bool
	tried   bool
	partial bool // rs holds for values up to partialLimit only
	rs      []rng
}

// partialLimit is the largest character.
const partialLimit = 0x10ffff

// plainVar says that t is the variable v, possibly zero-extended.
func plainVar(t *Term) bool {
	for t.op == OZext {
		t = t.a
	}
	return t.op == OVar
}

func complement(rs []rng, max uint64) []rng {
	var out []rng
	next := uint64(0)
	for _, r := range rs {
		if r.lo > next {
			out = append(out, rng{next, r.lo - 1})
		}
		if r.hi == max {
			return out
		}
		next = r.hi + 1
	}
	return append(out, rng{next, max})
}

func intersect(a, b []rng) []rng {
	var out []rng
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo <= hi {
			out = append(out, rng{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

// without removes one value in place.
func without(rs []rng, x uint64) []rng {
	k := sort.Search(len(rs), func(i int) bool { return rs[i].hi >= x })
	if k == len(rs) || rs[k].lo > x {
		return rs
	}
	r := rs[k]
	switch {
	case r.lo == r.hi:
		return append(rs[:k], rs[k+1:]...)
	case r.lo == x:
		rs[k].lo++
	case r.hi == x:
		rs[k].hi--
	default:
		rs = append(rs, rng{})
		copy(rs[k+1:], rs[k:])
		rs[k].hi = x - 1
		rs[k+1].lo = x + 1
	}
	return rs
}

func size(rs []rng) uint64 {
	n := uint64(0)
	for _, r := range rs {
		n += r.hi - r.lo + 1
		if n == 0 || n > 1<<40 {
			return 1 << 40
		}
	}
	return n
}

// ranges computes the domain c allows its only variable, which is wide.
func (T *Terms) ranges(c *Term) *rdomain {
	if c.rdom != nil {
		return c.rdom
	}
	max := mask(T.vars[c.vars[0]].w)
	rs, ok := T.rangesOf(c, max)
	c.rdom = &rdomain{simple: ok, rs: rs}
	return c.rdom
}

// characters computes which of the values up to partialLimit a condition allows its only variable.
func (T *Terms) characters(c *Term) *rdomain {
	d := T.ranges(c)
	if !d.simple && !d.tried {
		d.tried = true
		if max := mask(T.vars[c.vars[0]].w); max <= mask(32) {
			d.rs, d.partial = T.splitRanges(c, max)
		}
	}
	return d
}

func (T *Terms) rangesOf(c *Term, max uint64) ([]rng, bool) {
	if len(c.vars) == 0 {
		if c.op != OConst {
			return nil, false
		}
		if c.val != 0 {
			return []rng{{0, max}}, true
		}
		return nil, true
	}
	switch c.op {
	case OBNot:
		a, ok := T.rangesOf(c.a, max)
		return complement(a, max), ok
	case OBAnd:
		a, ok := T.rangesOf(c.a, max)
		if !ok {
			return nil, false
		}
		b, ok := T.rangesOf(c.b, max)
		return intersect(a, b), ok
	case OBOr:
		a, ok := T.rangesOf(c.a, max)
		if !ok {
			return nil, false
		}
		b, ok := T.rangesOf(c.b, max)
		return complement(intersect(complement(a, max), complement(b, max)), max), ok
	case OEq:
		v, k := c.a, c.b
		if v.op == OConst {
			v, k = k, v
		}
		if k.op != OConst {
			return nil, false
		}
		if plainVar(v) {
			if k.val > max {
				return nil, true
			}
			return []rng{{k.val, k.val}}, true
		}
		if v.op == OTable && plainVar(v.a) {
			return tableRanges(v, max, func(x uint64) bool { return x == k.val }), true
		}
	case OTable:
		if c.w == 0 && plainVar(c.a) {
			return tableRanges(c, max, func(x uint64) bool { return x != 0 }), true
		}
	case OUlt, OUle:
		if plainVar(c.a) && c.b.op == OConst {
			k := c.b.val
			if c.op == OUlt {
				if k == 0 {
					return nil, true
				}
				k--
			}
			if k > max {
				k = max
			}
			return []rng{{0, k}}, true
		}
		if plainVar(c.b) && c.a.op == OConst {
			k := c.a.val
			if c.op == OUlt {
				if k == ^uint64(0) {
					return nil, true
				}
				k++
			}
			if k > max {
				return nil, true
			}
			return []rng{{k, max}}, true
		}
	case OSlt, OSle:
		w := c.a.w
		half := uint64(1) << (w - 1)
		strict := c.op == OSlt
		v, k, less := c.a, c.b, true // v < k
		if k.op != OConst {
			v, k, less = k, v, false // k < v
		}
		if k.op != OConst || !plainVar(v) {
			return nil, false
		}
		// shift both by half: signed order becomes unsigned
		x := k.val ^ half
		full := mask(w)
		var r rng
		if less {
			if strict {
				if x == 0 {
					return nil, true
				}
				x--
			}
			r = rng{0, x}
		} else {
			if strict {
				if x == full {
					return nil, true
				}
				x++
			}
			r = rng{x, full}
		}
		// back: [0,half) of the shifted order are the negative values [half, full]
		var out []rng
		if r.hi >= half {
			lo := r.lo
			if lo < half {
				lo = half
			}
			out = append(out, rng{lo - half, r.hi - half})
		}
		if r.lo < half {
			hi := r.hi
			if hi >= half {
				hi = half - 1
			}
			out = append(out, rng{r.lo + half, hi + half})
		}
		return intersect(out, []rng{{0, max}}), true
	}
	return nil, false
}

// splitRanges finds the domain of any condition on one wide variable by splitting the variable's range until interval
// arithmetic decides the condition on each part.
func (T *Terms) splitRanges(c *Term, max uint64) ([]rng, bool) {
	v := int(c.vars[0])
	for len(T.plo) <= v {
		i := len(T.plo)
		T.plo = append(T.plo, 0)
		T.phi = append(T.phi, mask(T.vars[i].w))
	}
	slo, shi := T.plo[v], T.phi[v]
	defer func() { T.plo[v], T.phi[v] = slo, shi }()
	var out []rng
	left := 200000
	memo := map[int32][2]uint64{}
	var split func(lo, hi uint64) bool
	split = func(lo, hi uint64) bool {
		if left--; left < 0 {
			return false
		}
		T.plo[v], T.phi[v] = lo, hi
		clear(memo)
		a, b := T.pathInt(c, memo)
		if a != b {
			if lo == hi {
				return false
			}
			mid := lo + (hi-lo)/2
			return split(lo, mid) && split(mid+1, hi)
		}
		if a != 0 {
			if n := len(out); n > 0 && out[n-1].hi+1 == lo {
				out[n-1].hi = hi
			} else {
				out = append(out, rng{lo, hi})
			}
		}
		return true
	}
	if max > partialLimit {
		max = partialLimit
	}
	if !split(0, max) {
		return nil, false
	}
	return out, true
}

func tableRanges(t *Term, max uint64, want func(uint64) bool) []rng {
	var out []rng
	tab := t.tab
	full := mask(tab.inW)
	if full < max {
		max = full
	}
	for i, s := range tab.starts {
		if s > max {
			break
		}
		hi := max
		if i+1 < len(tab.starts) && tab.starts[i+1]-1 < hi {
			hi = tab.starts[i+1] - 1
		}
		if !want(tab.vals[i]) {
			continue
		}
		if n := len(out); n > 0 && out[n-1].hi+1 == s {
			out[n-1].hi = hi
			continue
		}
		out = append(out, rng{s, hi})
	}
	return out
}

// pointwise remembers at which values of its only variable a condition was evaluated, and whether it held.
type pointwise struct {
	known, truth map[uint64]uint64 // bit sets by value/64
}

func (T *Terms) holdsAt(c *Term, v int32, x uint64) bool {
	if c.points == nil {
		c.points = &pointwise{map[uint64]uint64{}, map[uint64]uint64{}}
	}
	p := c.points
	k, bit := x>>6, uint64(1)<<(x&63)
	if p.known[k]&bit == 0 {
		if len(T.scratch) <= int(v) {
			T.scratch = make(Model, int(v)+64)
		}
		T.scratch[v] = x
		p.known[k] |= bit
		if T.Eval(c, T.scratch) != 0 {
			p.truth[k] |= bit
		}
	}
	return p.truth[k]&bit != 0
}
