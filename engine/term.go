package main

// Hash-consed bit-vector / boolean terms with local simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
	OIte
	OTable
)

// Term is a node; w is the bit width, 0 for Bool.
type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	val     uint64 // const value, var index
	tab     *Table
	lo, hi  uint64  // static unsigned interval
	vars    []int32 // sorted variable indices
	canon   *Term
	dom     *[4]uint64
	rdom    *rdomain
	points  *pointwise
	emitted int32 // solver generation in which a define-fun was emitted
}

// Table is a total function from a bit-vector to a bit-vector (or Bool), stored as runs.
type Table struct {
	id     int
	inW    uint8
	outW   uint8
	starts []uint64
	vals   []uint64
}

func (t *Table) lookup(x uint64) uint64 {
	i := sort.Search(len(t.starts), func(i int) bool { return t.starts[i] > x }) - 1
	return t.vals[i]
}

func newTable(id int, inW, outW uint8, n int, def uint64, f func(i uint64) uint64) *Table {
	t := &Table{id: id, inW: inW, outW: outW}
	var last uint64
	for i := 0; i < n; i++ {
		v := f(uint64(i))
		if i == 0 || v != last {
			t.starts = append(t.starts, uint64(i))
			t.vals = append(t.vals, v)
			last = v
		}
	}
	if n == 0 || (last != def && (inW == 64 || uint64(n) <= mask(inW))) {
		t.starts = append(t.starts, uint64(n))
		t.vals = append(t.vals, def)
	}
	return t
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	tab     *Table
}

type varInfo struct {
	name string
	w    uint8
}

type Terms struct {
	scratch Model
	m       map[termKey]*Term
	nextID  int32
	vars    []varInfo
	tt, ff  *Term
	comp    map[compKey]*Table
	ntab    int
	tabs    map[string]*Table
	// bounds of variables along the current path (narrowing); nil when unused
	plo, phi []uint64
}

func NewTerms() *Terms {
	T := &Terms{m: map[termKey]*Term{}, comp: map[compKey]*Table{}, ntab: 1000000}
	T.tt = T.mk(OConst, 0, nil, nil, nil, 1, nil)
	T.ff = T.mk(OConst, 0, nil, nil, nil, 0, nil)
	return T
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func mergeVars(ts ...*Term) []int32 {
	var res []int32
	for _, t := range ts {
		if t == nil || len(t.vars) == 0 {
			continue
		}
		if res == nil {
			res = t.vars
			continue
		}
		// merge sorted
		a, b := res, t.vars
		if len(a) == len(b) {
			same := true
			for i := range a {
				if a[i] != b[i] {
					same = false
					break
				}
			}
			if same {
				continue
			}
		}
		out := make([]int32, 0, len(a)+len(b))
		i, j := 0, 0
		for i < len(a) || j < len(b) {
			switch {
			case j >= len(b) || (i < len(a) && a[i] < b[j]):
				out = append(out, a[i])
				i++
			case i >= len(a) || b[j] < a[i]:
				out = append(out, b[j])
				j++
			default:
				out = append(out, a[i])
				i++
				j++
			}
		}
		res = out
	}
	return res
}

func (T *Terms) mk(op Op, w uint8, a, b, c *Term, val uint64, tab *Table) *Term {
	k := termKey{op, w, tid(a), tid(b), tid(c), val, tab}
	if t, ok := T.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, id: T.nextID, a: a, b: b, c: c, val: val, tab: tab}
	T.nextID++
	t.vars = mergeVars(a, b, c)
	t.lo, t.hi = T.interval1(t)
	T.m[k] = t
	return t
}

func (T *Terms) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return T.tt
		}
		return T.ff
	}
	return T.mk(OConst, w, nil, nil, nil, v&mask(w), nil)
}

func (T *Terms) Bool(b bool) *Term {
	if b {
		return T.tt
	}
	return T.ff
}

func (T *Terms) Var(name string, w uint8) *Term {
	i := len(T.vars)
	T.vars = append(T.vars, varInfo{name, w})
	t := T.mk(OVar, w, nil, nil, nil, uint64(i), nil)
	t.vars = []int32{int32(i)}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// interval1 computes the interval of t from its children's static intervals.
func (T *Terms) interval1(t *Term) (uint64, uint64) {
	var alo, ahi, blo, bhi uint64
	if t.a != nil {
		alo, ahi = t.a.lo, t.a.hi
	}
	if t.b != nil {
		blo, bhi = t.b.lo, t.b.hi
	}
	var clo, chi uint64
	if t.c != nil {
		clo, chi = t.c.lo, t.c.hi
	}
	return intervalOp(t, alo, ahi, blo, bhi, clo, chi)
}

func intervalOp(t *Term, alo, ahi, blo, bhi, clo, chi uint64) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OAdd, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		if alo == ahi && blo == bhi {
			x := evalBin(t.op, t.w, alo, blo)
			return x, x
		}
	}
	switch t.op {
	case OConst:
		return t.val, t.val
	case OVar:
		return 0, m
	case OAdd:
		lo, c1 := bits.Add64(alo, blo, 0)
		hi, c2 := bits.Add64(ahi, bhi, 0)
		if c1 == c2 && (c1 == 0 && hi <= m || c1 == 1 && t.w == 64) {
			return lo, hi
		}
		if t.w < 64 && lo > m && hi <= 2*m+1 { // both wrapped exactly once
			return lo & m, hi & m
		}
		return 0, m
	case OMul:
		h, hi := bits.Mul64(ahi, bhi)
		if h == 0 && hi <= m {
			return alo * blo, hi
		}
		return 0, m
	case OUDiv:
		if blo > 0 {
			return alo / bhi, ahi / blo
		}
		return 0, m
	case OURem:
		if blo > 0 {
			if bhi-1 < ahi {
				return 0, bhi - 1
			}
			return 0, ahi
		}
		return 0, m
	case OAnd, OOr, OXor:
		// the bits above the highest one in which an operand varies are known
		low := (uint64(1) << bits.Len64((alo^ahi)|(blo^bhi))) - 1
		if bits.Len64((alo^ahi)|(blo^bhi)) == 64 {
			low = ^uint64(0)
		}
		if blo != bhi {
			alo, ahi, blo, bhi = blo, bhi, alo, ahi
		}
		if blo == bhi { // one is constant: monotone when it keeps, sets or clears the varying bits uniformly, low or high
			switch c := blo & low; {
			case t.op == OAnd && ((c+1)&c == 0 && (alo^ahi)&^c == 0 || c == low || (low^c)&((low^c)+1) == 0):
				return alo & blo, ahi & blo
			case t.op == OOr && c == 0, t.op == OXor && c == 0:
				return evalBin(t.op, t.w, alo, blo), evalBin(t.op, t.w, ahi, blo)
			}
		}
		if low>>1 != ^uint64(0)>>1 {
			plo := evalBin(t.op, t.w, alo, blo) &^ low
			phi := plo | low
			if t.op == OAnd {
				if ahi < phi {
					phi = ahi
				}
				if bhi < phi {
					phi = bhi
				}
				if blo == bhi && plo|blo&low < phi {
					phi = plo | blo&low
				}
			}
			if t.op == OOr {
				if alo > plo {
					plo = alo
				}
				if blo > plo {
					plo = blo
				}
			}
			return plo, phi
		}
		if t.op == OAnd {
			if ahi < bhi {
				return 0, ahi
			}
			return 0, bhi
		}
		n := bits.Len64(ahi | bhi)
		hi := uint64(0)
		if n >= 64 {
			hi = ^uint64(0)
		} else {
			hi = (uint64(1) << n) - 1
		}
		lo := uint64(0)
		if t.op == OOr {
			lo = alo
			if blo > lo {
				lo = blo
			}
		}
		return lo, hi
	case OShl:
		if blo == bhi && blo < 64 {
			if ahi <= m>>blo {
				return alo << blo, ahi << blo
			}
		}
		return 0, m
	case OLshr:
		if blo == bhi {
			if blo >= 64 {
				return 0, 0
			}
			return alo >> blo, ahi >> blo
		}
		return 0, ahi
	case OZext:
		return alo, ahi
	case OSext:
		if ahi < uint64(1)<<(t.a.w-1) {
			return alo, ahi
		}
		return 0, m
	case OTrunc:
		if alo>>t.w == ahi>>t.w {
			return alo & m, ahi & m
		}
		return 0, m
	case OIte:
		lo, hi := blo, bhi
		if clo < lo {
			lo = clo
		}
		if chi > hi {
			hi = chi
		}
		return lo, hi
	case OTable:
		lo, hi := ^uint64(0), uint64(0)
		i := sort.Search(len(t.tab.starts), func(i int) bool { return t.tab.starts[i] > alo }) - 1
		if i < 0 {
			i = 0
		}
		for ; i < len(t.tab.starts) && t.tab.starts[i] <= ahi; i++ {
			v := t.tab.vals[i]
			if v < lo {
				lo = v
			}
			if v > hi {
				hi = v
			}
		}
		return lo, hi
	case OEq:
		if ahi < blo || bhi < alo {
			return 0, 0
		}
		if alo == ahi && blo == bhi && alo == blo {
			return 1, 1
		}
		return 0, 1
	case OUlt:
		if ahi < blo {
			return 1, 1
		}
		if alo >= bhi {
			return 0, 0
		}
		return 0, 1
	case OUle:
		if ahi <= blo {
			return 1, 1
		}
		if alo > bhi {
			return 0, 0
		}
		return 0, 1
	case OSlt, OSle:
		h := uint64(1) << (t.a.w - 1)
		as, bs := alo >= h, blo >= h
		if as != (ahi >= h) || bs != (bhi >= h) {
			return 0, 1
		}
		if as != bs { // different signs: a negative => a<b
			if as {
				return 1, 1
			}
			return 0, 0
		}
		// same sign: compare unsigned
		if t.op == OSlt {
			if ahi < blo {
				return 1, 1
			}
			if alo >= bhi {
				return 0, 0
			}
		} else {
			if ahi <= blo {
				return 1, 1
			}
			if alo > bhi {
				return 0, 0
			}
		}
		return 0, 1
	case OBAnd:
		if ahi == 0 || bhi == 0 {
			return 0, 0
		}
		if alo == 1 && blo == 1 {
			return 1, 1
		}
		return 0, 1
	case OBOr:
		if alo == 1 || blo == 1 {
			return 1, 1
		}
		if ahi == 0 && bhi == 0 {
			return 0, 0
		}
		return 0, 1
	case OBNot:
		return 1 - ahi, 1 - alo
	}
	return 0, m
}

// pathInterval computes t's interval using the per-path variable bounds.
func (T *Terms) pathInterval(t *Term) (uint64, uint64) {
	if len(t.vars) == 0 {
		return t.lo, t.hi
	}
	memo := map[int32][2]uint64{}
	return T.pathInt(t, memo)
}

func (T *Terms) pathInt(t *Term, memo map[int32][2]uint64) (uint64, uint64) {
	if t.op == OConst {
		return t.val, t.val
	}
	if t.op == OVar {
		i := int(t.val)
		if i < len(T.plo) {
			return T.plo[i], T.phi[i]
		}
		return t.lo, t.hi
	}
	if r, ok := memo[t.id]; ok {
		return r[0], r[1]
	}
	var alo, ahi, blo, bhi, clo, chi uint64
	if t.a != nil {
		alo, ahi = T.pathInt(t.a, memo)
	}
	if t.b != nil {
		blo, bhi = T.pathInt(t.b, memo)
	}
	if t.c != nil {
		clo, chi = T.pathInt(t.c, memo)
	}
	if t.op == OIte {
		if alo == 1 {
			return blo, bhi
		}
		if ahi == 0 {
			return clo, chi
		}
	}
	lo, hi := intervalOp(t, alo, ahi, blo, bhi, clo, chi)
	if lo < t.lo {
		lo = t.lo
	}
	if hi > t.hi {
		hi = t.hi
	}
	memo[t.id] = [2]uint64{lo, hi}
	return lo, hi
}

func (T *Terms) fin(t *Term) *Term {
	if t.lo == t.hi && t.op != OConst {
		return T.Const(t.w, t.lo)
	}
	if t.canon != nil {
		return t.canon
	}
	c := T.canonical(t)
	t.canon = c
	return c
}

type compKey struct {
	op   Op
	w    uint8
	a, b *Table
	k    uint64
	side uint8
}

const maxRuns = 3000

func (T *Terms) newRuns(inW, outW uint8) *Table {
	T.ntab++
	return &Table{id: T.ntab, inW: inW, outW: outW}
}

func (t *Table) push(s, v uint64) {
	if n := len(t.starts); n > 0 && t.vals[n-1] == v {
		return
	}
	t.starts = append(t.starts, s)
	t.vals = append(t.vals, v)
}

// canonical folds constants into tables, joins tables over the same index, and turns
// every predicate over a single byte variable into a membership table of that byte.
func (T *Terms) canonical(t *Term) *Term {
	switch t.op {
	case OTable:
		// table of a table
		if t.a.op == OTable && len(t.a.tab.starts) <= maxRuns {
			return T.compose1(compKey{OTable, t.w, t.a.tab, t.tab, 0, 0}, t.a, t.w, func(v uint64) uint64 { return t.tab.lookup(v) })
		}
		return t
	case OVar, OConst, OZext:
		return t
	}
	if t.w == 0 && len(t.vars) == 1 && T.vars[t.vars[0]].w == 8 {
		v := T.mk(OVar, 8, nil, nil, nil, uint64(t.vars[0]), nil)
		tab := T.newRuns(8, 0)
		m := make(Model, t.vars[0]+1)
		for i := 0; i < 256; i++ {
			m[t.vars[0]] = uint64(i)
			ev := evaluator{m: m, memo: map[int32]uint64{}}
			tab.push(uint64(i), ev.eval(t))
		}
		return T.applyCanon(tab, v)
	}
	isTab := func(x *Term) bool { return x != nil && x.op == OTable && len(x.tab.starts) <= maxRuns }
	switch t.op {
	case OBNot:
		if isTab(t.a) {
			return T.compose1(compKey{OBNot, 0, t.a.tab, nil, 0, 0}, t.a, 0, func(v uint64) uint64 { return 1 - v })
		}
		return t
	case OTrunc:
		if isTab(t.a) {
			return T.compose1(compKey{OTrunc, t.w, t.a.tab, nil, 0, 0}, t.a, t.w, func(v uint64) uint64 { return v & mask(t.w) })
		}
		return t
	case OIte:
		if isTab(t.a) && t.b.isConst() && t.c.isConst() {
			x, y := t.b.val, t.c.val
			T.ntab++ // (keyed by both constants: no cache)
			return T.compose1(compKey{OIte, t.w, t.a.tab, nil, 0, 9}, t.a, t.w, func(v uint64) uint64 {
				if v != 0 {
					return x
				}
				return y
			})
		}
		return t
	}
	if t.a == nil || t.b == nil {
		return t
	}
	ev := func(x, y uint64) uint64 {
		w := t.a.w
		switch t.op {
		case OEq:
			return b2u(x == y)
		case OUlt:
			return b2u(x < y)
		case OUle:
			return b2u(x <= y)
		case OSlt:
			return b2u(sext64(x, w) < sext64(y, w))
		case OSle:
			return b2u(sext64(x, w) <= sext64(y, w))
		case OBAnd:
			return x & y
		case OBOr:
			return x | y
		}
		return evalBin(t.op, w, x, y)
	}
	switch {
	case isTab(t.a) && t.b.isConst():
		k := t.b.val
		return T.compose1(compKey{t.op, t.w, t.a.tab, nil, k, 1}, t.a, t.w, func(v uint64) uint64 { return ev(v, k) })
	case isTab(t.b) && t.a.isConst():
		k := t.a.val
		return T.compose1(compKey{t.op, t.w, t.b.tab, nil, k, 2}, t.b, t.w, func(v uint64) uint64 { return ev(k, v) })
	case isTab(t.a) && isTab(t.b) && t.a.a == t.b.a && len(t.a.tab.starts)+len(t.b.tab.starts) <= maxRuns:
		key := compKey{t.op, t.w, t.a.tab, t.b.tab, 0, 3}
		tab := T.comp[key]
		if tab == nil {
			p, q := t.a.tab, t.b.tab
			tab = T.newRuns(p.inW, t.w)
			i, j := 0, 0
			for i < len(p.starts) || j < len(q.starts) {
				var s uint64
				switch {
				case j >= len(q.starts) || (i < len(p.starts) && p.starts[i] <= q.starts[j]):
					s = p.starts[i]
				default:
					s = q.starts[j]
				}
				for i < len(p.starts) && p.starts[i] == s {
					i++
				}
				for j < len(q.starts) && q.starts[j] == s {
					j++
				}
				tab.push(s, ev(p.vals[i-1], q.vals[j-1]))
			}
			T.comp[key] = tab
		}
		return T.applyCanon(tab, t.a.a)
	}
	return t
}

func (T *Terms) compose1(key compKey, t *Term, outW uint8, f func(v uint64) uint64) *Term {
	tab := T.comp[key]
	if tab == nil || key.side == 9 {
		tab = T.newRuns(t.tab.inW, outW)
		for i, s := range t.tab.starts {
			tab.push(s, f(t.tab.vals[i]))
		}
		if key.side != 9 {
			T.comp[key] = tab
		}
	}
	return T.applyCanon(tab, t.a)
}

// applyCanon applies a table, interning small boolean tables by content.
func (T *Terms) applyCanon(tab *Table, x *Term) *Term {
	if len(tab.starts) == 1 {
		return T.Const(tab.outW, tab.vals[0])
	}
	return T.Apply(T.intern(tab), x)
}

func (T *Terms) intern(tab *Table) *Table {
	var b strings.Builder
	fmt.Fprintf(&b, "%d.%d", tab.inW, tab.outW)
	for i := range tab.starts {
		fmt.Fprintf(&b, ",%x:%x", tab.starts[i], tab.vals[i])
	}
	k := b.String()
	if T.tabs == nil {
		T.tabs = map[string]*Table{}
	}
	if t := T.tabs[k]; t != nil {
		return t
	}
	T.tabs[k] = tab
	return tab
}

func (T *Terms) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return T.Bool(a.val == 0)
	case OBNot:
		return a.a
	case OUlt:
		return T.Ule(a.b, a.a)
	case OUle:
		return T.Ult(a.b, a.a)
	case OSlt:
		return T.Sle(a.b, a.a)
	case OSle:
		return T.Slt(a.b, a.a)
	}
	return T.fin(T.mk(OBNot, 0, a, nil, nil, 0, nil))
}

func (T *Terms) And(a, b *Term) *Term {
	if a == T.ff || b == T.ff {
		return T.ff
	}
	if a == T.tt {
		return b
	}
	if b == T.tt || a == b {
		return a
	}
	if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
		return T.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.fin(T.mk(OBAnd, 0, a, b, nil, 0, nil))
}

func (T *Terms) Or(a, b *Term) *Term {
	if a == T.tt || b == T.tt {
		return T.tt
	}
	if a == T.ff {
		return b
	}
	if b == T.ff || a == b {
		return a
	}
	if a.op == OBNot && a.a == b || b.op == OBNot && b.a == a {
		return T.tt
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.fin(T.mk(OBOr, 0, a, b, nil, 0, nil))
}

func (T *Terms) AndN(ts []*Term) *Term {
	if len(ts) == 0 {
		return T.tt
	}
	if len(ts) == 1 {
		return ts[0]
	}
	h := len(ts) / 2
	return T.And(T.AndN(ts[:h]), T.AndN(ts[h:]))
}

func (T *Terms) OrN(ts []*Term) *Term {
	if len(ts) == 0 {
		return T.ff
	}
	if len(ts) == 1 {
		return ts[0]
	}
	h := len(ts) / 2
	return T.Or(T.OrN(ts[:h]), T.OrN(ts[h:]))
}

func (T *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OBNot {
		return T.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a == T.tt && b == T.ff {
			return c
		}
		if a == T.ff && b == T.tt {
			return T.Not(c)
		}
		if a == T.tt {
			return T.Or(c, b)
		}
		if a == T.ff {
			return T.And(T.Not(c), b)
		}
		if b == T.tt {
			return T.Or(T.Not(c), a)
		}
		if b == T.ff {
			return T.And(c, a)
		}
	}
	return T.fin(T.mk(OIte, a.w, c, a, b, 0, nil))
}

func (T *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return T.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.isConst() { // both const, different nodes
		return T.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return T.Not(a)
		}
		return T.Or(T.And(a, b), T.And(T.Not(a), T.Not(b)))
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return T.ff
			}
			return T.Eq(a.a, T.Const(a.a.w, b.val))
		case OSext:
			tv := b.val & mask(a.a.w)
			if uint64(sext64(tv, a.a.w))&mask(a.w) != b.val {
				return T.ff
			}
			return T.Eq(a.a, T.Const(a.a.w, tv))
		case OAdd:
			if a.b.isConst() {
				return T.Eq(a.a, T.Const(a.w, b.val-a.b.val))
			}
		case OXor:
			if a.b.isConst() {
				return T.Eq(a.a, T.Const(a.w, b.val^a.b.val))
			}
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return T.Ite(a.a, T.Eq(a.b, b), T.Eq(a.c, b))
			}
		case OTable:
			// equality with a table value: a boolean table
			return T.tableEq(a, b.val)
		}
	} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return T.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.fin(T.mk(OEq, 0, a, b, nil, 0, nil))
}

func (T *Terms) tableEq(a *Term, v uint64) *Term {
	t := T.mk(OEq, 0, a, T.Const(a.w, v), nil, 0, nil)
	return T.fin(t)
}

func (T *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return T.ff
	}
	if b.isConst() && b.val == 0 {
		return T.ff
	}
	if a.op == OZext && b.isConst() {
		if b.val > mask(a.a.w) {
			return T.tt
		}
		return T.Ult(a.a, T.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		if a.val >= mask(b.a.w) {
			return T.ff
		}
		return T.Ult(T.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return T.Ult(a.a, b.a)
	}
	return T.fin(T.mk(OUlt, 0, a, b, nil, 0, nil))
}

func (T *Terms) Ule(a, b *Term) *Term {
	if a == b {
		return T.tt
	}
	if a.isConst() && a.val == 0 {
		return T.tt
	}
	if a.op == OZext && b.isConst() {
		if b.val >= mask(a.a.w) {
			return T.tt
		}
		return T.Ule(a.a, T.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		if a.val > mask(b.a.w) {
			return T.ff
		}
		return T.Ule(T.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return T.Ule(a.a, b.a)
	}
	return T.fin(T.mk(OUle, 0, a, b, nil, 0, nil))
}

func (T *Terms) nonneg(a *Term) bool { return a.hi < uint64(1)<<(a.w-1) }

func (T *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return T.ff
	}
	if T.nonneg(a) && T.nonneg(b) {
		return T.Ult(a, b)
	}
	return T.fin(T.mk(OSlt, 0, a, b, nil, 0, nil))
}

func (T *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return T.tt
	}
	if T.nonneg(a) && T.nonneg(b) {
		return T.Ule(a, b)
	}
	return T.fin(T.mk(OSle, 0, a, b, nil, 0, nil))
}

func (T *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.Const(w, a.val)
	}
	if a.op == OZext {
		return T.Zext(a.a, w)
	}
	return T.mk(OZext, w, a, nil, nil, 0, nil)
}

func (T *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.Const(w, uint64(sext64(a.val, a.w)))
	}
	if T.nonneg(a) {
		return T.Zext(a, w)
	}
	if a.op == OTable && len(a.tab.starts) <= maxRuns {
		return T.compose1(compKey{OSext, w, a.tab, nil, 0, 0}, a, w, func(v uint64) uint64 { return uint64(sext64(v, a.w)) & mask(w) })
	}
	return T.mk(OSext, w, a, nil, nil, 0, nil)
}

func (T *Terms) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return T.Const(w, a.val)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return T.Trunc(a.a, w)
		}
		if a.op == OZext {
			return T.Zext(a.a, w)
		}
		return T.Sext(a.a, w)
	case OTrunc:
		return T.Trunc(a.a, w)
	case OAdd, OAnd, OOr, OXor:
		if a.b.isConst() {
			return T.Bin(a.op, T.Trunc(a.a, w), T.Const(w, a.b.val))
		}
		if a.op != OAdd {
			return T.Bin(a.op, T.Trunc(a.a, w), T.Trunc(a.b, w))
		}
	case OIte:
		return T.Ite(a.a, T.Trunc(a.b, w), T.Trunc(a.c, w))
	}
	return T.fin(T.mk(OTrunc, w, a, nil, nil, 0, nil))
}

func commutative(op Op) bool {
	return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			return m
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		if y == 0 {
			return x
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := y
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>s) & m
	}
	panic("evalBin")
}

func (T *Terms) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %d width %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		return T.Const(w, evalBin(op, w, a.val, b.val))
	}
	if commutative(op) {
		if a.isConst() || (!b.isConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	m := mask(w)
	if b.isConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return T.Bin(OAdd, a.a, T.Const(w, a.b.val+v))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return T.Ite(a.a, T.Const(w, a.b.val+v), T.Const(w, a.c.val+v))
			}
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OAnd:
			if v == 0 {
				return b
			}
			if v == m {
				return a
			}
			if v&(v+1) == 0 && a.hi <= v {
				return a
			}
			if a.op == OAnd && a.b.isConst() {
				return T.Bin(OAnd, a.a, T.Const(w, a.b.val&v))
			}
			if a.op == OZext {
				return T.Zext(T.Bin(OAnd, a.a, T.Const(a.a.w, v)), w)
			}
		case OOr:
			if v == 0 {
				return a
			}
			if v == m {
				return b
			}
		case OXor:
			if v == 0 {
				return a
			}
		case OShl, OLshr, OAshr:
			if v == 0 {
				return a
			}
			if op != OAshr && v >= uint64(w) {
				return T.Const(w, 0)
			}
			if op == OAshr && T.nonneg(a) {
				return T.Bin(OLshr, a, b)
			}
		case OUDiv:
			if v == 1 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OAnd, OOr:
			return a
		case OXor:
			return T.Const(w, 0)
		}
	}
	return T.fin(T.mk(op, w, a, b, nil, 0, nil))
}

func (T *Terms) Neg(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.w, -a.val)
	}
	return T.Bin(OAdd, T.Bin(OXor, a, T.Const(a.w, mask(a.w))), T.Const(a.w, 1))
}

func (T *Terms) Sub(a, b *Term) *Term {
	if a == b {
		return T.Const(a.w, 0)
	}
	return T.Bin(OAdd, a, T.Neg(b))
}

func (T *Terms) Apply(tab *Table, x *Term) *Term {
	if x.isConst() {
		return T.Const(tab.outW, tab.lookup(x.val))
	}
	if x.w != tab.inW {
		panic("Apply width")
	}
	return T.fin(T.mk(OTable, tab.outW, x, nil, nil, 0, tab))
}

// ---- evaluation under a model ----

type Model []uint64 // by variable index; missing = 0

func (m Model) get(i int) uint64 {
	if i < len(m) {
		return m[i]
	}
	return 0
}

type evaluator struct {
	m    Model
	memo map[int32]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m.get(int(t.val))
	case OZext:
		return e.eval(t.a)
	case OBNot:
		return 1 - e.eval(t.a)
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OSext:
		r = uint64(sext64(e.eval(t.a), t.a.w)) & mask(t.w)
	case OTrunc:
		r = e.eval(t.a) & mask(t.w)
	case OEq:
		r = b2u(e.eval(t.a) == e.eval(t.b))
	case OUlt:
		r = b2u(e.eval(t.a) < e.eval(t.b))
	case OUle:
		r = b2u(e.eval(t.a) <= e.eval(t.b))
	case OSlt:
		r = b2u(sext64(e.eval(t.a), t.a.w) < sext64(e.eval(t.b), t.a.w))
	case OSle:
		r = b2u(sext64(e.eval(t.a), t.a.w) <= sext64(e.eval(t.b), t.a.w))
	case OBAnd:
		r = e.eval(t.a)
		if r != 0 {
			r = e.eval(t.b)
		}
	case OBOr:
		r = e.eval(t.a)
		if r == 0 {
			r = e.eval(t.b)
		}
	case OIte:
		if e.eval(t.a) != 0 {
			r = e.eval(t.b)
		} else {
			r = e.eval(t.c)
		}
	case OTable:
		r = t.tab.lookup(e.eval(t.a))
	default:
		r = evalBin(t.op, t.w, e.eval(t.a), e.eval(t.b))
	}
	e.memo[t.id] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (T *Terms) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	e := evaluator{m, map[int32]uint64{}}
	return e.eval(t)
}

// ---- SMT-LIB ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

var opNames = map[Op]string{OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

// smtRef returns the text naming t (after emit).
func smtRef(t *Term) string {
	switch t.op {
	case OConst:
		return constSMT(t.w, t.val)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

// smtBody returns the defining text of t in terms of its children's names.
func smtBody(t *Term) string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, smtRef(t.a))
	case OTable:
		return fmt.Sprintf("(tab%d %s)", t.tab.id, smtRef(t.a))
	case OBNot:
		return fmt.Sprintf("(not %s)", smtRef(t.a))
	case OIte:
		return fmt.Sprintf("(ite %s %s %s)", smtRef(t.a), smtRef(t.b), smtRef(t.c))
	}
	return fmt.Sprintf("(%s %s %s)", opNames[t.op], smtRef(t.a), smtRef(t.b))
}

// smtTable returns a define-fun for tab as a balanced ite tree over its runs.
func smtTable(t *Table) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(define-fun tab%d ((x %s)) %s ", t.id, sortName(t.inW), sortName(t.outW))
	if t.outW == 0 {
		// disjunction of ranges, as a balanced ite tree
	}
	var rec func(lo, hi int)
	rec = func(lo, hi int) {
		if hi-lo == 1 {
			b.WriteString(constSMT(t.outW, t.vals[lo]))
			return
		}
		mid := (lo + hi) / 2
		fmt.Fprintf(&b, "(ite (bvult x %s) ", constSMT(t.inW, t.starts[mid]))
		rec(lo, mid)
		b.WriteByte(' ')
		rec(mid, hi)
		b.WriteByte(')')
	}
	rec(0, len(t.starts))
	b.WriteString(")")
	return b.String()
}

// domain lists the values of c's only variable (at most 8 bits wide) that satisfy c.
func (T *Terms) domain(c *Term) *[4]uint64 {
	if c.dom != nil {
		return c.dom
	}
	var d [4]uint64
	v := c.vars[0]
	m := make(Model, int(v)+1)
	n := uint64(1) << T.vars[v].w
	if T.vars[v].w == 0 {
		n = 2
	}
	for x := uint64(0); x < n; x++ {
		m[v] = x
		if T.Eval(c, m) != 0 {
			d[x>>6] |= 1 << (x & 63)
		}
	}
	c.dom = &d
	return c.dom
}
