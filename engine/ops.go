package main

// Memory, strings, maps, calls, builtins.

import (
	"fmt"
	"go/types"
	"sort"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func sortedKeys(m map[uint64]int) []uint64 {
	ks := make([]uint64, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func (e *E) describe(v V) string {
	switch x := v.r.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case *Iface:
		return fmt.Sprintf("%s %s", x.t, e.describe(x.v))
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		return "symbolic string"
	case *Term:
		return "symbolic"
	}
	return fmt.Sprintf("%T", v.r)
}

// ---- tables over memory ----

func stripZext(t *Term) *Term {
	if t.op == OZext {
		return t.a
	}
	return t
}

func (e *E) strTable(s string) *strTab {
	if t, ok := e.strTabs[s]; ok {
		return t
	}
	t := &strTab{s: s, tabs: map[uint8]*Table{}}
	e.strTabs[s] = t
	return t
}

type strTab struct {
	s    string
	tabs map[uint8]*Table
}

func (e *E) applyIdx(st *strTab, t *Term) *Term {
	x := stripZext(t)
	tab := st.tabs[x.w]
	if tab == nil {
		e.ntab++
		n := len(st.s)
		if x.w < 64 && uint64(n) > mask(x.w)+1 {
			n = int(mask(x.w)) + 1
		}
		tab = newTable(e.ntab, x.w, 8, n, 0, func(i uint64) uint64 { return uint64(st.s[i]) })
		st.tabs[x.w] = tab
	}
	return e.T.Apply(tab, x)
}

// selectCells reads cells[base+idx*stride] for a symbolic, in-range idx.
func (e *E) selectCells(cells []V, base, stride, n int, t *Term, w uint8) V {
	return e.selectObj(nil, cells, base, stride, n, t, w)
}

func (e *E) selectObj(o *Obj, cells []V, base, stride, n int, t *Term, w uint8) V {
	x := stripZext(t)
	var key tabKey
	if o != nil {
		key = tabKey{o, o.ver, base, n, stride, int(x.w), w}
		if tab, ok := e.tables[key]; ok {
			return vTerm(e.T.Apply(tab, x))
		}
	}
	allConc := true
	for i := 0; i < n; i++ {
		if cells[base+i*stride].r != nil {
			allConc = false
			break
		}
	}
	if allConc {
		e.ntab++
		m := n
		if x.w < 64 && uint64(m) > mask(x.w)+1 {
			m = int(mask(x.w)) + 1
		}
		tab := newTable(e.ntab, x.w, w, m, 0, func(i uint64) uint64 { return cells[base+int(i)*stride].n })
		if o != nil {
			e.tables[key] = tab
		}
		return vTerm(e.T.Apply(tab, x))
	}
	if n <= 128 {
		lo, hi := e.T.pathInterval(t)
		if hi >= uint64(n) {
			hi = uint64(n - 1)
		}
		var acc *Term
		for i := int(hi); i >= int(lo); i-- {
			c := cells[base+i*stride]
			ct, ok := c.r.(*Term)
			if !ok {
				ct = e.T.Const(w, c.n)
			}
			if acc == nil {
				acc = ct
			} else {
				acc = e.T.Ite(e.T.Eq(t, e.T.Const(64, uint64(i))), ct, acc)
			}
		}
		return vTerm(acc)
	}
	k := e.concInt(V{r: t})
	return cells[base+k*stride]
}

func (e *E) concPtr(p V) V {
	sp, ok := p.r.(*SymPtr)
	if !ok {
		return p
	}
	k := e.concInt(V{r: sp.idx})
	return V{n: uint64(sp.base + k*sp.stride + sp.add), r: sp.obj}
}

func (e *E) load(p V, l *Layout) (V, bool) {
	switch o := p.r.(type) {
	case *Obj:
		if e.conc {
			e.touch(o, int(p.n), l.size, false)
		}
		if !l.agg {
			v := o.cells[p.n]
			if l.isStr {
				if s, ok := v.r.(*Slice); ok {
					// a slice header read as a string header
					if s.len == 0 {
						return V{}, true
					}
					return V{r: &AStr{s.obj, s.off, s.len}}, true
				}
			}
			return v, true
		}
		a := make(Agg, l.size)
		copy(a, o.cells[p.n:int(p.n)+l.size])
		return V{r: a}, true
	case *SymPtr:
		base := o.base + o.add
		if l.scalar {
			return e.selectObj(o.obj, o.obj.cells, base, o.stride, o.n, o.idx, l.w), true
		}
		// identical cells?
		same := l.size == 1
		for i := 1; same && i < o.n; i++ {
			same = sameV(o.obj.cells[base], o.obj.cells[base+i*o.stride])
		}
		if same {
			return o.obj.cells[base], true
		}
		return e.load(e.concPtr(p), l)
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
		return V{}, false
	}
	e.unsupported("load through %T", p.r)
	return V{}, false
}

func (e *E) store(p V, l *Layout, v V) bool {
	if e.merging > 0 {
		panic(mergeBail{})
	}
	p = e.concPtr(p)
	switch o := p.r.(type) {
	case *Obj:
		if e.conc {
			e.touch(o, int(p.n), l.size, true)
		}
		if !l.agg {
			e.write(o, int(p.n), v)
			return true
		}
		a := v.r.(Agg)
		for i := range a {
			e.write(o, int(p.n)+i, a[i])
		}
		return true
	case nil:
		e.rtPanic("invalid memory address or nil pointer dereference")
		return false
	}
	e.unsupported("store through %T", p.r)
	return false
}

// sameV reports that two values are definitely identical.
func sameV(a, b V) bool {
	if a.r == nil || b.r == nil {
		return a.r == nil && b.r == nil && a.n == b.n
	}
	switch x := a.r.(type) {
	case *Term:
		y, ok := b.r.(*Term)
		return ok && x == y
	case *Obj:
		y, ok := b.r.(*Obj)
		return ok && x == y && a.n == b.n
	case *AStr:
		y, ok := b.r.(*AStr)
		return ok && *x == *y
	case string:
		y, ok := b.r.(string)
		return ok && x == y
	case *SStr:
		y, ok := b.r.(*SStr)
		if !ok || len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if !sameV(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.r.(*Iface)
		return ok && x.t == y.t && sameV(x.v, y.v)
	case *Slice:
		y, ok := b.r.(*Slice)
		return ok && *x == *y
	case *Map:
		y, ok := b.r.(*Map)
		return ok && x == y
	case *Closure:
		y, ok := b.r.(*Closure)
		if !ok || x.fn != y.fn || len(x.env) != len(y.env) {
			return false
		}
		for i := range x.env {
			if !sameV(x.env[i], y.env[i]) {
				return false
			}
		}
		return true
	case Agg:
		y, ok := b.r.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameV(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- equality ----

func (e *E) strEq(a, b V) *Term {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return e.T.Bool(x == y)
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return e.T.ff
	}
	ts := make([]*Term, 0, n)
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.r == nil && y.r == nil {
			if x.n != y.n {
				return e.T.ff
			}
			continue
		}
		t := e.T.Eq(e.term(x, 8), e.term(y, 8))
		if t == e.T.ff {
			return t
		}
		ts = append(ts, t)
	}
	return e.T.AndN(ts)
}

func (e *E) strLess(a, b V) *Term {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return e.T.Bool(x < y)
		}
	}
	la, lb := strLen(a), strLen(b)
	n := la
	if lb < n {
		n = lb
	}
	acc := e.T.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := e.term(strAt(a, i), 8), e.term(strAt(b, i), 8)
		acc = e.T.Or(e.T.Ult(x, y), e.T.And(e.T.Eq(x, y), acc))
	}
	return acc
}

// equal returns the term for a == b. ok is false when a panic was started.
func (e *E) equal(a, b V, xt, yt types.Type) (*Term, bool) {
	l := e.tc.layout(xt)
	switch {
	case l.scalar:
		return e.T.Eq(e.term(a, l.w), e.term(b, l.w)), true
	case l.float:
		return e.T.Bool(f64(a) == f64(b)), true
	}
	return e.eqDyn(a, b)
}

func (e *E) eqDyn(a, b V) (*Term, bool) {
	if a.r == nil && b.r == nil {
		return e.T.Bool(a.n == b.n), true
	}
	isStr := func(v V) bool {
		switch v.r.(type) {
		case string, *SStr, *AStr:
			return true
		}
		return false
	}
	if isStr(a) || isStr(b) {
		return e.strEq(a, b), true
	}
	if t, ok := a.r.(*Term); ok {
		return e.T.Eq(t, e.term(b, t.w)), true
	}
	if t, ok := b.r.(*Term); ok {
		return e.T.Eq(t, e.term(a, t.w)), true
	}
	if _, ok := a.r.(*SymPtr); ok {
		a = e.concPtr(a)
	}
	if _, ok := b.r.(*SymPtr); ok {
		b = e.concPtr(b)
	}
	switch x := a.r.(type) {
	case *Obj:
		y, ok := b.r.(*Obj)
		return e.T.Bool(ok && x == y && a.n == b.n), true
	case *Iface:
		y, ok := b.r.(*Iface)
		if !ok || x.t != y.t {
			return e.T.ff, true
		}
		switch x.v.r.(type) {
		case *Slice, *Closure:
			e.rtPanic("comparing uncomparable type")
			return nil, false
		case *Map:
			e.rtPanic("comparing uncomparable type")
			return nil, false
		}
		return e.eqDyn(x.v, y.v)
	case Agg:
		y, ok := b.r.(Agg)
		if !ok || len(x) != len(y) {
			return e.T.ff, true
		}
		acc := e.T.tt
		for i := range x {
			t, ok := e.eqDyn(x[i], y[i])
			if !ok {
				return nil, false
			}
			acc = e.T.And(acc, t)
		}
		return acc, true
	case *Map:
		y, ok := b.r.(*Map)
		return e.T.Bool(ok && x == y), true
	}
	if a.r == nil || b.r == nil {
		return e.T.ff, true
	}
	return e.T.Bool(sameV(a, b)), true
}

// ---- UTF-8 ----

func (e *E) inR(b *Term, lo, hi uint64) *Term {
	return e.T.And(e.T.Ule(e.T.Const(8, lo), b), e.T.Ule(b, e.T.Const(8, hi)))
}

func (e *E) decodeRune(at func(int) V, n int) (V, int) {
	b0 := at(0)
	if b0.r == nil && b0.n < 0x80 {
		return V{n: b0.n}, 1
	}
	k := n
	if k > 4 {
		k = 4
	}
	var raw [4]byte
	var t [4]*Term
	conc := true
	for i := 0; i < k; i++ {
		v := at(i)
		if v.r == nil {
			raw[i] = byte(v.n)
			t[i] = e.T.Const(8, v.n)
			continue
		}
		conc = false
		t[i] = v.r.(*Term)
	}
	if conc {
		r, w := utf8.DecodeRune(raw[:k])
		return V{n: uint64(uint32(r))}, w
	}
	T := e.T
	z := func(i int) *Term { return T.Zext(t[i], 32) }
	c32 := func(v uint64) *Term { return T.Const(32, v) }
	cont := func(i int) *Term { return e.inR(t[i], 0x80, 0xbf) }
	ascii := T.Ult(t[0], T.Const(8, 0x80))
	v2, v3, v4 := T.ff, T.ff, T.ff
	if k >= 2 {
		v2 = T.And(e.inR(t[0], 0xc2, 0xdf), cont(1))
	}
	if k >= 3 {
		lead := T.OrN([]*Term{
			T.And(T.Eq(t[0], T.Const(8, 0xe0)), e.inR(t[1], 0xa0, 0xbf)),
			T.And(T.Eq(t[0], T.Const(8, 0xed)), e.inR(t[1], 0x80, 0x9f)),
			T.AndN([]*Term{e.inR(t[0], 0xe1, 0xef), T.Not(T.Eq(t[0], T.Const(8, 0xed))), cont(1)}),
		})
		v3 = T.And(lead, cont(2))
	}
	if k >= 4 {
		lead := T.OrN([]*Term{
			T.And(T.Eq(t[0], T.Const(8, 0xf0)), e.inR(t[1], 0x90, 0xbf)),
			T.And(T.Eq(t[0], T.Const(8, 0xf4)), e.inR(t[1], 0x80, 0x8f)),
			T.And(e.inR(t[0], 0xf1, 0xf3), cont(1)),
		})
		v4 = T.AndN([]*Term{lead, cont(2), cont(3)})
	}
	// the bytes of an encoded rune decode to it
	for w := 2; w <= k; w++ {
		key := runeKey(t[:w])
		if m, ok := e.encoded[key]; ok {
			if r, _ := e.feasible(T.Not(m.cond)); r == Unsat {
				return vTerm(m.r), w
			}
		}
	}
	bad := T.Not(T.OrN([]*Term{ascii, v2, v3, v4}))
	note := func(r *Term, w int, cond *Term) {
		if e.decoded == nil {
			e.decoded = map[int32]decodedRune{}
		}
		m := decodedRune{cond: cond}
		for i := 0; i < w; i++ {
			m.bytes = append(m.bytes, at(i))
		}
		e.decoded[r.id] = m
	}
	switch e.choose([]*Term{ascii, v2, v3, v4, bad}) {
	case 0:
		return vTerm(z(0)), 1
	case 1:
		r := T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(0), c32(0x1f)), c32(6)), T.Bin(OAnd, z(1), c32(0x3f)))
		note(r, 2, v2)
		return vTerm(r), 2
	case 2:
		r := T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(0), c32(0x0f)), c32(12)),
			T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(1), c32(0x3f)), c32(6)), T.Bin(OAnd, z(2), c32(0x3f))))
		note(r, 3, v3)
		return vTerm(r), 3
	case 3:
		r := T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(0), c32(0x07)), c32(18)),
			T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(1), c32(0x3f)), c32(12)),
				T.Bin(OOr, T.Bin(OShl, T.Bin(OAnd, z(2), c32(0x3f)), c32(6)), T.Bin(OAnd, z(3), c32(0x3f)))))
		note(r, 4, v4)
		return vTerm(r), 4
	}
	return V{n: 0xfffd}, 1
}

type encodedRune struct{ r, cond *Term }

type decodedRune struct {
	bytes []V
	cond  *Term
}

func runeKey(ts []*Term) [4]int32 {
	k := [4]int32{-1, -1, -1, -1}
	for i, t := range ts {
		k[i] = t.id
	}
	return k
}

func (e *E) encodeRune(r V) []V {
	t, ok := r.r.(*Term)
	if !ok {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(int32(uint32(r.n))))
		out := make([]V, n)
		for i := range out {
			out[i].n = uint64(b[i])
		}
		return out
	}
	T := e.T
	// a decoded rune encodes to its bytes
	if m, ok := e.decoded[t.id]; ok {
		if r, _ := e.feasible(T.Not(m.cond)); r == Unsat {
			return append([]V(nil), m.bytes...)
		}
	}
	note := func(cond *Term, bs ...V) []V {
		var ts []*Term
		for _, b := range bs {
			x, ok := b.r.(*Term)
			if !ok {
				x = T.Const(8, b.n)
			}
			ts = append(ts, x)
		}
		if e.encoded == nil {
			e.encoded = map[[4]int32]encodedRune{}
		}
		e.encoded[runeKey(ts)] = encodedRune{t, cond}
		return bs
	}
	c := func(v uint64) *Term { return T.Const(32, v) }
	c1 := T.Ult(t, c(0x80))
	c2 := T.And(T.Ule(c(0x80), t), T.Ult(t, c(0x800)))
	sur := T.And(T.Ule(c(0xd800), t), T.Ule(t, c(0xdfff)))
	bad := T.Or(sur, T.Ult(c(0x10ffff), t))
	c3 := T.AndN([]*Term{T.Ule(c(0x800), t), T.Ult(t, c(0x10000)), T.Not(sur)})
	c4 := T.And(T.Ule(c(0x10000), t), T.Ule(t, c(0x10ffff)))
	part := func(sh uint64, m, or uint64) V {
		x := T.Trunc(T.Bin(OAnd, T.Bin(OLshr, t, c(sh)), c(m)), 8)
		return vTerm(T.Bin(OOr, x, T.Const(8, or)))
	}
	switch e.choose([]*Term{c1, c2, c3, c4, bad}) {
	case 0:
		return []V{vTerm(T.Trunc(t, 8))}
	case 1:
		return note(c2, part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80))
	case 2:
		return note(c3, part(12, 0x0f, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80))
	case 3:
		return note(c4, part(18, 0x07, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80))
	}
	return []V{{n: 0xef}, {n: 0xbf}, {n: 0xbd}}
}

// ---- maps ----

func (e *E) newMap() *Map {
	return &Map{idx: map[string]*MapEnt{}, ep: e.epoch, obj: e.newObj(1, "map")}
}

func keyEnc(v V, out []byte) ([]byte, bool) {
	switch x := v.r.(type) {
	case nil:
		out = append(out, 'n')
		for i := 0; i < 8; i++ {
			out = append(out, byte(v.n>>(8*i)))
		}
		return out, true
	case string:
		out = append(out, 's')
		out = append(out, byte(len(x)), byte(len(x)>>8), byte(len(x)>>16))
		return append(out, x...), true
	case *SStr, *Term, *SymPtr:
		return nil, false
	case *AStr:
		return keyEnc(freeze(v), out)
	case *Obj:
		return append(out, fmt.Sprintf("o%d.%d", x.id, v.n)...), true
	case *Iface:
		out = append(out, fmt.Sprintf("i%p", x.t)...)
		return keyEnc(x.v, out)
	case Agg:
		out = append(out, 'a')
		for _, c := range x {
			var ok bool
			if out, ok = keyEnc(c, out); !ok {
				return nil, false
			}
		}
		return out, true
	case *Map:
		return append(out, fmt.Sprintf("m%p", x)...), true
	}
	return append(out, fmt.Sprintf("?%p", v.r)...), true
}

// normalise keys: "" and 0 share the encoding V{}, which is fine inside one map.

func (e *E) mapLookup(m *Map, kt types.Type, k V, fork bool) (*MapEnt, []*MapEnt, []*Term) {
	enc, conc := keyEnc(k, nil)
	if conc {
		if ent := m.idx[string(enc)]; ent != nil && !ent.dead {
			return ent, nil, nil
		}
		if m.nsym == 0 {
			return nil, nil, nil
		}
	}
	var ents []*MapEnt
	var eqs []*Term
	for _, ent := range m.ents {
		if ent.dead {
			continue
		}
		if conc {
			if _, c := keyEnc(ent.k, nil); c {
				continue
			}
		}
		t, ok := e.eqDyn(k, ent.k)
		if !ok || t == e.T.ff {
			continue
		}
		if t == e.T.tt {
			return ent, nil, nil
		}
		if _, hi := e.T.pathInterval(t); hi == 0 {
			continue
		}
		ents = append(ents, ent)
		eqs = append(eqs, t)
	}
	if !fork || len(ents) == 0 {
		return nil, ents, eqs
	}
	any := e.T.OrN(eqs)
	if !e.branch(any) {
		return nil, nil, nil
	}
	return ents[e.choose(eqs)], nil, nil
}

func (e *E) mapGet(m *Map, kt types.Type, k V, vl *Layout) (V, V) {
	if e.conc {
		e.touch(m.obj, 0, 1, false)
	}
	ent, ents, eqs := e.mapLookup(m, kt, k, !vl.scalar)
	if ent != nil {
		return ent.v, V{n: 1}
	}
	if len(ents) == 0 {
		return vl.zero(), V{}
	}
	// merged scalar lookup
	acc := e.T.Const(vl.w, 0)
	for i, x := range ents {
		acc = e.T.Ite(eqs[i], e.term(x.v, vl.w), acc)
	}
	return vTerm(acc), vTerm(e.T.OrN(eqs))
}

func (e *E) mapSet(m *Map, kt types.Type, k, v V) {
	if e.merging > 0 {
		panic(mergeBail{})
	}
	ent, _, _ := e.mapLookup(m, kt, k, true)
	if e.conc {
		e.touch(m.obj, 0, 1, true)
	}
	if ent != nil {
		old := ent.v
		ent.v = v
		e.onUndo(func() { ent.v = old })
		return
	}
	ent = &MapEnt{k: freeze(k), v: v}
	enc, conc := keyEnc(k, nil)
	m.ents = append(m.ents, ent)
	m.n++
	n := len(m.ents) - 1
	if conc {
		m.idx[string(enc)] = ent
		e.onUndo(func() {
			m.ents = m.ents[:n]
			m.n--
			delete(m.idx, string(enc))
		})
	} else {
		m.nsym++
		e.onUndo(func() {
			m.ents = m.ents[:n]
			m.n--
			m.nsym--
		})
	}
}

func (e *E) mapDelete(m *Map, kt types.Type, k V) {
	ent, _, _ := e.mapLookup(m, kt, k, true)
	if e.conc {
		e.touch(m.obj, 0, 1, true)
	}
	if ent != nil {
		e.killEnt(m, ent)
	}
}

func (e *E) killEnt(m *Map, ent *MapEnt) {
	enc, conc := keyEnc(ent.k, nil)
	ent.dead = true
	m.n--
	if conc {
		delete(m.idx, string(enc))
	} else {
		m.nsym--
	}
	e.onUndo(func() {
		ent.dead = false
		m.n++
		if conc {
			m.idx[string(enc)] = ent
		} else {
			m.nsym++
		}
	})
}

func (e *E) mapNext(it *MapIter) V {
	end := V{r: Tuple{{}, {}, {}}}
	if it.m == nil {
		return end
	}
	m := it.m
	if e.conc {
		e.touch(m.obj, 0, 1, false)
	}
	if e.mapOrder {
		vis := it.obj.cells[1].n
		if len(m.ents) > 6 {
			// two orders: as inserted, and reversed
			mode := it.obj.cells[0].n
			if mode == 0 {
				if e.inInit {
					mode = 1
				} else {
					mode = 1 + uint64(e.choose([]*Term{nil, nil}))
				}
				e.write(it.obj, 0, V{n: mode})
			}
			for vis < uint64(len(m.ents)) {
				i := vis
				if mode == 2 {
					i = uint64(len(m.ents)) - 1 - vis
				}
				vis++
				if ent := m.ents[i]; !ent.dead {
					e.write(it.obj, 1, V{n: vis})
					return V{r: Tuple{{n: 1}, ent.k, ent.v}}
				}
			}
			return end
		}
		var live []int
		for i, ent := range m.ents {
			if !ent.dead && vis&(1<<uint(i)) == 0 {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return end
		}
		k := live[e.choose(make([]*Term, len(live)))]
		e.write(it.obj, 1, V{n: vis | 1<<uint(k)})
		return V{r: Tuple{{n: 1}, m.ents[k].k, m.ents[k].v}}
	}
	pos := int(it.obj.cells[0].n)
	for pos < len(m.ents) {
		ent := m.ents[pos]
		pos++
		if !ent.dead {
			e.write(it.obj, 0, V{n: uint64(pos)})
			return V{r: Tuple{{n: 1}, ent.k, ent.v}}
		}
	}
	e.write(it.obj, 0, V{n: uint64(pos)})
	return end
}

// ---- calls ----

func (e *E) method(t types.Type, m *types.Func) *ssa.Function {
	k := mtKey{t, m}
	if f, ok := e.mtCache[k]; ok {
		return f
	}
	f := e.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mtCache[k] = f
	return f
}

func (c *compiler) callArgs(call *ssa.CallCommon) func(e *E, fr *Frame) (V, []V, bool) {
	var args []opd
	for _, a := range call.Args {
		args = append(args, c.opd(a))
	}
	v := c.opd(call.Value)
	if call.IsInvoke() {
		m := call.Method
		return func(e *E, fr *Frame) (V, []V, bool) {
			rv := v.get(fr)
			if rv.r == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
				return V{}, nil, false
			}
			f := rv.r.(*Iface)
			fn := e.method(f.t, m)
			if fn == nil {
				e.unsupported("no method %s on %s", m.Name(), f.t)
			}
			as := make([]V, len(args)+1)
			as[0] = f.v
			for i := range args {
				as[i+1] = args[i].get(fr)
			}
			return V{r: &Closure{fn: fn}}, as, true
		}
	}
	return func(e *E, fr *Frame) (V, []V, bool) {
		as := make([]V, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		return v.get(fr), as, true
	}
}

func (c *compiler) compileCall(in *ssa.Call, dst int) {
	call := in.Common()
	if b, ok := call.Value.(*ssa.Builtin); ok {
		var args []opd
		for _, a := range call.Args {
			args = append(args, c.opd(a))
		}
		c.add(func(e *E, fr *Frame) {
			as := make([]V, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			v, ok := e.builtin(b, call, as, fr)
			if ok {
				fr.regs[dst] = v
				fr.pc++
			}
		})
		return
	}
	if fn := call.StaticCallee(); fn != nil {
		if fn.Pkg != nil && fn.Synthetic == "package initializer" {
			c.add(func(e *E, fr *Frame) { fr.pc++ }) // initialisers run in dependency order
			return
		}
		if _, isClosure := call.Value.(*ssa.MakeClosure); !isClosure {
			var args []opd
			for _, a := range call.Args {
				args = append(args, c.opd(a))
			}
			c.f.calls[len(c.code)] = &callInfo{fn: fn, args: args, dst: dst}
			var target *Fn
			c.add(func(e *E, fr *Frame) {
				if target == nil {
					target = e.fn(fn)
					for target.model != nil {
						target = target.model
					}
				}
				as := make([]V, len(args))
				for i := range args {
					as[i] = args[i].get(fr)
				}
				if target.intr != nil {
					v, done := target.intr(e, as, dst)
					if done {
						fr.regs[dst] = v
						fr.pc++
					}
					return
				}
				e.pushFrame(target, as, nil, dst)
			})
			return
		}
	}
	get := c.callArgs(call)
	c.add(func(e *E, fr *Frame) {
		fv, args, ok := get(e, fr)
		if !ok {
			return
		}
		e.callV(fr, fv, args, dst)
	})
}

// callV calls a function value; the result goes to register dst of fr.
func (e *E) callV(fr *Frame, fv V, args []V, dst int) {
	cl, ok := fv.r.(*Closure)
	if !ok {
		if fv.r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		e.unsupported("call of %T", fv.r)
	}
	f := e.fn(cl.fn)
	for f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		v, done := f.intr(e, append(append([]V(nil), args...), cl.env...), dst)
		if done {
			fr.regs[dst] = v
			fr.pc++
		}
		return
	}
	e.pushFrame(f, args, cl.env, dst)
}

// callDeferred runs the next deferred call of the top frame. It pops the call from the list.
// It returns true when a frame was pushed or the thread was switched (control left the instruction).
func (e *E) callDeferred(fr *Frame, d *deferred, dst int) bool {
	if b, ok := d.fn.r.(*BoundBuiltin); ok {
		if b.b.Name() != "recover" {
			e.builtin(b.b, d.call, d.args, fr)
		}
		fr.defers = d.next
		return false
	}
	cl, ok := d.fn.r.(*Closure)
	if !ok {
		fr.defers = d.next
		e.unsupported("deferred call of %T", d.fn.r)
	}
	f := e.fn(cl.fn)
	for f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		_, done := f.intr(e, append(append([]V(nil), d.args...), cl.env...), dst)
		if done {
			fr.defers = d.next
		}
		return !done
	}
	fr.defers = d.next
	e.pushFrame(f, d.args, cl.env, dst)
	return true
}

func (c *compiler) compileGo(in *ssa.Go) {
	get := c.callArgs(in.Common())
	c.add(func(e *E, fr *Frame) {
		fv, args, ok := get(e, fr)
		if !ok {
			return
		}
		cl, ok := fv.r.(*Closure)
		if !ok {
			e.unsupported("go %T", fv.r)
		}
		f := e.fn(cl.fn)
		for f.model != nil {
			f = f.model
		}
		if f.intr != nil {
			e.unsupported("go of intrinsic %s", f.name)
		}
		e.spawn(f, args, cl.env)
		fr.pc++
	})
}

// ---- builtins ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func goRoundup(n int) int {
	if n <= 32768 {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i]
	}
	return (n + 8191) / 8192 * 8192
}

func roundupsize(n int, noscan bool) int {
	if !noscan && n > 512 {
		return goRoundup(n+8) - 8
	}
	return goRoundup(n)
}

func growCap(oldCap, newLen, elemBytes int, noscan bool) int {
	nc := oldCap
	double := nc + nc
	if newLen > double {
		nc = newLen
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if elemBytes == 0 {
		return newLen
	}
	return roundupsize(nc*elemBytes, noscan) / elemBytes
}

func (e *E) appendCells(s V, el *Layout, elemBytes int, add []V, cnt int) V {
	ss, _ := s.r.(*Slice)
	ln, cp := 0, 0
	if ss != nil {
		ln, cp = ss.len, ss.cap
	}
	if cnt == 0 {
		return s
	}
	if ln+cnt <= cp {
		base := ss.off + ln*el.size
		if e.conc {
			e.touch(ss.obj, base, len(add), true)
		}
		for i := range add {
			e.write(ss.obj, base+i, add[i])
		}
		return V{r: &Slice{ss.obj, ss.off, ln + cnt, cp}}
	}
	nc := growCap(cp, ln+cnt, elemBytes, el.scalar)
	if nc*el.size > 256<<20 {
		e.unsupported("append: too large")
	}
	o := e.newObj(nc*el.size, "append")
	if ss != nil {
		if e.conc {
			e.touch(ss.obj, ss.off, ln*el.size, false)
		}
		copy(o.cells, ss.obj.cells[ss.off:ss.off+ln*el.size])
	}
	copy(o.cells[ln*el.size:], add)
	return V{r: &Slice{o, 0, ln + cnt, nc}}
}

func (e *E) sliceCells(v V, el *Layout) []V {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil
	}
	if e.conc {
		e.touch(s.obj, s.off, s.len*el.size, false)
	}
	return s.obj.cells[s.off : s.off+s.len*el.size]
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *E) builtin(b *ssa.Builtin, call *ssa.CallCommon, a []V, fr *Frame) (V, bool) {
	switch b.Name() {
	case "len", "cap":
		t := call.Args[0].Type().Underlying()
		switch u := t.(type) {
		case *types.Basic:
			return vInt(int64(strLen(a[0]))), true
		case *types.Slice:
			s, _ := a[0].r.(*Slice)
			if s == nil {
				return V{}, true
			}
			if b.Name() == "len" {
				return vInt(int64(s.len)), true
			}
			return vInt(int64(s.cap)), true
		case *types.Map:
			if a[0].r == nil {
				return V{}, true
			}
			m := a[0].r.(*Map)
			if e.conc {
				e.touch(m.obj, 0, 1, false)
			}
			return vInt(int64(m.n)), true
		case *types.Chan:
			if a[0].r == nil {
				return V{}, true
			}
			e.noMergeHere()
			o := a[0].r.(*Obj)
			if b.Name() == "cap" {
				return o.cells[chCap], true
			}
			if o.cells[chCap].n == 0 {
				return V{}, true
			}
			return vInt(int64(len(chBufOf(o)))), true
		case *types.Array:
			return vInt(u.Len()), true
		case *types.Pointer:
			return vInt(u.Elem().Underlying().(*types.Array).Len()), true
		}
		e.unsupported("len of %s", t)
	case "append":
		if e.merging > 0 {
			panic(mergeBail{})
		}
		st := call.Args[0].Type().Underlying().(*types.Slice)
		el := e.tc.layout(st.Elem())
		eb := int(e.tc.sizes.Sizeof(st.Elem()))
		if len(a) == 1 {
			return a[0], true
		}
		if isStringType(call.Args[1].Type()) {
			bs := strBytes(a[1])
			return e.appendCells(a[0], el, eb, bs, len(bs)), true
		}
		add := e.sliceCells(a[1], el)
		cnt := 0
		if s, ok := a[1].r.(*Slice); ok {
			cnt = s.len
		}
		// the source may alias the destination
		add = append([]V(nil), add...)
		return e.appendCells(a[0], el, eb, add, cnt), true
	case "copy":
		if e.merging > 0 {
			panic(mergeBail{})
		}
		st := call.Args[0].Type().Underlying().(*types.Slice)
		el := e.tc.layout(st.Elem())
		var src []V
		n := 0
		if isStringType(call.Args[1].Type()) {
			src = strBytes(a[1])
			n = len(src)
		} else {
			src = append([]V(nil), e.sliceCells(a[1], el)...)
			if s, ok := a[1].r.(*Slice); ok {
				n = s.len
			}
		}
		d, _ := a[0].r.(*Slice)
		if d == nil {
			return V{}, true
		}
		if d.len < n {
			n = d.len
		}
		if e.conc {
			e.touch(d.obj, d.off, n*el.size, true)
		}
		for i := 0; i < n*el.size; i++ {
			e.write(d.obj, d.off+i, src[i])
		}
		return vInt(int64(n)), true
	case "close":
		return V{}, e.closeChan(a[0])
	case "delete":
		if a[0].r == nil {
			return V{}, true
		}
		mt := call.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(a[0].r.(*Map), mt.Key(), a[1])
		return V{}, true
	case "clear":
		switch u := call.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if a[0].r != nil {
				m := a[0].r.(*Map)
				for _, ent := range m.ents {
					if !ent.dead {
						e.killEnt(m, ent)
					}
				}
			}
		case *types.Slice:
			if s, ok := a[0].r.(*Slice); ok {
				el := e.tc.layout(u.Elem())
				for i := 0; i < s.len*el.size; i++ {
					e.write(s.obj, s.off+i, V{})
				}
			}
		}
		return V{}, true
	case "min", "max":
		l := e.tc.layout(call.Args[0].Type())
		acc := a[0]
		for _, x := range a[1:] {
			if l.isStr {
				less := e.branch(e.strLess(x, acc))
				if less == (b.Name() == "min") {
					acc = x
				}
				continue
			}
			if l.float {
				if (f64(x) < f64(acc)) == (b.Name() == "min") {
					acc = x
				}
				continue
			}
			p, q := e.term(x, l.w), e.term(acc, l.w)
			var lt *Term
			if l.signed {
				lt = e.T.Slt(p, q)
			} else {
				lt = e.T.Ult(p, q)
			}
			if b.Name() == "max" {
				lt = e.T.Not(lt)
			}
			acc = vTerm(e.T.Ite(lt, p, q))
		}
		return acc, true
	case "recover":
		th := e.threads[e.cur]
		if th.pan != nil && !th.pan.recovered && fr.dst == dstDefer {
			th.pan.recovered = true
			return th.pan.val, true
		}
		return V{}, true
	case "print", "println":
		return V{}, true
	case "ssa:wrapnilchk":
		if a[0].r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return V{}, false
		}
		return a[0], true
	case "SliceData":
		if s, ok := a[0].r.(*Slice); ok {
			return V{n: uint64(s.off), r: s.obj}, true
		}
		return V{}, true
	case "StringData":
		bs := strBytes(a[0])
		o := e.newObj(len(bs), "stringdata")
		copy(o.cells, bs)
		return V{r: o}, true
	case "String":
		n := e.concInt(a[1])
		if n == 0 {
			return V{}, true
		}
		p := e.concPtr(a[0])
		o, ok := p.r.(*Obj)
		if !ok {
			e.unsupported("unsafe.String")
		}
		if e.conc {
			e.touch(o, int(p.n), n, false)
		}
		if inRepo(fr.fn.ssa) {
			return V{r: &AStr{o, int(p.n), n}}, true
		}
		return mkStr(append([]V(nil), o.cells[p.n:int(p.n)+n]...)), true
	case "Slice":
		n := e.concInt(a[1])
		p := e.concPtr(a[0])
		if p.r == nil {
			return V{}, true
		}
		return V{r: &Slice{p.r.(*Obj), int(p.n), n, n}}, true
	case "Add":
		// byte granularity is only meaningful for byte objects
		e.unsupported("unsafe.Add")
	}
	e.unsupported("builtin %s", b.Name())
	return V{}, false
}
