package main

// Values, heap objects, type layout.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// V is a runtime value. Scalars: n holds the bits (truncated to width) and r is nil,
// or r is *Term when symbolic. nil pointers/slices/maps/interfaces/funcs and "" are V{}.
type V struct {
	n uint64
	r any
}

// Obj is a heap object: a flat array of leaf cells. A pointer is V{n: offset, r: *Obj}.
type Obj struct {
	cells  []V
	ep     int32 // epoch of birth
	ver    int32 // bumped on every write (table cache)
	id     int32
	shadow map[int]*shadowCell
	what   string
}

// SymPtr is a pointer to element idx (symbolic, already bounds checked) of a strided region.
type SymPtr struct {
	obj          *Obj
	base, stride int
	add          int
	idx          *Term // 64 bit
	n            int
}

type SStr struct{ b []V }

// AStr is a string made from memory without a copy (package unsafe): it shows what the
// memory holds when it is read.
type AStr struct {
	obj    *Obj
	off, n int
}

func (s *AStr) cells() []V { return s.obj.cells[s.off : s.off+s.n] }

// freeze turns an aliasing string into the string it is now.
func freeze(v V) V {
	if s, ok := v.r.(*AStr); ok {
		return mkStr(append([]V(nil), s.cells()...))
	}
	return v
}

type Slice struct {
	obj           *Obj
	off, len, cap int
}

type Iface struct {
	t types.Type // canonical
	v V
}

type Closure struct {
	fn  *ssa.Function
	env []V
}

type BoundBuiltin struct{ b *ssa.Builtin }

type Agg []V
type Tuple []V

type MapEnt struct {
	k, v V
	dead bool
}

type Map struct {
	ents []*MapEnt
	idx  map[string]*MapEnt
	nsym int
	n    int
	ep   int32
	obj  *Obj // race shadow location (cell 0) and identity
}

type MapIter struct {
	m   *Map
	obj *Obj // cell0: position; cell1: visited mask (order forking)
}

type StrIter struct {
	s   V
	obj *Obj
}

type Layout struct {
	size   int
	offs   []int // struct field offsets
	flen   []int
	scalar bool
	w      uint8 // scalar bit width, 0 = bool
	signed bool
	float  bool
	isInt  bool
	isBool bool
	isStr  bool
	agg    bool
	elem   *Layout
	elemN  int
}

type typeCtx struct {
	layouts map[types.Type]*Layout
	canonM  typeutil.Map
	canonC  map[types.Type]types.Type
	sizes   types.Sizes
}

func newTypeCtx() *typeCtx {
	return &typeCtx{layouts: map[types.Type]*Layout{}, canonC: map[types.Type]types.Type{}, sizes: types.SizesFor("gc", "amd64")}
}

func (tc *typeCtx) canon(t types.Type) types.Type {
	if c, ok := tc.canonC[t]; ok {
		return c
	}
	u := types.Unalias(t)
	c := tc.canonM.At(u)
	if c == nil {
		tc.canonM.Set(u, u)
		c = u
	}
	tc.canonC[t] = c.(types.Type)
	return c.(types.Type)
}

func (tc *typeCtx) layout(t types.Type) *Layout {
	if l, ok := tc.layouts[t]; ok {
		return l
	}
	l := &Layout{size: 1}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			l.scalar, l.isBool = true, true
		case info&types.IsInteger != 0:
			l.scalar, l.isInt = true, true
			l.signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				l.w = 8
			case types.Int16, types.Uint16:
				l.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				l.w = 32
			default:
				l.w = 64
			}
		case info&types.IsFloat != 0:
			l.float = true
			l.w = 64
			if u.Kind() == types.Float32 {
				l.w = 32
			}
		case info&types.IsString != 0:
			l.isStr = true
		}
	case *types.Struct:
		l.agg = true
		l.size = 0
		for i := 0; i < u.NumFields(); i++ {
			fl := tc.layout(u.Field(i).Type())
			l.offs = append(l.offs, l.size)
			l.flen = append(l.flen, fl.size)
			l.size += fl.size
		}
	case *types.Array:
		l.agg = true
		l.elem = tc.layout(u.Elem())
		l.elemN = int(u.Len())
		l.size = l.elem.size * l.elemN
	case *types.Tuple:
		l.agg = true
		l.size = u.Len()
	}
	tc.layouts[t] = l
	return l
}

func (l *Layout) zero() V {
	if l.agg {
		return V{r: make(Agg, l.size)}
	}
	return V{}
}

func vInt(n int64) V { return V{n: uint64(n)} }
func vBool(b bool) V { return V{n: b2u(b)} }
func vStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: s}
}
func vTerm(t *Term) V {
	if t.op == OConst {
		return V{n: t.val}
	}
	return V{r: t}
}

func (v V) sym() bool { _, ok := v.r.(*Term); return ok }

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case *AStr:
		return s.n
	}
	panic(fmt.Sprintf("strLen of %T", v.r))
}

func strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		return s.b[i]
	case *AStr:
		return s.obj.cells[s.off+i]
	}
	panic("strAt")
}

func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		b := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			b[i].n = uint64(s[i])
		}
		return b
	case *SStr:
		return s.b
	case *AStr:
		return append([]V(nil), s.cells()...)
	}
	panic("strBytes")
}

// mkStr builds a string value from byte cells (takes ownership of b).
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].r != nil {
			return V{r: &SStr{b}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].n))
	}
	return V{r: sb.String()}
}

func strSlice(v V, i, j int) V {
	if i == j {
		return V{}
	}
	switch s := v.r.(type) {
	case string:
		return V{r: s[i:j]}
	case *AStr:
		return V{r: &AStr{s.obj, s.off + i, j - i}}
	case *SStr:
		b := s.b[i:j:j]
		for k := range b {
			if b[k].r != nil {
				return V{r: &SStr{b}}
			}
		}
		return mkStr(b)
	}
	panic("strSlice")
}

func strConcat(a, b V) V {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	a, b = freeze(a), freeze(b)
	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return V{r: x + y}
		}
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]V, 0, len(ab)+len(bb))
	out = append(out, ab...)
	out = append(out, bb...)
	return V{r: &SStr{out}}
}

// strConc returns the concrete string, if it is concrete.
func strConc(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *AStr:
		return strConc(freeze(v))
	}
	return "", false
}

func f64(v V) float64  { return math.Float64frombits(v.n) }
func vF64(f float64) V { return V{n: math.Float64bits(f)} }

// showVal renders a string value under a model, quoted.
func (e *E) showVal(v V, m Model) string {
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if t, ok := b.r.(*Term); ok {
			out[i] = byte(e.T.Eval(t, m))
		} else {
			out[i] = byte(b.n)
		}
	}
	return fmt.Sprintf("%q", string(out))
}
