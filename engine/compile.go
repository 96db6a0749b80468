package main

// SSA -> closures.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type opd struct {
	r int
	c V
}

func (o opd) get(fr *Frame) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

type move struct {
	dst int
	src opd
}

type edge struct {
	pc    int
	blk   int
	moves []move
}

type intrFn func(e *E, args []V, dst int) (V, bool)

type Fn struct {
	name      string
	ssa       *ssa.Function
	code      []func(*E, *Frame)
	nregs     int
	nparams   int
	recoverPC int
	intr      intrFn
	model     *Fn
	blockPC   []int // first instruction after the phis
	blockEnd  []int // index of the terminator
	edges     [][]edge
	conds     []opd
	rets      [][]opd
	calls     map[int]*callInfo
	ipdom     []int
	merges    map[int]*mergeInfo
	pureState int8 // 0 unknown, 1 computing, 2 pure, 3 not
	hasDefer  bool
	phiDst    [][]int
}

type callInfo struct {
	fn   *ssa.Function
	args []opd
	dst  int
	intr bool
}

func (f *Fn) zeroResult(e *E) V {
	res := f.ssa.Signature.Results()
	switch res.Len() {
	case 0:
		return V{}
	case 1:
		return e.tc.layout(res.At(0).Type()).zero()
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = e.tc.layout(res.At(i).Type()).zero()
	}
	return V{r: t}
}

func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (e *E) fn(f *ssa.Function) *Fn {
	if c, ok := e.fns[f]; ok {
		return c
	}
	name := fnKey(f)
	c := &Fn{name: name, ssa: f, recoverPC: -1}
	e.fns[f] = c
	if in, ok := intrinsics[name]; ok {
		c.intr = in
		return c
	}
	if m, ok := modelFor[name]; ok {
		if mf := e.prog.models[m]; mf != nil {
			c.model = e.fn(mf)
			return c
		}
	}
	e.prog.ensureBuilt(f)
	if f.Blocks == nil {
		c.intr = func(e *E, args []V, dst int) (V, bool) {
			e.unsupported("call of %s", name)
			return V{}, false
		}
		return c
	}
	e.compile(c)
	return c
}

func (e *E) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	l := e.tc.layout(g.Type().Underlying().(*types.Pointer).Elem())
	e.nextObj++
	// globals live from before the beginning: every write to them is logged
	o := &Obj{cells: make([]V, l.size), ep: -1, id: e.nextObj, what: g.String()}
	e.globals[g] = o
	return o
}

func (e *E) constV(c *ssa.Const) V {
	t := c.Type()
	l := e.tc.layout(t)
	if c.Value == nil {
		return l.zero()
	}
	switch {
	case l.isBool:
		return vBool(constant.BoolVal(c.Value))
	case l.isInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & mask(l.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & mask(l.w)}
	case l.float:
		f, _ := constant.Float64Val(c.Value)
		if l.w == 32 {
			f = float64(float32(f))
		}
		return vF64(f)
	case l.isStr:
		if c.Value.Kind() == constant.String {
			return vStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vStr(string(rune(i)))
	}
	return V{}
}

type compiler struct {
	e     *E
	f     *Fn
	regs  map[ssa.Value]int
	nloc  int
	code  []func(*E, *Frame)
	bpc   []int
	fixes []func()
}

func (c *compiler) opd(v ssa.Value) opd {
	if r, ok := c.regs[v]; ok {
		return opd{r: r}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return opd{r: -1, c: c.e.constV(x)}
	case *ssa.Function:
		return opd{r: -1, c: V{r: &Closure{fn: x}}}
	case *ssa.Global:
		return opd{r: -1, c: V{r: c.e.global(x)}}
	case *ssa.Builtin:
		return opd{r: -1, c: V{r: &BoundBuiltin{x}}}
	}
	panic(fmt.Sprintf("no register for %s (%T) in %s", v.Name(), v, c.f.name))
}

func blockLocal(v ssa.Value, b *ssa.BasicBlock) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		if r.Block() != b {
			return false
		}
		switch r.(type) {
		case *ssa.Phi, *ssa.If:
			// (an abandoned merge may overwrite block-local registers before the If forks)
			return false
		}
	}
	return true
}

func (e *E) compile(f *Fn) {
	fn := f.ssa
	c := &compiler{e: e, f: f, regs: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	f.nparams = n
	for _, p := range fn.FreeVars {
		c.regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, isPhi := in.(*ssa.Phi); isPhi || !blockLocal(v, b) {
					c.regs[v] = n
					n++
				}
			}
		}
	}
	max := n
	for _, b := range fn.Blocks {
		k := n
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if _, done := c.regs[v]; !done {
					c.regs[v] = k
					k++
				}
			}
		}
		if k > max {
			max = k
		}
	}
	f.nregs = max
	nb := len(fn.Blocks)
	f.blockPC = make([]int, nb)
	f.blockEnd = make([]int, nb)
	f.edges = make([][]edge, nb)
	f.conds = make([]opd, nb)
	f.rets = make([][]opd, nb)
	f.phiDst = make([][]int, nb)
	f.calls = map[int]*callInfo{}
	f.merges = map[int]*mergeInfo{}
	switches := map[*ssa.BasicBlock]*ssautil.Switch{}
	if nb > 8 {
		for _, sw := range ssautil.Switches(fn) {
			if len(sw.ConstCases) >= 4 {
				l := e.tc.layout(sw.X.Type())
				if l.isInt {
					s := sw
					switches[sw.Start] = &s
				}
			}
		}
	}
	for bi, b := range fn.Blocks {
		phis := 0
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis++
				f.phiDst[bi] = append(f.phiDst[bi], c.regs[p])
				continue
			}
			break
		}
		f.blockPC[bi] = len(c.code)
		for _, in := range b.Instrs[phis:] {
			if iff, ok := in.(*ssa.If); ok {
				if sw := switches[b]; sw != nil {
					c.compileSwitch(b, iff, sw)
					continue
				}
			}
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && e.unsetGlobal(g) {
					name := g.String()
					c.code = append(c.code, func(e *E, fr *Frame) { e.unsupported("variable %s, whose initialiser is not executed", name) })
				}
			}
			c.instr(b, in)
		}
		f.blockEnd[bi] = len(c.code) - 1
	}
	for bi, b := range fn.Blocks {
		for si := range b.Succs {
			f.edges[bi] = append(f.edges[bi], c.edge(b, si))
		}
	}
	if fn.Recover != nil {
		f.recoverPC = f.blockPC[fn.Recover.Index]
	}
	f.code = c.code
	for _, fx := range c.fixes {
		fx()
	}
}

func (c *compiler) edge(b *ssa.BasicBlock, si int) edge {
	s := b.Succs[si]
	pi := -1
	// b may appear several times among s.Preds (both branches of an If)
	cnt := 0
	for k := 0; k < si; k++ {
		if b.Succs[k] == s {
			cnt++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if cnt == 0 {
				pi = i
				break
			}
			cnt--
		}
	}
	ed := edge{pc: c.f.blockPC[s.Index], blk: s.Index}
	for _, in := range s.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ed.moves = append(ed.moves, move{c.regs[p], c.opd(p.Edges[pi])})
	}
	return ed
}

func (fr *Frame) jump(ed *edge) {
	switch len(ed.moves) {
	case 0:
	case 1:
		fr.regs[ed.moves[0].dst] = ed.moves[0].src.get(fr)
	default:
		var buf [8]V
		tmp := buf[:0]
		for i := range ed.moves {
			tmp = append(tmp, ed.moves[i].src.get(fr))
		}
		for i := range ed.moves {
			fr.regs[ed.moves[i].dst] = tmp[i]
		}
	}
	fr.pc = ed.pc
}

func (c *compiler) add(f func(*E, *Frame)) { c.code = append(c.code, f) }

func (c *compiler) compileSwitch(b *ssa.BasicBlock, iff *ssa.If, sw *ssautil.Switch) {
	e := c.e
	f := c.f
	x := c.opd(sw.X)
	l := e.tc.layout(sw.X.Type())
	type grp struct {
		ed   edge
		key  string
		vals []uint64
	}
	pc0 := len(c.code)
	_ = pc0
	cond := c.opd(iff.Cond)
	bi := b.Index
	f.conds[bi] = cond
	var groups []*grp
	byVal := map[uint64]int{}
	var tab *Table
	c.fixes = append(c.fixes, func() {
		idx := map[string]int{}
		mkKey := func(ed edge) string {
			k := fmt.Sprint(ed.pc)
			for _, m := range ed.moves {
				k += fmt.Sprintf("|%d:%d:%d:%p", m.dst, m.src.r, m.src.c.n, m.src.c.r)
				if s, ok := m.src.c.r.(string); ok {
					k += s
				}
			}
			return k
		}
		add := func(ed edge) int {
			k := mkKey(ed)
			if i, ok := idx[k]; ok {
				return i
			}
			idx[k] = len(groups)
			groups = append(groups, &grp{ed: ed, key: k})
			return len(groups) - 1
		}
		last := sw.ConstCases[len(sw.ConstCases)-1].Block
		// default is group 0
		for si, s := range last.Succs {
			if s == sw.Default {
				add(f.edges[last.Index][si])
			}
		}
		for _, cs := range sw.ConstCases {
			v := e.constV(cs.Value).n
			if _, dup := byVal[v]; dup {
				continue
			}
			for si, s := range cs.Block.Succs {
				if s == cs.Body {
					byVal[v] = add(f.edges[cs.Block.Index][si])
					break
				}
			}
		}
	})
	c.add(func(e *E, fr *Frame) {
		v := x.get(fr)
		t, ok := v.r.(*Term)
		if !ok {
			g := byVal[v.n]
			fr.jump(&groups[g].ed)
			return
		}
		if tab == nil {
			tab = e.tableFromMap(l.w, 16, byVal)
		}
		ti := e.T.Apply(tab, t)
		alts := make([]*Term, len(groups))
		for i := range groups {
			alts[i] = e.T.Eq(ti, e.T.Const(16, uint64(i)))
		}
		g := e.choose(alts)
		fr.jump(&groups[g].ed)
	})
}

func (e *E) tableFromMap(inW, outW uint8, m map[uint64]int) *Table {
	e.ntab++
	keys := sortedKeys(m)
	t := &Table{id: e.ntab, inW: inW, outW: outW}
	add := func(s, v uint64) {
		if n := len(t.starts); n > 0 && t.vals[n-1] == v {
			return
		}
		t.starts = append(t.starts, s)
		t.vals = append(t.vals, v)
	}
	if len(keys) == 0 || keys[0] != 0 {
		add(0, 0)
	}
	for i, k := range keys {
		add(k, uint64(m[k]))
		if k != mask(inW) && (i+1 == len(keys) || keys[i+1] != k+1) {
			add(k+1, 0)
		}
	}
	return t
}

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	e := c.e
	tc := e.tc
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Jump:
		f := c.f
		bi := b.Index
		c.add(func(e *E, fr *Frame) { fr.jump(&f.edges[bi][0]) })
	case *ssa.If:
		cond := c.opd(in.Cond)
		f := c.f
		bi := b.Index
		f.conds[bi] = cond
		c.add(func(e *E, fr *Frame) {
			v := cond.get(fr)
			if t, ok := v.r.(*Term); ok {
				e.symIf(fr, f, bi, t)
				return
			}
			if v.n != 0 {
				fr.jump(&f.edges[bi][0])
			} else {
				fr.jump(&f.edges[bi][1])
			}
		})
	case *ssa.Return:
		var rs []opd
		for _, r := range in.Results {
			rs = append(rs, c.opd(r))
		}
		c.f.rets[b.Index] = rs
		c.add(func(e *E, fr *Frame) {
			var v V
			switch len(rs) {
			case 0:
			case 1:
				v = rs[0].get(fr)
			default:
				t := make(Tuple, len(rs))
				for i := range rs {
					t[i] = rs[i].get(fr)
				}
				v = V{r: t}
			}
			e.doReturn(fr, v)
		})
	case *ssa.RunDefers:
		c.add(func(e *E, fr *Frame) {
			for fr.defers != nil {
				if e.callDeferred(fr, fr.defers, dstRun) {
					return
				}
			}
			fr.pc++
		})
	case *ssa.Panic:
		x := c.opd(in.X)
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			e.goPanic(v, "panic("+e.describe(v)+")")
		})
	case *ssa.Go:
		c.compileGo(in)
	case *ssa.Defer:
		c.f.hasDefer = true
		call := in.Common()
		get := c.callArgs(call)
		if in.DeferStack != nil {
			c.add(func(e *E, fr *Frame) { e.unsupported("defer stack") })
			return
		}
		c.add(func(e *E, fr *Frame) {
			fv, args, ok := get(e, fr)
			if !ok {
				return
			}
			fr.defers = &deferred{fn: fv, args: args, next: fr.defers, call: call}
			fr.pc++
		})
	case *ssa.Call:
		c.compileCall(in, dst)
	case *ssa.Alloc:
		l := tc.layout(in.Type().Underlying().(*types.Pointer).Elem())
		what := in.Comment
		c.add(func(e *E, fr *Frame) {
			fr.regs[dst] = V{r: e.newObj(l.size, what)}
			fr.pc++
		})
	case *ssa.Phi:
		panic("phi not at block start")
	case *ssa.BinOp:
		c.binop(in, dst)
	case *ssa.UnOp:
		c.unop(in, dst)
	case *ssa.ChangeInterface:
		x := c.opd(in.X)
		c.add(func(e *E, fr *Frame) { fr.regs[dst] = x.get(fr); fr.pc++ })
	case *ssa.ChangeType:
		x := c.opd(in.X)
		c.add(func(e *E, fr *Frame) { fr.regs[dst] = x.get(fr); fr.pc++ })
	case *ssa.Convert:
		c.convert(in, in.X, in.Type(), dst)
	case *ssa.MultiConvert:
		c.convert(in, in.X, in.Type(), dst)
	case *ssa.SliceToArrayPointer:
		x := c.opd(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			if v.r == nil {
				if n > 0 {
					e.rtPanic("cannot convert slice to array pointer")
					return
				}
				fr.regs[dst] = V{}
				fr.pc++
				return
			}
			s := v.r.(*Slice)
			if s.len < n {
				e.rtPanic("cannot convert slice with too short length to array pointer")
				return
			}
			fr.regs[dst] = V{n: uint64(s.off), r: s.obj}
			fr.pc++
		})
	case *ssa.MakeInterface:
		x := c.opd(in.X)
		t := tc.canon(in.X.Type())
		c.add(func(e *E, fr *Frame) {
			fr.regs[dst] = V{r: &Iface{t, x.get(fr)}}
			fr.pc++
		})
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []opd
		for _, v := range in.Bindings {
			bs = append(bs, c.opd(v))
		}
		c.add(func(e *E, fr *Frame) {
			env := make([]V, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = V{r: &Closure{fn, env}}
			fr.pc++
		})
	case *ssa.MakeMap:
		c.add(func(e *E, fr *Frame) {
			fr.regs[dst] = V{r: e.newMap()}
			fr.pc++
		})
	case *ssa.MakeSlice:
		ln, cp := c.opd(in.Len), c.opd(in.Cap)
		el := tc.layout(in.Type().Underlying().(*types.Slice).Elem())
		wl := tc.layout(in.Len.Type())
		wc := tc.layout(in.Cap.Type())
		c.add(func(e *E, fr *Frame) {
			n := int(sext64(e.concretize(ln.get(fr), wl.w), wl.w))
			m := int(sext64(e.concretize(cp.get(fr), wc.w), wc.w))
			if n < 0 || n > 1<<40 {
				e.rtPanic("makeslice: len out of range")
				return
			}
			if m < n {
				e.rtPanic("makeslice: cap out of range")
				return
			}
			if m*el.size > 64<<20 {
				e.unsupported("make: too large")
			}
			fr.regs[dst] = V{r: &Slice{e.newObj(m*el.size, "make"), 0, n, m}}
			fr.pc++
		})
	case *ssa.MakeChan:
		size := c.opd(in.Size)
		w := tc.layout(in.Size.Type())
		c.add(func(e *E, fr *Frame) {
			n := int64(sext64(e.concretize(size.get(fr), w.w), w.w))
			if n < 0 || n > 1<<30 {
				e.rtPanic("makechan: size out of range")
				return
			}
			fr.regs[dst] = e.makeChan(int(n))
			fr.pc++
		})
	case *ssa.Select:
		c.selectInstr(in, dst)
	case *ssa.Send:
		c.sendInstr(in)
	case *ssa.FieldAddr:
		x := c.opd(in.X)
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		off := tc.layout(st).offs[in.Field]
		c.add(func(e *E, fr *Frame) {
			p := x.get(fr)
			switch o := p.r.(type) {
			case nil:
				e.rtPanic("invalid memory address or nil pointer dereference")
				return
			case *Obj:
				fr.regs[dst] = V{n: p.n + uint64(off), r: o}
			case *SymPtr:
				q := *o
				q.add += off
				fr.regs[dst] = V{r: &q}
			default:
				e.unsupported("field address of %T", p.r)
			}
			fr.pc++
		})
	case *ssa.Field:
		x := c.opd(in.X)
		l := tc.layout(in.X.Type())
		off, n := l.offs[in.Field], l.flen[in.Field]
		fl := tc.layout(in.Type())
		c.add(func(e *E, fr *Frame) {
			a := x.get(fr).r.(Agg)
			if fl.agg {
				fr.regs[dst] = V{r: a[off : off+n : off+n]}
			} else {
				fr.regs[dst] = a[off]
			}
			fr.pc++
		})
	case *ssa.Extract:
		x := c.opd(in.Tuple)
		i := in.Index
		c.add(func(e *E, fr *Frame) {
			fr.regs[dst] = x.get(fr).r.(Tuple)[i]
			fr.pc++
		})
	case *ssa.IndexAddr:
		c.indexAddr(in, dst)
	case *ssa.Index:
		c.index(in, dst)
	case *ssa.Lookup:
		c.lookup(in, dst)
	case *ssa.MapUpdate:
		m, k, v := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		c.add(func(e *E, fr *Frame) {
			mv := m.get(fr)
			if mv.r == nil {
				e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("assignment to entry in nil map")}}, "assignment to entry in nil map")
				return
			}
			e.mapSet(mv.r.(*Map), kt, k.get(fr), v.get(fr))
			fr.pc++
		})
	case *ssa.Range:
		x := c.opd(in.X)
		_, isMap := in.X.Type().Underlying().(*types.Map)
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			if isMap {
				var m *Map
				if v.r != nil {
					m = v.r.(*Map)
				}
				fr.regs[dst] = V{r: &MapIter{m, e.newObj(2, "mapiter")}}
			} else {
				fr.regs[dst] = V{r: &StrIter{v, e.newObj(1, "striter")}}
			}
			fr.pc++
		})
	case *ssa.Next:
		x := c.opd(in.Iter)
		isStr := in.IsString
		c.add(func(e *E, fr *Frame) {
			if isStr {
				it := x.get(fr).r.(*StrIter)
				pos := int(it.obj.cells[0].n)
				n := strLen(it.s)
				if pos >= n {
					fr.regs[dst] = V{r: Tuple{{}, {}, {}}}
				} else {
					r, w := e.decodeRune(func(i int) V { return strAt(it.s, pos+i) }, n-pos)
					e.write(it.obj, 0, V{n: uint64(pos + w)})
					fr.regs[dst] = V{r: Tuple{{n: 1}, {n: uint64(pos)}, r}}
				}
			} else {
				fr.regs[dst] = e.mapNext(x.get(fr).r.(*MapIter))
			}
			fr.pc++
		})
	case *ssa.Slice:
		c.slice(in, dst)
	case *ssa.Store:
		p, v := c.opd(in.Addr), c.opd(in.Val)
		l := tc.layout(in.Val.Type())
		c.add(func(e *E, fr *Frame) {
			if e.store(p.get(fr), l, v.get(fr)) {
				fr.pc++
			}
		})
	case *ssa.TypeAssert:
		c.typeAssert(in, dst)
	default:
		c.add(func(e *E, fr *Frame) { e.unsupported("instruction %T", in) })
	}
}

func (c *compiler) binop(in *ssa.BinOp, dst int) {
	e := c.e
	x, y := c.opd(in.X), c.opd(in.Y)
	xt := in.X.Type()
	l := e.tc.layout(xt)
	yl := e.tc.layout(in.Y.Type())
	op := in.Op
	put := func(fr *Frame, v V) { fr.regs[dst] = v; fr.pc++ }
	switch {
	case op == token.EQL || op == token.NEQ:
		neg := op == token.NEQ
		yt := in.Y.Type()
		c.add(func(e *E, fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if l.scalar && a.r == nil && b.r == nil {
				put(fr, vBool((a.n == b.n) != neg))
				return
			}
			t, ok := e.equal(a, b, xt, yt)
			if !ok {
				return
			}
			if neg {
				t = e.T.Not(t)
			}
			put(fr, vTerm(t))
		})
	case l.isStr && op == token.ADD:
		c.add(func(e *E, fr *Frame) { put(fr, strConcat(x.get(fr), y.get(fr))) })
	case l.isStr:
		c.add(func(e *E, fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			var t *Term
			switch op {
			case token.LSS:
				t = e.strLess(a, b)
			case token.GTR:
				t = e.strLess(b, a)
			case token.LEQ:
				t = e.T.Not(e.strLess(b, a))
			case token.GEQ:
				t = e.T.Not(e.strLess(a, b))
			}
			put(fr, vTerm(t))
		})
	case l.float:
		c.add(func(e *E, fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.r != nil || b.r != nil {
				e.unsupported("symbolic float")
			}
			f, g := f64(a), f64(b)
			var r float64
			switch op {
			case token.ADD:
				r = f + g
			case token.SUB:
				r = f - g
			case token.MUL:
				r = f * g
			case token.QUO:
				r = f / g
			case token.LSS:
				put(fr, vBool(f < g))
				return
			case token.LEQ:
				put(fr, vBool(f <= g))
				return
			case token.GTR:
				put(fr, vBool(f > g))
				return
			case token.GEQ:
				put(fr, vBool(f >= g))
				return
			}
			if l.w == 32 {
				r = float64(float32(r))
			}
			put(fr, vF64(r))
		})
	case l.isInt:
		w := l.w
		m := mask(w)
		sg := l.signed
		c.add(func(e *E, fr *Frame) {
			a, b := x.get(fr), y.get(fr)
			if a.r == nil && b.r == nil {
				switch op {
				case token.ADD:
					put(fr, V{n: (a.n + b.n) & m})
					return
				case token.SUB:
					put(fr, V{n: (a.n - b.n) & m})
					return
				case token.LSS:
					if sg {
						put(fr, vBool(sext64(a.n, w) < sext64(b.n, w)))
					} else {
						put(fr, vBool(a.n < b.n))
					}
					return
				case token.LEQ:
					if sg {
						put(fr, vBool(sext64(a.n, w) <= sext64(b.n, w)))
					} else {
						put(fr, vBool(a.n <= b.n))
					}
					return
				case token.GTR:
					if sg {
						put(fr, vBool(sext64(a.n, w) > sext64(b.n, w)))
					} else {
						put(fr, vBool(a.n > b.n))
					}
					return
				case token.GEQ:
					if sg {
						put(fr, vBool(sext64(a.n, w) >= sext64(b.n, w)))
					} else {
						put(fr, vBool(a.n >= b.n))
					}
					return
				case token.AND:
					put(fr, V{n: a.n & b.n})
					return
				case token.OR:
					put(fr, V{n: a.n | b.n})
					return
				}
			}
			v, ok := e.intOp(op, l, yl, a, b)
			if ok {
				put(fr, v)
			}
		})
	case l.isBool:
		c.add(func(e *E, fr *Frame) {
			a, b := e.term(x.get(fr), 0), e.term(y.get(fr), 0)
			switch op {
			case token.AND, token.LAND:
				put(fr, vTerm(e.T.And(a, b)))
			case token.OR, token.LOR:
				put(fr, vTerm(e.T.Or(a, b)))
			default:
				e.unsupported("bool op %s", op)
			}
		})
	default:
		c.add(func(e *E, fr *Frame) { e.unsupported("binop %s on %s", op, xt) })
	}
}

// term lifts a scalar value to a term of width w.
func (e *E) term(v V, w uint8) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return e.T.Const(w, v.n)
}

func (e *E) intOp(op token.Token, l, yl *Layout, a, b V) (V, bool) {
	T := e.T
	w := l.w
	x := e.term(a, w)
	switch op {
	case token.SHL, token.SHR:
		if yl.signed {
			yt := e.term(b, yl.w)
			if neg := T.Slt(yt, T.Const(yl.w, 0)); e.branch(neg) {
				e.rtPanic("negative shift amount")
				return V{}, false
			}
		}
		var y *Term
		if b.r == nil {
			n := b.n
			if n > uint64(w) {
				n = uint64(w)
			}
			if w < 8 {
				panic("width")
			}
			y = T.Const(w, n)
		} else {
			yt := b.r.(*Term)
			if yt.w <= w {
				y = T.Zext(yt, w)
			} else {
				y = T.Ite(T.Ult(yt, T.Const(yt.w, uint64(w))), T.Trunc(yt, w), T.Const(w, uint64(w)))
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if l.signed {
				o = OAshr
			}
		}
		return vTerm(T.Bin(o, x, y)), true
	}
	y := e.term(b, w)
	switch op {
	case token.ADD:
		return vTerm(T.Bin(OAdd, x, y)), true
	case token.SUB:
		return vTerm(T.Sub(x, y)), true
	case token.MUL:
		return vTerm(T.Bin(OMul, x, y)), true
	case token.AND:
		return vTerm(T.Bin(OAnd, x, y)), true
	case token.OR:
		return vTerm(T.Bin(OOr, x, y)), true
	case token.XOR:
		return vTerm(T.Bin(OXor, x, y)), true
	case token.AND_NOT:
		return vTerm(T.Bin(OAnd, x, T.Bin(OXor, y, T.Const(w, mask(w))))), true
	case token.QUO, token.REM:
		if e.branch(T.Eq(y, T.Const(w, 0))) {
			e.rtPanic("integer divide by zero")
			return V{}, false
		}
		o := OUDiv
		switch {
		case op == token.QUO && l.signed:
			o = OSDiv
		case op == token.REM && l.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		if l.signed && T.nonneg(x) && T.nonneg(y) {
			if o == OSDiv {
				o = OUDiv
			} else {
				o = OURem
			}
		}
		return vTerm(T.Bin(o, x, y)), true
	case token.LSS:
		if l.signed {
			return vTerm(T.Slt(x, y)), true
		}
		return vTerm(T.Ult(x, y)), true
	case token.LEQ:
		if l.signed {
			return vTerm(T.Sle(x, y)), true
		}
		return vTerm(T.Ule(x, y)), true
	case token.GTR:
		if l.signed {
			return vTerm(T.Slt(y, x)), true
		}
		return vTerm(T.Ult(y, x)), true
	case token.GEQ:
		if l.signed {
			return vTerm(T.Sle(y, x)), true
		}
		return vTerm(T.Ule(y, x)), true
	}
	e.unsupported("int op %s", op)
	return V{}, false
}

func (c *compiler) unop(in *ssa.UnOp, dst int) {
	e := c.e
	x := c.opd(in.X)
	l := e.tc.layout(in.X.Type())
	switch in.Op {
	case token.ARROW:
		c.recvInstr(in, dst)
	case token.MUL:
		el := e.tc.layout(in.Type())
		c.add(func(e *E, fr *Frame) {
			v, ok := e.load(x.get(fr), el)
			if ok {
				fr.regs[dst] = v
				fr.pc++
			}
		})
	case token.NOT:
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			if t, ok := v.r.(*Term); ok {
				fr.regs[dst] = vTerm(e.T.Not(t))
			} else {
				fr.regs[dst] = V{n: 1 - v.n}
			}
			fr.pc++
		})
	case token.SUB:
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			if l.float {
				fr.regs[dst] = vF64(-f64(v))
			} else if t, ok := v.r.(*Term); ok {
				fr.regs[dst] = vTerm(e.T.Neg(t))
			} else {
				fr.regs[dst] = V{n: -v.n & mask(l.w)}
			}
			fr.pc++
		})
	case token.XOR:
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			if t, ok := v.r.(*Term); ok {
				fr.regs[dst] = vTerm(e.T.Bin(OXor, t, e.T.Const(t.w, mask(t.w))))
			} else {
				fr.regs[dst] = V{n: ^v.n & mask(l.w)}
			}
			fr.pc++
		})
	default:
		c.add(func(e *E, fr *Frame) { e.unsupported("unop %s", in.Op) })
	}
}

func (c *compiler) convert(in ssa.Instruction, xv ssa.Value, to types.Type, dst int) {
	e := c.e
	x := c.opd(xv)
	from := xv.Type()
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.TypeParam); ok {
		tu = tp.Constraint().Underlying()
	}
	fl, tl := e.tc.layout(from), e.tc.layout(to)
	put := func(fr *Frame, v V) { fr.regs[dst] = v; fr.pc++ }
	isSlice := func(t types.Type) (*types.Basic, bool) {
		s, ok := t.(*types.Slice)
		if !ok {
			return nil, false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return b, ok
	}
	switch {
	case fl.isInt && tl.isInt:
		// unsafe.Pointer is a Basic of kind UnsafePointer, not integer
		w := tl.w
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			switch t := v.r.(type) {
			case nil:
				if fl.signed {
					put(fr, V{n: uint64(sext64(v.n, fl.w)) & mask(w)})
				} else {
					put(fr, V{n: v.n & mask(w)})
				}
			case *Term:
				switch {
				case t.w == w:
					put(fr, v)
				case t.w > w:
					put(fr, vTerm(e.T.Trunc(t, w)))
				case fl.signed:
					put(fr, vTerm(e.T.Sext(t, w)))
				default:
					put(fr, vTerm(e.T.Zext(t, w)))
				}
			default:
				put(fr, v) // a pointer carried in a uintptr
			}
		})
	case fl.isInt && tl.float:
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			n := e.concretize(v, fl.w)
			if fl.signed {
				put(fr, vF64(float64(sext64(n, fl.w))))
			} else {
				put(fr, vF64(float64(n)))
			}
		})
	case fl.float && tl.isInt:
		c.add(func(e *E, fr *Frame) {
			f := f64(x.get(fr))
			if tl.signed {
				put(fr, V{n: uint64(int64(f)) & mask(tl.w)})
			} else {
				put(fr, V{n: uint64(f) & mask(tl.w)})
			}
		})
	case fl.float && tl.float:
		c.add(func(e *E, fr *Frame) {
			f := f64(x.get(fr))
			if tl.w == 32 {
				f = float64(float32(f))
			}
			put(fr, vF64(f))
		})
	case fl.isStr && tl.isStr:
		c.add(func(e *E, fr *Frame) { put(fr, x.get(fr)) })
	case fl.isInt && tl.isStr:
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			var r V
			if t, ok := v.r.(*Term); ok {
				if t.w > 32 {
					big := e.T.Not(e.T.Ule(t, e.T.Const(t.w, 0x10ffff)))
					if e.branch(big) {
						r = V{n: 0xfffd}
					} else {
						r = vTerm(e.T.Trunc(t, 32))
					}
				} else if fl.signed {
					r = vTerm(e.T.Sext(t, 32))
				} else {
					r = vTerm(e.T.Zext(t, 32))
				}
			} else {
				n := sext64(v.n, fl.w)
				if n < 0 || n > 0x10ffff {
					n = 0xfffd
				}
				r = V{n: uint64(n)}
			}
			put(fr, mkStr(e.encodeRune(r)))
		})
	case fl.isStr:
		b, ok := isSlice(tu)
		if ok && b.Kind() == types.Uint8 {
			c.add(func(e *E, fr *Frame) {
				bs := strBytes(x.get(fr))
				n := len(bs)
				o := e.newObj(goRoundup(n), "[]byte(string)")
				copy(o.cells, bs)
				put(fr, V{r: &Slice{o, 0, n, len(o.cells)}})
			})
			return
		}
		if ok && b.Kind() == types.Int32 {
			c.add(func(e *E, fr *Frame) {
				s := x.get(fr)
				n := strLen(s)
				var out []V
				for i := 0; i < n; {
					r, w := e.decodeRune(func(k int) V { return strAt(s, i+k) }, n-i)
					out = append(out, r)
					i += w
				}
				o := e.newObj(goRoundup(len(out)*4)/4, "[]rune(string)")
				copy(o.cells, out)
				put(fr, V{r: &Slice{o, 0, len(out), len(o.cells)}})
			})
			return
		}
		c.add(func(e *E, fr *Frame) { e.unsupported("convert %s to %s", from, to) })
	case tl.isStr:
		b, ok := isSlice(fu)
		if ok && b.Kind() == types.Uint8 {
			c.add(func(e *E, fr *Frame) {
				v := x.get(fr)
				if v.r == nil {
					put(fr, V{})
					return
				}
				s := v.r.(*Slice)
				if e.conc {
					e.touch(s.obj, s.off, s.len, false)
				}
				put(fr, mkStr(append([]V(nil), s.obj.cells[s.off:s.off+s.len]...)))
			})
			return
		}
		if ok && b.Kind() == types.Int32 {
			c.add(func(e *E, fr *Frame) {
				v := x.get(fr)
				if v.r == nil {
					put(fr, V{})
					return
				}
				s := v.r.(*Slice)
				var out []V
				for i := 0; i < s.len; i++ {
					out = append(out, e.encodeRune(s.obj.cells[s.off+i])...)
				}
				put(fr, mkStr(out))
			})
			return
		}
		c.add(func(e *E, fr *Frame) { e.unsupported("convert %s to %s", from, to) })
	default:
		c.add(func(e *E, fr *Frame) { put(fr, x.get(fr)) })
	}
}

// boundsIdx checks 0 <= idx < n and returns the concrete index, or a term.
func (e *E) boundsIdx(iv V, il *Layout, n int) (int, *Term, bool) {
	t, ok := iv.r.(*Term)
	if !ok {
		i := int64(iv.n)
		if il.signed {
			i = sext64(iv.n, il.w)
		}
		if i < 0 || i >= int64(n) {
			e.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
			return 0, nil, false
		}
		return int(i), nil, true
	}
	var t64 *Term
	if il.signed {
		t64 = e.T.Sext(t, 64)
	} else {
		t64 = e.T.Zext(t, 64)
	}
	in := e.T.Ult(t64, e.T.Const(64, uint64(n)))
	if !e.branch(in) {
		e.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		return 0, nil, false
	}
	if lo, hi := e.T.pathInterval(t64); lo == hi {
		return int(lo), nil, true
	}
	return 0, t64, true
}

func (c *compiler) indexAddr(in *ssa.IndexAddr, dst int) {
	e := c.e
	x, i := c.opd(in.X), c.opd(in.Index)
	il := e.tc.layout(in.Index.Type())
	put := func(fr *Frame, v V) { fr.regs[dst] = v; fr.pc++ }
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		el := e.tc.layout(u.Elem())
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			n := 0
			s, _ := v.r.(*Slice)
			if s != nil {
				n = s.len
			}
			k, t, ok := e.boundsIdx(i.get(fr), il, n)
			if !ok {
				return
			}
			if t == nil {
				put(fr, V{n: uint64(s.off + k*el.size), r: s.obj})
				return
			}
			put(fr, V{r: &SymPtr{obj: s.obj, base: s.off, stride: el.size, idx: t, n: n}})
		})
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		el := e.tc.layout(arr.Elem())
		n := int(arr.Len())
		c.add(func(e *E, fr *Frame) {
			p := x.get(fr)
			if p.r == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			k, t, ok := e.boundsIdx(i.get(fr), il, n)
			if !ok {
				return
			}
			if sp, ok := p.r.(*SymPtr); ok {
				kk := k
				if t != nil {
					kk = e.concInt(V{r: t})
				}
				q := *sp
				q.add += kk * el.size
				put(fr, V{r: &q})
				return
			}
			o := p.r.(*Obj)
			if t == nil {
				put(fr, V{n: p.n + uint64(k*el.size), r: o})
				return
			}
			put(fr, V{r: &SymPtr{obj: o, base: int(p.n), stride: el.size, idx: t, n: n}})
		})
	default:
		c.add(func(e *E, fr *Frame) { e.unsupported("indexaddr %s", in.X.Type()) })
	}
}

func (c *compiler) index(in *ssa.Index, dst int) {
	e := c.e
	x, i := c.opd(in.X), c.opd(in.Index)
	il := e.tc.layout(in.Index.Type())
	xl := e.tc.layout(in.X.Type())
	if xl.isStr {
		c.add(func(e *E, fr *Frame) {
			v, ok := e.strIndex(x.get(fr), i.get(fr), il)
			if ok {
				fr.regs[dst] = v
				fr.pc++
			}
		})
		return
	}
	n := xl.elemN
	el := xl.elem
	if el == nil {
		c.add(func(e *E, fr *Frame) { e.unsupported("index %s", in.X.Type()) })
		return
	}
	c.add(func(e *E, fr *Frame) {
		a := x.get(fr).r.(Agg)
		k, t, ok := e.boundsIdx(i.get(fr), il, n)
		if !ok {
			return
		}
		if t != nil {
			if el.scalar {
				fr.regs[dst] = e.selectCells([]V(a), 0, el.size, n, t, el.w)
				fr.pc++
				return
			}
			k = e.concInt(V{r: t})
		}
		if el.agg {
			fr.regs[dst] = V{r: a[k*el.size : (k+1)*el.size : (k+1)*el.size]}
		} else {
			fr.regs[dst] = a[k]
		}
		fr.pc++
	})
}

func (e *E) strIndex(s, iv V, il *Layout) (V, bool) {
	n := strLen(s)
	k, t, ok := e.boundsIdx(iv, il, n)
	if !ok {
		return V{}, false
	}
	if t == nil {
		return strAt(s, k), true
	}
	if cs, ok := s.r.(string); ok {
		tab := e.strTable(cs)
		return vTerm(e.applyIdx(tab, t)), true
	}
	return e.selectCells(strBytes(s), 0, 1, n, t, 8), true
}

var _ = math.MaxInt64

func (c *compiler) lookup(in *ssa.Lookup, dst int) {
	e := c.e
	x, i := c.opd(in.X), c.opd(in.Index)
	if e.tc.layout(in.X.Type()).isStr {
		il := e.tc.layout(in.Index.Type())
		c.add(func(e *E, fr *Frame) {
			v, ok := e.strIndex(x.get(fr), i.get(fr), il)
			if ok {
				fr.regs[dst] = v
				fr.pc++
			}
		})
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	vl := e.tc.layout(mt.Elem())
	ok2 := in.CommaOk
	c.add(func(e *E, fr *Frame) {
		mv := x.get(fr)
		var v V
		var found V
		if mv.r == nil {
			v = vl.zero()
		} else {
			v, found = e.mapGet(mv.r.(*Map), mt.Key(), i.get(fr), vl)
		}
		if ok2 {
			fr.regs[dst] = V{r: Tuple{v, found}}
		} else {
			fr.regs[dst] = v
		}
		fr.pc++
	})
}

func (c *compiler) slice(in *ssa.Slice, dst int) {
	e := c.e
	x := c.opd(in.X)
	get := func(v ssa.Value) func(e *E, fr *Frame) (int, bool) {
		if v == nil {
			return nil
		}
		o := c.opd(v)
		l := e.tc.layout(v.Type())
		return func(e *E, fr *Frame) (int, bool) {
			n := e.concretize(o.get(fr), l.w)
			if l.signed {
				return int(sext64(n, l.w)), true
			}
			return int(n), true
		}
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	put := func(fr *Frame, v V) { fr.regs[dst] = v; fr.pc++ }
	bounds := func(e *E, fr *Frame, ln, cp int) (l, h, m int, ok bool) {
		l, h, m = 0, ln, cp
		if lo != nil {
			l, _ = lo(e, fr)
		}
		if hi != nil {
			h, _ = hi(e, fr)
		}
		if mx != nil {
			m, _ = mx(e, fr)
		}
		if m < 0 || m > cp || h < 0 || h > m || l < 0 || l > h {
			e.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
			return 0, 0, 0, false
		}
		return l, h, m, true
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		c.add(func(e *E, fr *Frame) {
			s := x.get(fr)
			n := strLen(s)
			l, h, _, ok := bounds(e, fr, n, n)
			if ok {
				put(fr, strSlice(s, l, h))
			}
		})
	case *types.Slice:
		el := e.tc.layout(u.Elem())
		c.add(func(e *E, fr *Frame) {
			v := x.get(fr)
			s, _ := v.r.(*Slice)
			ln, cp := 0, 0
			if s != nil {
				ln, cp = s.len, s.cap
			}
			l, h, m, ok := bounds(e, fr, ln, cp)
			if !ok {
				return
			}
			if s == nil {
				put(fr, V{})
				return
			}
			put(fr, V{r: &Slice{s.obj, s.off + l*el.size, h - l, m - l}})
		})
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		el := e.tc.layout(arr.Elem())
		n := int(arr.Len())
		c.add(func(e *E, fr *Frame) {
			p := x.get(fr)
			if p.r == nil {
				e.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			o, isObj := p.r.(*Obj)
			if !isObj {
				p = e.concPtr(p)
				o = p.r.(*Obj)
			}
			l, h, m, ok := bounds(e, fr, n, n)
			if ok {
				put(fr, V{r: &Slice{o, int(p.n) + l*el.size, h - l, m - l}})
			}
		})
	default:
		c.add(func(e *E, fr *Frame) { e.unsupported("slice of %s", in.X.Type()) })
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert, dst int) {
	e := c.e
	x := c.opd(in.X)
	at := e.tc.canon(in.AssertedType)
	it, isIface := at.Underlying().(*types.Interface)
	l := e.tc.layout(in.AssertedType)
	commaOk := in.CommaOk
	cache := map[types.Type]bool{}
	c.add(func(e *E, fr *Frame) {
		v := x.get(fr)
		ok := false
		var res V
		if v.r != nil {
			f := v.r.(*Iface)
			if isIface {
				r, hit := cache[f.t]
				if !hit {
					r = types.Implements(f.t, it)
					cache[f.t] = r
				}
				ok = r
				res = v
			} else {
				ok = f.t == at
				res = f.v
			}
		}
		if !ok {
			res = l.zero()
			if !commaOk {
				e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("interface conversion")}}, fmt.Sprintf("interface conversion: %s is not %s", e.describe(v), at))
				return
			}
		}
		if commaOk {
			fr.regs[dst] = V{r: Tuple{res, vBool(ok)}}
		} else {
			fr.regs[dst] = res
		}
		fr.pc++
	})
}
