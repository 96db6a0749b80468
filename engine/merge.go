package main

// Merging of pure, acyclic regions: instead of forking at a branch whose two sides only
// compute values, both sides are evaluated and the results joined with ite.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type mergeBail struct{}

type mergeInfo struct {
	ok    bool
	order []int
	join  int // -1: function return
}

func (e *E) symIf(fr *Frame, f *Fn, bi int, t *Term) {
	if e.dcur >= len(e.dlist) {
		if lo, hi := e.T.pathInterval(t); lo == hi {
			fr.jump(&f.edges[bi][1-lo])
			return
		}
		if !e.conc && !e.noMerge && !f.hasDefer {
			mi := f.merges[bi]
			if mi == nil {
				mi = e.mergeInfo(f, bi)
				f.merges[bi] = mi
			}
			if mi.ok {
				if v, ok := e.tryMerge(fr, f, bi, mi, t); ok {
					e.stats.Merges++
					if mi.join < 0 {
						e.doReturn(fr, v)
					}
					return
				}
			}
		}
	}
	if e.branch(t) {
		fr.jump(&f.edges[bi][0])
	} else {
		fr.jump(&f.edges[bi][1])
	}
}

// computeIPdom computes immediate post-dominators (index nb = virtual exit).
func computeIPdom(fn *ssa.Function) []int {
	nb := len(fn.Blocks)
	// reverse post order of the reversed graph
	visited := make([]bool, nb+1)
	var post []int
	preds := func(b int) []int { // predecessors in reversed graph = successors
		if b == nb {
			return nil
		}
		s := fn.Blocks[b].Succs
		if len(s) == 0 {
			return []int{nb}
		}
		out := make([]int, len(s))
		for i, x := range s {
			out[i] = x.Index
		}
		return out
	}
	succs := func(b int) []int { // successors in reversed graph = predecessors
		if b == nb {
			var out []int
			for _, x := range fn.Blocks {
				if len(x.Succs) == 0 {
					out = append(out, x.Index)
				}
			}
			return out
		}
		var out []int
		for _, p := range fn.Blocks[b].Preds {
			out = append(out, p.Index)
		}
		return out
	}
	type st struct{ b, i int }
	stack := []st{{nb, 0}}
	visited[nb] = true
	for len(stack) > 0 {
		top := &stack[len(stack)-1]
		ss := succs(top.b)
		if top.i < len(ss) {
			n := ss[top.i]
			top.i++
			if !visited[n] {
				visited[n] = true
				stack = append(stack, st{n, 0})
			}
			continue
		}
		post = append(post, top.b)
		stack = stack[:len(stack)-1]
	}
	num := make([]int, nb+1)
	for i := range num {
		num[i] = -1
	}
	for i, b := range post {
		num[b] = i
	}
	ip := make([]int, nb+1)
	for i := range ip {
		ip[i] = -1
	}
	ip[nb] = nb
	for changed := true; changed; {
		changed = false
		for i := len(post) - 1; i >= 0; i-- {
			b := post[i]
			if b == nb {
				continue
			}
			nw := -1
			for _, p := range preds(b) {
				if num[p] < 0 || ip[p] < 0 {
					continue
				}
				if nw < 0 {
					nw = p
					continue
				}
				x, y := nw, p
				for x != y {
					for num[x] < num[y] {
						x = ip[x]
					}
					for num[y] < num[x] {
						y = ip[y]
					}
				}
				nw = x
			}
			if nw >= 0 && ip[b] != nw {
				ip[b] = nw
				changed = true
			}
		}
	}
	return ip
}

func (e *E) mergeInfo(f *Fn, bi int) *mergeInfo {
	if f.ipdom == nil {
		f.ipdom = computeIPdom(f.ssa)
	}
	nb := len(f.ssa.Blocks)
	j := f.ipdom[bi]
	if j < 0 {
		return &mergeInfo{}
	}
	join := j
	if j == nb {
		join = -1
	}
	state := map[int]int{}
	var order []int
	ok := true
	cnt := 0
	var dfs func(b int)
	dfs = func(b int) {
		if !ok || b == join {
			return
		}
		if b == bi || state[b] == 1 {
			ok = false
			return
		}
		if state[b] == 2 {
			return
		}
		state[b] = 1
		blk := f.ssa.Blocks[b]
		cnt += len(blk.Instrs)
		if cnt > 400 || len(state) > 60 || !e.pureBlock(blk, join == -1) {
			ok = false
			return
		}
		for _, s := range blk.Succs {
			dfs(s.Index)
		}
		state[b] = 2
		order = append(order, b)
	}
	for _, s := range f.ssa.Blocks[bi].Succs {
		dfs(s.Index)
	}
	if !ok {
		return &mergeInfo{}
	}
	for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
		order[i], order[k] = order[k], order[i]
	}
	return &mergeInfo{ok: true, order: order, join: join}
}

func (e *E) pureBlock(b *ssa.BasicBlock, retOK bool) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface,
			*ssa.Extract, *ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.DebugRef, *ssa.TypeAssert:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Convert:
			if !e.tc.layout(in.Type()).scalar {
				return false
			}
		case *ssa.Slice:
			if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
				return false
			}
		case *ssa.Lookup:
		case *ssa.Return:
			if !retOK {
				return false
			}
			for _, r := range in.Results {
				l := e.tc.layout(r.Type())
				if !l.scalar {
					return false
				}
			}
		case *ssa.Call:
			c := in.Common()
			if bt, ok := c.Value.(*ssa.Builtin); ok {
				switch bt.Name() {
				case "len", "cap", "min", "max":
					continue
				}
				return false
			}
			fn := c.StaticCallee()
			if fn == nil || c.IsInvoke() {
				return false
			}
			if _, ok := c.Value.(*ssa.MakeClosure); ok {
				return false
			}
			if !e.pureFn(fn) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *E) pureFn(fn *ssa.Function) bool {
	f := e.fn(fn)
	for f.model != nil {
		f = f.model
	}
	if f.intr != nil {
		return pureIntr[f.name]
	}
	switch f.pureState {
	case 1, 3:
		return false
	case 2:
		return true
	}
	f.pureState = 1
	ok := len(f.ssa.Blocks) <= 60 && !f.hasDefer
	// acyclic?
	if ok {
		state := make([]int8, len(f.ssa.Blocks))
		var order []int
		var dfs func(b int) bool
		dfs = func(b int) bool {
			if state[b] == 1 {
				return false
			}
			if state[b] == 2 {
				return true
			}
			state[b] = 1
			for _, s := range f.ssa.Blocks[b].Succs {
				if !dfs(s.Index) {
					return false
				}
			}
			state[b] = 2
			order = append(order, b)
			return true
		}
		ok = dfs(0)
		for _, b := range order {
			if !ok {
				break
			}
			ok = e.pureBlock(f.ssa.Blocks[b], true)
		}
		for i, k := 0, len(order)-1; i < k; i, k = i+1, k-1 {
			order[i], order[k] = order[k], order[i]
		}
		f.merges[-1] = &mergeInfo{ok: ok, order: order, join: -1}
	}
	if ok {
		f.pureState = 2
	} else {
		f.pureState = 3
	}
	return ok
}

type incoming struct {
	g    *Term
	vals []V
}

func (e *E) tryMerge(fr *Frame, f *Fn, bi int, mi *mergeInfo, t *Term) (res V, ok bool) {
	pc0 := fr.pc
	e.merging++
	defer func() {
		e.merging--
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeBail, pathEnd:
				fr.pc = pc0
				ok = false
				e.stats.Bails++
				return
			}
			panic(r)
		}
	}()
	inc := map[int][]incoming{}
	e.flow(fr, f, bi, 0, t, inc)
	e.flow(fr, f, bi, 1, e.T.Not(t), inc)
	rets := e.mergeRun(fr, f, mi, inc)
	if mi.join >= 0 {
		e.setPhis(fr, f, mi.join, inc[mi.join])
		fr.pc = f.blockPC[mi.join]
		return V{}, true
	}
	return e.mergeRets(f, rets), true
}

func (e *E) flow(fr *Frame, f *Fn, bi, k int, g *Term, inc map[int][]incoming) {
	if g == e.T.ff {
		return
	}
	ed := &f.edges[bi][k]
	vals := make([]V, len(ed.moves))
	for i := range ed.moves {
		vals[i] = ed.moves[i].src.get(fr)
	}
	inc[ed.blk] = append(inc[ed.blk], incoming{g, vals})
}

func (e *E) setPhis(fr *Frame, f *Fn, b int, ins []incoming) {
	if len(ins) == 0 {
		panic(mergeBail{})
	}
	dsts := f.phiDst[b]
	if len(dsts) == 0 {
		return
	}
	blk := f.ssa.Blocks[b]
	out := make([]V, len(dsts))
	for p := range dsts {
		l := e.tc.layout(blk.Instrs[p].(*ssa.Phi).Type())
		acc := ins[len(ins)-1].vals[p]
		for i := len(ins) - 2; i >= 0; i-- {
			acc = e.mergeV(ins[i].g, ins[i].vals[p], acc, l)
		}
		out[p] = acc
	}
	for p, d := range dsts {
		fr.regs[d] = out[p]
	}
}

func (e *E) mergeV(g *Term, a, b V, l *Layout) V {
	if sameV(a, b) {
		return a
	}
	if l.scalar {
		if l.w == 64 && a.r == nil && b.r == nil {
			panic(mergeBail{}) // keep lengths and positions concrete
		}
		return vTerm(e.T.Ite(g, e.term(a, l.w), e.term(b, l.w)))
	}
	if l.isStr && strLen(a) == strLen(b) {
		if _, ok := a.r.(*AStr); ok {
			panic(mergeBail{})
		}
		if _, ok := b.r.(*AStr); ok {
			panic(mergeBail{})
		}
		x, y := strBytes(a), strBytes(b)
		out := make([]V, len(x))
		for i := range x {
			if sameV(x[i], y[i]) {
				out[i] = x[i]
			} else {
				out[i] = vTerm(e.T.Ite(g, e.term(x[i], 8), e.term(y[i], 8)))
			}
		}
		return mkStr(out)
	}
	panic(mergeBail{})
}

type retVal struct {
	g    *Term
	vals []V
}

func (e *E) mergeRets(f *Fn, rets []retVal) V {
	if len(rets) == 0 {
		panic(mergeBail{})
	}
	res := f.ssa.Signature.Results()
	out := make([]V, res.Len())
	for p := range out {
		l := e.tc.layout(res.At(p).Type())
		acc := rets[len(rets)-1].vals[p]
		for i := len(rets) - 2; i >= 0; i-- {
			acc = e.mergeV(rets[i].g, rets[i].vals[p], acc, l)
		}
		out[p] = acc
	}
	switch len(out) {
	case 0:
		return V{}
	case 1:
		return out[0]
	}
	return V{r: Tuple(out)}
}

func (e *E) mergeRun(fr *Frame, f *Fn, mi *mergeInfo, inc map[int][]incoming) []retVal {
	var rets []retVal
	for _, b := range mi.order {
		ins := inc[b]
		if len(ins) == 0 {
			continue
		}
		gs := make([]*Term, len(ins))
		for i := range ins {
			gs[i] = ins[i].g
		}
		g := e.T.OrN(gs)
		e.setPhis(fr, f, b, ins)
		end := f.blockEnd[b]
		for pc := f.blockPC[b]; pc < end; pc++ {
			e.steps++
			if ci := f.calls[pc]; ci != nil {
				target := e.fn(ci.fn)
				for target.model != nil {
					target = target.model
				}
				if target.intr == nil {
					args := make([]V, len(ci.args))
					for i := range args {
						args[i] = ci.args[i].get(fr)
					}
					fr.regs[ci.dst] = e.pureCall(target, args)
					continue
				}
			}
			fr.pc = pc
			f.code[pc](e, fr)
		}
		blk := f.ssa.Blocks[b]
		switch blk.Instrs[len(blk.Instrs)-1].(type) {
		case *ssa.Jump:
			e.flow(fr, f, b, 0, g, inc)
		case *ssa.If:
			c := f.conds[b].get(fr)
			if t, ok := c.r.(*Term); ok {
				if lo, hi := e.T.pathInterval(t); lo == hi {
					e.flow(fr, f, b, int(1-lo), g, inc)
				} else {
					e.flow(fr, f, b, 0, e.T.And(g, t), inc)
					e.flow(fr, f, b, 1, e.T.And(g, e.T.Not(t)), inc)
				}
			} else if c.n != 0 {
				e.flow(fr, f, b, 0, g, inc)
			} else {
				e.flow(fr, f, b, 1, g, inc)
			}
		case *ssa.Return:
			rs := f.rets[b]
			vals := make([]V, len(rs))
			for i := range rs {
				vals[i] = rs[i].get(fr)
			}
			rets = append(rets, retVal{g, vals})
		default:
			panic(mergeBail{})
		}
	}
	return rets
}

func (e *E) pureCall(f *Fn, args []V) V {
	e.fnCalls[f.ssa]++
	fr := &Frame{fn: f, regs: make([]V, f.nregs), ep: e.epoch, dst: dstNone}
	copy(fr.regs, args)
	inc := map[int][]incoming{0: {{e.T.tt, nil}}}
	rets := e.mergeRun(fr, f, f.merges[-1], inc)
	return e.mergeRets(f, rets)
}
