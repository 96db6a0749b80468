package main

// The executor: threads, frames, choice points, path constraints.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   V // closure, or nil with builtin
	b    *ssa.Builtin
	args []V
	next *deferred
	call *ssa.CallCommon
}

type Frame struct {
	fn     *Fn
	regs   []V
	pc     int
	ep     int32
	dst    int // destination register in the caller; dstNone/dstDefer/dstRun
	defers *deferred
	unwind bool
	isDef  bool // frame runs a deferred call during a panic
}

const (
	dstNone  = -1
	dstDefer = -2 // deferred call made while unwinding
	dstRun   = -3 // deferred call made by RunDefers
)

type GoPanic struct {
	val       V // interface value
	recovered bool
	where     string
}

type Thread struct {
	id      int
	frames  []*Frame
	pan     *GoPanic
	done    bool
	blocked string // non-empty: waiting on this key
	granted bool
	sending bool // its value is in an unbuffered channel
	vc      []uint32
}

type dec struct {
	idx int32
	n   int32 // number of alternatives (0: value decision)
	val uint64
}

type alt struct {
	d     dec
	model Model
}

type choicePoint struct {
	threads   []Thread // snapshot (frames slices copied)
	cur       int
	trail     int
	pc        int
	bounds    int
	path      int
	nsym      int
	nlog      int
	covers    int
	obs       int
	steps     int64
	dlist     []dec
	alts      []alt
	schedFlag bool
}

type trailEnt struct {
	obj  *Obj
	idx  int
	old  V
	undo func()
}

type boundEnt struct {
	v      int32
	lo, hi uint64
}

type nondet struct {
	kind string
	name string
	v    V
	w    uint8
}

// Reasons to leave a path.
type pathEnd struct {
	kind string // ok, infeasible, assume, unsupported, panic, steps, unknown, deadlock, race
	msg  string
}

type Candidate struct {
	Harness string         `json:"harness"`
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Where   string         `json:"where"`
	Vals    []Replay       `json:"values"`
	Params  map[string]int `json:"params"`
	Race    bool           `json:"race,omitempty"`
	Repeat  bool           `json:"repeat,omitempty"`
	Tail    int            `json:"tail,omitempty"` // chooses the inputs after the recorded ones
}

type Replay struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  int64  `json:"val"`
	Str  string `json:"str,omitempty"`
}

type Stats struct {
	Paths           int64            `json:"paths"`
	Ends            map[string]int64 `json:"path_ends"`
	Steps           int64            `json:"instructions"`
	Forks           int64            `json:"forks"`
	Asserts         int64            `json:"assertions_checked"`
	AssertConst     int64            `json:"assertions_closed_by_simplification"`
	AssertUnsat     int64            `json:"assertions_discharged_by_solver"`
	AssertSat       int64            `json:"assertions_refuted"`
	Unsupported     map[string]int64 `json:"unsupported,omitempty"`
	Covers          map[string]int64 `json:"reached"`
	Functions       map[string]int64 `json:"-"`
	SchedChoices    int64            `json:"schedule_choices"`
	MaxSyms         int              `json:"max_symbolic_inputs_on_a_path"`
	Merges          int64            `json:"branches_merged"`
	Bails           int64            `json:"merges_abandoned"`
	DomainDecided   int64            `json:"branches_decided_by_domains"`
	DomainUnsat     int64            `json:"branches_ruled_out_by_domains"`
	DomainConfirmed int64            `json:"of_these_confirmed_by_solver"`
}

type E struct {
	prog            *Program
	T               *Terms
	S               *Solver
	tc              *typeCtx
	fns             map[*ssa.Function]*Fn
	globals         map[*ssa.Global]*Obj
	unset, modelled map[*ssa.Global]bool
	unsetDone       map[*ssa.Package]bool
	epoch           int32
	nextObj         int32

	threads []*Thread
	cur     int

	trail   []trailEnt
	pc      []*Term
	bounds  []boundEnt
	model   Model
	modelOK bool
	path    []dec
	cps     []*choicePoint
	logging bool // any choice point active or to be undone (always true after init)

	// current instruction
	dlist          []dec
	dcur           int
	mTrail, mPC    int
	mBounds, mPath int
	mNsym, mNlog   int
	mCovers        int
	mObs           int

	prefix []dec
	ppos   int

	nsym     int
	symCache map[string]*Term
	nlog     []nondet
	covers   []string

	steps                 int64
	maxSteps              int64
	params                map[string]int
	consts                []int
	harness               string
	stats                 Stats
	cands                 []*Candidate
	candSeen              map[string]bool
	deadline              time.Time
	donate                func(prefix []dec) bool
	onCand                func(c *Candidate) bool // returns true to stop
	confirmEvery          int64
	confirmLeft           time.Duration
	encoded               map[[4]int32]encodedRune
	decoded               map[int32]decodedRune
	onSample              func(c *Candidate, obs []string)
	obs                   []V
	atoms                 map[int][]atomEnt
	stop                  func() bool
	mapOrder              bool
	curPos                token.Pos
	tables                map[tabKey]*Table
	ntab                  int
	sideVC                map[string][]uint32
	mtCache               map[mtKey]*ssa.Function
	rtErrT                types.Type
	conc                  bool // more than one thread was ever started on this path
	sidedata              map[any]V
	inInit                bool
	merging               int
	noMerge               bool
	strTabs               map[string]*strTab
	preempts, maxPreempts int
	uniTabs               map[string]*Table
	harvest               []int
	debug                 bool
	initFail              []string
	fnCalls               map[*ssa.Function]int64
}

type tabKey struct {
	obj    *Obj
	ver    int32
	lo, hi int
	stride int
	add    int
	w      uint8
}

type mtKey struct {
	t types.Type
	m *types.Func
}

func newE(p *Program, solverBin string, toMS int) *E {
	T := NewTerms()
	e := &E{prog: p, T: T, S: NewSolver(T, solverBin, toMS), tc: newTypeCtx(),
		fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{}, symCache: map[string]*Term{},
		candSeen: map[string]bool{}, tables: map[tabKey]*Table{}, mtCache: map[mtKey]*ssa.Function{},
		sidedata: map[any]V{}, strTabs: map[string]*strTab{}, uniTabs: map[string]*Table{}, maxPreempts: 4, ntab: 1000, fnCalls: map[*ssa.Function]int64{}}
	e.maxSteps = 200_000_000
	e.resetStats()
	return e
}

func (e *E) resetStats() {
	e.stats = Stats{Ends: map[string]int64{}, Unsupported: map[string]int64{}, Covers: map[string]int64{}}
	e.S.Stats = SolverStats{}
}

func (e *E) end(kind, format string, a ...any) {
	panic(pathEnd{kind, fmt.Sprintf(format, a...)})
}

func (e *E) unsupported(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if th := e.thread(); th != nil && len(th.frames) > 0 {
		msg += " in " + th.frames[len(th.frames)-1].fn.name
	}
	panic(pathEnd{"unsupported", msg})
}

func (e *E) thread() *Thread {
	if e.cur < len(e.threads) {
		return e.threads[e.cur]
	}
	return nil
}

// ---- heap ----

func (e *E) newObj(n int, what string) *Obj {
	e.nextObj++
	return &Obj{cells: make([]V, n), ep: e.epoch, id: e.nextObj, what: what}
}

func (e *E) write(o *Obj, i int, v V) {
	if o.ep != e.epoch {
		e.trail = append(e.trail, trailEnt{obj: o, idx: i, old: o.cells[i]})
	}
	o.cells[i] = v
	o.ver++
}

func (e *E) onUndo(f func()) {
	e.trail = append(e.trail, trailEnt{undo: f})
}

func (e *E) undoTo(mark int) {
	for i := len(e.trail) - 1; i >= mark; i-- {
		t := &e.trail[i]
		if t.undo != nil {
			t.undo()
			t.undo = nil
		} else {
			t.obj.cells[t.idx] = t.old
			t.obj.ver++
			t.obj = nil
			t.old = V{}
		}
	}
	e.trail = e.trail[:mark]
}

// ---- path constraints ----

func (e *E) addPC(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			e.end("infeasible", "")
		}
		return
	}
	if c.op == OBAnd {
		e.addPC(c.a)
		e.addPC(c.b)
		return
	}
	for _, p := range e.pc {
		if p == c {
			return
		}
	}
	e.pc = append(e.pc, c)
	e.narrow(c)
}

func (e *E) setBound(v *Term, lo, hi uint64) {
	i := int(v.val)
	T := e.T
	for len(T.plo) <= i {
		T.plo = append(T.plo, 0)
		T.phi = append(T.phi, mask(T.vars[len(T.phi)].w))
	}
	ol, oh := T.plo[i], T.phi[i]
	nl, nh := ol, oh
	if lo > nl {
		nl = lo
	}
	if hi < nh {
		nh = hi
	}
	if nl == ol && nh == oh {
		return
	}
	if nl > nh {
		return // infeasible; the solver will say so
	}
	e.bounds = append(e.bounds, boundEnt{int32(i), ol, oh})
	T.plo[i], T.phi[i] = nl, nh
}

func (e *E) narrow(c *Term) {
	switch c.op {
	case OEq:
		if c.a.op == OVar && c.b.isConst() {
			e.setBound(c.a, c.b.val, c.b.val)
		}
	case OUlt:
		if c.a.op == OVar && c.b.isConst() && c.b.val > 0 {
			e.setBound(c.a, 0, c.b.val-1)
		}
		if c.b.op == OVar && c.a.isConst() && c.a.val < ^uint64(0) {
			e.setBound(c.b, c.a.val+1, ^uint64(0))
		}
	case OUle:
		if c.a.op == OVar && c.b.isConst() {
			e.setBound(c.a, 0, c.b.val)
		}
		if c.b.op == OVar && c.a.isConst() {
			e.setBound(c.b, c.a.val, ^uint64(0))
		}
	case OTable:
		if c.a.op == OVar {
			lo, hi := ^uint64(0), uint64(0)
			for i, s := range c.tab.starts {
				if c.tab.vals[i] == 0 {
					continue
				}
				end := mask(c.a.w)
				if i+1 < len(c.tab.starts) {
					end = c.tab.starts[i+1] - 1
				}
				if lo > s {
					lo = s
				}
				hi = end
			}
			if lo <= hi {
				e.setBound(c.a, lo, hi)
			}
		}
	case OBNot:
		if c.a.op == OEq && c.a.a.op == OVar && c.a.b.isConst() {
			i := int(c.a.a.val)
			if i < len(e.T.plo) {
				v := c.a.b.val
				if e.T.plo[i] == v && v < e.T.phi[i] {
					e.setBound(c.a.a, v+1, ^uint64(0))
				} else if e.T.phi[i] == v && v > e.T.plo[i] {
					e.setBound(c.a.a, 0, v-1)
				}
			}
		}
	}
}

// slice returns the path constraints connected to c by shared variables.
func (e *E) slice(c *Term) []*Term {
	in := map[int32]bool{}
	for _, v := range c.vars {
		in[v] = true
	}
	var out []*Term
	used := make([]bool, len(e.pc))
	for {
		changed := false
		for i, p := range e.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, p)
				for _, v := range p.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return out
}

// feasible asks whether pc && c is satisfiable; on Sat it returns a full model.
func (e *E) feasible(c *Term) (Result, Model) {
	if c.op == OConst {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, e.model
	}
	lo, hi := e.T.pathInterval(c)
	if lo == hi {
		if lo == 0 {
			return Unsat, nil
		}
	}
	q := append(e.slice(c), c)
	if r, m := e.domains(q); r != Unknown {
		e.stats.DomainDecided++
		if r == Unsat {
			e.stats.DomainUnsat++
			// the solver confirms a share of what the domains rule out
			if k := e.confirmEvery; k > 0 && e.stats.DomainUnsat%k == 1%k && e.confirmLeft > 0 {
				e.stats.DomainConfirmed++
				t0 := time.Now()
				z, _ := e.ask(q)
				e.confirmLeft -= time.Since(t0)
				if z == Sat {
					e.end("engine", "domain procedure and solver disagree")
				}
			}
		}
		return r, m
	}
	return e.ask(q)
}

type wideState struct {
	v    int32
	rs   []rng
	hard []*Term
	val  uint64
}

// domains decides a conjunction by intersecting the byte domains its one-variable members allow.
func (e *E) domains(q []*Term) (Result, Model) {
	var vs [8]int32
	var ds [8][4]uint64
	n := 0
	multi := false
	var wides []wideState
	for _, c := range q {
		if c == e.T.ff {
			return Unsat, nil
		}
		if c == e.T.tt {
			continue
		}
		if len(c.vars) != 1 {
			multi = true
			continue
		}
		if e.T.vars[c.vars[0]].w > 8 {
			var st *wideState
			for i := range wides {
				if wides[i].v == c.vars[0] {
					st = &wides[i]
				}
			}
			if st == nil {
				wides = append(wides, wideState{v: c.vars[0], rs: []rng{{0, mask(e.T.vars[c.vars[0]].w)}}})
				st = &wides[len(wides)-1]
			}
			d := e.T.ranges(c)
			if !d.simple {
				st.hard = append(st.hard, c)
				continue
			}
			if c.op == OBNot && len(d.rs) <= 2 && c.a.op == OEq && c.a.rdom == nil {
				k := c.a.a
				if k.op != OConst {
					k = c.a.b
				}
				if k.op == OConst && c.a.a.op != OTable && c.a.b.op != OTable {
					st.rs = without(st.rs, k.val)
				} else {
					st.rs = intersect(st.rs, d.rs)
				}
			} else {
				st.rs = intersect(st.rs, d.rs)
			}
			if len(st.rs) == 0 {
				return Unsat, nil
			}
			continue
		}
		b := e.T.domain(c)
		k := 0
		for k < n && vs[k] != c.vars[0] {
			k++
		}
		if k == n {
			if n == len(vs) {
				multi = true
				continue
			}
			vs[n] = c.vars[0]
			ds[n] = *b
			n++
		} else {
			for j := range b {
				ds[k][j] &= b[j]
			}
		}
		if ds[k][0]|ds[k][1]|ds[k][2]|ds[k][3] == 0 {
			return Unsat, nil
		}
	}
	undecided := multi
	for i := range wides {
		st := &wides[i]
		if len(st.hard) == 0 {
			st.val = st.rs[0].lo
			continue
		}
		if size(st.rs) > 4096 && st.rs[len(st.rs)-1].hi <= partialLimit {
			var left []*Term
			for _, c := range st.hard {
				if d := e.T.characters(c); d.partial {
					st.rs = intersect(st.rs, d.rs)
				} else {
					left = append(left, c)
				}
			}
			if len(st.rs) == 0 {
				return Unsat, nil
			}
			st.hard = left
			if len(left) == 0 {
				st.val = st.rs[0].lo
				continue
			}
		}
		if size(st.rs) > 4096 {
			undecided = true
			continue
		}
		found := false
	search:
		for _, r := range st.rs {
		values:
			for x := r.lo; ; x++ {
				for _, c := range st.hard {
					if !e.T.holdsAt(c, st.v, x) {
						if x == r.hi {
							break values
						}
						continue values
					}
				}
				st.val, found = x, true
				break search
			}
		}
		if !found {
			return Unsat, nil
		}
	}
	if undecided {
		return Unknown, nil
	}
	m := make(Model, len(e.T.vars))
	copy(m, e.model)
	for _, st := range wides {
		m[st.v] = st.val
	}
	for k := 0; k < n; k++ {
		for j := 0; j < 4; j++ {
			if ds[k][j] != 0 {
				m[vs[k]] = uint64(j*64 + bits.TrailingZeros64(ds[k][j]))
				break
			}
		}
	}
	return Sat, m
}

// ask puts a conjunction to the SMT solver.
func (e *E) ask(q []*Term) (Result, Model) {
	r, vars, vals := e.S.Check(q)
	if r != Sat {
		return r, nil
	}
	m := make(Model, len(e.T.vars))
	copy(m, e.model)
	for i, v := range vars {
		m[v] = vals[i]
	}
	return Sat, m
}

func (e *E) ensureModel() {
	if e.modelOK {
		return
	}
	r, vars, vals := e.S.Check(e.pc)
	if r == Unsat {
		e.end("infeasible", "")
	}
	if r == Unknown {
		e.end("unknown", "solver unknown on path condition")
	}
	m := make(Model, len(e.T.vars))
	for i, v := range vars {
		m[v] = vals[i]
	}
	e.model = m
	e.modelOK = true
}

// branch decides a condition, forking when both outcomes are possible.
func (e *E) branch(c *Term) bool {
	if c.op == OConst {
		return c.val != 0
	}
	if lo, hi := e.T.pathInterval(c); lo == hi {
		return lo != 0
	}
	return e.choose([]*Term{c, e.T.Not(c)}) == 0
}

func (e *E) branchV(v V) bool {
	if t, ok := v.r.(*Term); ok {
		return e.branch(t)
	}
	return v.n != 0
}

func (e *E) record(d dec) {
	e.dlist = append(e.dlist, d)
	e.dcur++
	e.path = append(e.path, d)
}

func (e *E) deadlineCheck() {
	if e.stop != nil && e.stop() {
		e.end("stopped", "")
	}
}

// choose picks one of exhaustive alternatives; nil conditions mean "free choice".
func (e *E) choose(alts []*Term) int {
	n := 0
	last := -1
	for i, a := range alts {
		if a == nil || a.op != OConst {
			n++
			last = i
			continue
		}
		if a.val != 0 {
			n++
			last = i
		}
	}
	if n == 1 {
		return last
	}
	if n == 0 {
		e.end("infeasible", "")
	}
	if e.merging > 0 {
		panic(mergeBail{})
	}
	if e.inInit {
		panic("symbolic choice during init")
	}
	// replay within the instruction
	if e.dcur < len(e.dlist) {
		d := e.dlist[e.dcur]
		e.dcur++
		e.path = append(e.path, d)
		if alts[d.idx] != nil {
			e.addPC(alts[d.idx])
		}
		return int(d.idx)
	}
	if e.ppos < len(e.prefix) {
		d := e.prefix[e.ppos]
		e.ppos++
		if int(d.n) != len(alts) {
			e.unsupported("prefix replay diverged: %d alternatives, recorded %d", len(alts), d.n)
		}
		e.record(d)
		if alts[d.idx] != nil {
			e.addPC(alts[d.idx])
		}
		e.modelOK = false
		return int(d.idx)
	}
	e.deadlineCheck()
	e.ensureModel()
	var ok []alt
	for i, a := range alts {
		d := dec{idx: int32(i), n: int32(len(alts))}
		if a == nil {
			ok = append(ok, alt{d, e.model})
			continue
		}
		if a.op == OConst && a.val == 0 {
			continue
		}
		if e.T.Eval(a, e.model) != 0 {
			ok = append(ok, alt{d, e.model})
			continue
		}
		r, m := e.feasible(a)
		switch r {
		case Sat:
			ok = append(ok, alt{d, m})
		case Unknown:
			e.stats.Ends["unknown-branch"]++
		}
	}
	if len(ok) == 0 {
		e.end("infeasible", "")
	}
	return int(e.take(ok, func(d dec) *Term { return alts[d.idx] }).idx)
}

// take records a decision among ok alternatives, creating a choice point if there are several.
func (e *E) take(ok []alt, cond func(dec) *Term) dec {
	if len(ok) > 1 {
		e.stats.Forks++
		rest := ok[1:]
		// offer work to idle workers
		if e.donate != nil {
			keep := rest[:0:0]
			for _, a := range rest {
				p := make([]dec, 0, len(e.path)+1)
				p = append(p, e.path...)
				p = append(p, a.d)
				if !e.donate(p) {
					keep = append(keep, a)
				}
			}
			rest = keep
		}
		if len(rest) > 0 {
			e.pushCP(rest)
		}
	}
	e.model = ok[0].model
	e.record(ok[0].d)
	if c := cond(ok[0].d); c != nil {
		e.addPC(c)
	}
	return ok[0].d
}

func (e *E) pushCP(rest []alt) {
	cp := &choicePoint{cur: e.cur, trail: e.mTrail, pc: e.mPC, bounds: e.mBounds, path: e.mPath,
		nsym: e.mNsym, nlog: e.mNlog, covers: e.mCovers, obs: e.mObs, steps: e.steps,
		dlist: append([]dec(nil), e.dlist...), alts: rest}
	for _, t := range e.threads {
		c := *t
		c.frames = append([]*Frame(nil), t.frames...)
		c.vc = append([]uint32(nil), t.vc...)
		if t.pan != nil {
			p := *t.pan
			c.pan = &p
		}
		cp.threads = append(cp.threads, c)
	}
	e.cps = append(e.cps, cp)
	e.epoch++
	// the running frame stays with the live state; the snapshot gets a copy
	th := e.threads[e.cur]
	if n := len(th.frames); n > 0 {
		fr := th.frames[n-1]
		c := *fr
		c.regs = append([]V(nil), fr.regs...)
		cp.threads[e.cur].frames[n-1] = &c
		fr.ep = e.epoch
	}
}

// backtrack restores the most recent choice point and takes its next alternative.
func (e *E) backtrack() bool {
	if len(e.cps) == 0 {
		return false
	}
	cp := e.cps[len(e.cps)-1]
	a := cp.alts[0]
	cp.alts = cp.alts[1:]
	e.undoTo(cp.trail)
	e.pc = e.pc[:cp.pc]
	for i := len(e.bounds) - 1; i >= cp.bounds; i-- {
		b := e.bounds[i]
		e.T.plo[b.v], e.T.phi[b.v] = b.lo, b.hi
	}
	e.bounds = e.bounds[:cp.bounds]
	e.path = e.path[:cp.path]
	e.nsym = cp.nsym
	e.nlog = e.nlog[:cp.nlog]
	e.covers = e.covers[:cp.covers]
	e.obs = e.obs[:cp.obs]
	e.steps = cp.steps
	e.dlist = append(append([]dec(nil), cp.dlist...), a.d)
	e.dcur = 0
	e.model = a.model
	e.modelOK = true
	e.cur = cp.cur
	e.threads = e.threads[:0:0]
	lastUse := len(cp.alts) == 0
	for i := range cp.threads {
		c := cp.threads[i]
		if !lastUse {
			c.frames = append([]*Frame(nil), c.frames...)
			c.vc = append([]uint32(nil), c.vc...)
			if c.pan != nil {
				p := *c.pan
				c.pan = &p
			}
		}
		e.threads = append(e.threads, &c)
	}
	if lastUse {
		e.cps = e.cps[:len(e.cps)-1]
	}
	e.epoch++
	return true
}

// concretize returns a concrete value for v, forking over all feasible values.
func (e *E) concretize(v V, w uint8) uint64 {
	t, ok := v.r.(*Term)
	if !ok {
		return v.n
	}
	if lo, hi := e.T.pathInterval(t); lo == hi {
		return lo
	}
	if e.merging > 0 {
		panic(mergeBail{})
	}
	mkc := func(val uint64) *Term { return e.T.Eq(t, e.T.Const(t.w, val)) }
	if e.dcur < len(e.dlist) {
		d := e.dlist[e.dcur]
		e.dcur++
		e.path = append(e.path, d)
		e.addPC(mkc(d.val))
		return d.val
	}
	if e.ppos < len(e.prefix) {
		d := e.prefix[e.ppos]
		e.ppos++
		e.record(d)
		e.addPC(mkc(d.val))
		e.modelOK = false
		return d.val
	}
	e.deadlineCheck()
	e.ensureModel()
	var oks []alt
	v0 := e.T.Eval(t, e.model)
	oks = append(oks, alt{dec{val: v0}, e.model})
	block := e.T.Not(mkc(v0))
	for {
		r, m := e.feasible(block)
		if r == Unsat {
			break
		}
		if r == Unknown {
			e.stats.Ends["unknown-branch"]++
			break
		}
		x := e.T.Eval(t, m)
		oks = append(oks, alt{dec{val: x}, m})
		block = e.T.And(block, e.T.Not(mkc(x)))
		if len(oks) > 4096 {
			e.unsupported("concretize: too many values")
		}
	}
	sort.Slice(oks, func(i, j int) bool { return oks[i].d.val < oks[j].d.val })
	return e.take(oks, func(d dec) *Term { return mkc(d.val) }).val
}

func (e *E) concInt(v V) int { return int(int64(e.concretize(v, 64))) }

// ---- running ----

func (e *E) top() *Frame {
	th := e.threads[e.cur]
	i := len(th.frames) - 1
	fr := th.frames[i]
	if fr.ep != e.epoch {
		c := *fr
		c.regs = append([]V(nil), fr.regs...)
		c.ep = e.epoch
		fr = &c
		th.frames[i] = fr
	}
	return fr
}

func (e *E) pushFrame(fn *Fn, args []V, env []V, dst int) {
	th := e.threads[e.cur]
	if len(th.frames) > 3000 {
		e.end("steps", "stack overflow")
	}
	fr := &Frame{fn: fn, regs: make([]V, fn.nregs), ep: e.epoch, dst: dst}
	copy(fr.regs, args)
	copy(fr.regs[fn.nparams:], env)
	th.frames = append(th.frames, fr)
	e.fnCalls[fn.ssa]++
}

func (e *E) step() {
	e.mTrail, e.mPC, e.mBounds, e.mPath = len(e.trail), len(e.pc), len(e.bounds), len(e.path)
	e.mNsym, e.mNlog, e.mCovers, e.mObs = e.nsym, len(e.nlog), len(e.covers), len(e.obs)
	th := e.threads[e.cur]
	if th.done || th.blocked != "" {
		e.reschedule()
		return
	}
	fr := e.top()
	fr.fn.code[fr.pc](e, fr)
}

func (e *E) loop() {
	for {
		e.dlist = e.dlist[:0]
		e.dcur = 0
		e.steps++
		if e.steps > e.maxSteps {
			e.end("steps", "step limit %d", e.maxSteps)
		}
		if e.steps&0xfffff == 0 {
			e.deadlineCheck()
		}
		e.step()
	}
}

// resume executes the interrupted instruction (with its decision list), then loops.
func (e *E) resume() {
	e.step()
	e.loop()
}

// step function for one path; returns how it ended.
func (e *E) runOne(first bool, start func()) (pe pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(pathEnd); ok {
				pe = p
				return
			}
			if e.debug {
				fmt.Println("ENGINE PANIC at", e.where(), e.curInstr())
				panic(r)
			}
			pe = pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", r, e.where())}
		}
	}()
	if first {
		start()
		e.loop()
	} else {
		e.resume()
	}
	return pathEnd{"ok", ""}
}

// Explore runs harness fn along the given prefix and everything below it.
func (e *E) Explore(h *ssa.Function, prefix []dec) {
	baseTrail := len(e.trail)
	e.epoch++
	e.pc = e.pc[:0]
	e.path = e.path[:0]
	e.cps = e.cps[:0]
	e.nsym = 0
	e.nlog = e.nlog[:0]
	clear(e.encoded)
	clear(e.decoded)
	e.covers = e.covers[:0]
	e.obs = e.obs[:0]
	e.steps = 0
	e.model = Model{}
	e.modelOK = true
	e.prefix = prefix
	e.ppos = 0
	e.mapOrder = false
	e.conc = false
	e.preempts = 0
	e.sideVC = map[string][]uint32{}
	for i := len(e.bounds) - 1; i >= 0; i-- {
		b := e.bounds[i]
		e.T.plo[b.v], e.T.phi[b.v] = b.lo, b.hi
	}
	e.bounds = e.bounds[:0]
	first := true
	start := func() {
		e.threads = []*Thread{{id: 0, vc: []uint32{1}}}
		e.cur = 0
		e.pushFrame(e.fn(h), nil, nil, dstNone)
	}
	for {
		s0 := e.steps
		if !first {
			// steps restored by backtrack
			s0 = e.steps
		}
		pe := e.runOne(first, start)
		first = false
		e.stats.Steps += e.steps - s0
		e.finishPath(pe)
		if e.stop != nil && e.stop() {
			break
		}
		if !e.backtrack() {
			break
		}
	}
	e.undoTo(baseTrail)
	e.cps = e.cps[:0]
	e.threads = nil
}

func (e *E) finishPath(pe pathEnd) {
	if pe.kind == "stopped" {
		e.stats.Ends["stopped"]++
		return
	}
	if pe.kind != "infeasible" && pe.kind != "assume" {
		e.stats.Paths++
	}
	e.stats.Ends[pe.kind]++
	switch pe.kind {
	case "ok":
		if n := e.stats.Paths; e.onSample != nil && !e.conc && !e.mapOrder && n&(n-1) == 0 {
			e.sample()
		}
		for _, c := range e.covers {
			e.stats.Covers[c]++
		}
		if e.nsym > e.stats.MaxSyms {
			e.stats.MaxSyms = e.nsym
		}
	case "unsupported":
		if len(e.stats.Unsupported) < 30 {
			e.stats.Unsupported[pe.msg]++
		}
		if !e.conc && !e.mapOrder {
			e.candidate("handover", pe.msg, nil)
		}
	case "panic", "steps", "deadlock", "race":
		e.candidate(pe.kind, pe.msg, nil)
	}
}

// sample hands out a witness of the path with what it observes.
func (e *E) sample() {
	ok := false
	func() {
		defer func() { recover() }()
		e.ensureModel()
		ok = true
	}()
	if !ok {
		return
	}
	old := e.onCand
	var c *Candidate
	e.onCand = func(x *Candidate) bool { c = x; return false }
	e.candidate("sample", "", e.model)
	e.onCand = old
	if c == nil {
		return
	}
	var obs []string
	for _, v := range e.obs {
		obs = append(obs, e.showVal(v, e.model))
	}
	e.onSample(c, obs)
}

// candidate records a potential violation with the current model.
func (e *E) candidate(kind, msg string, m Model) {
	if m == nil {
		have := false
		func() {
			defer func() { recover() }()
			e.ensureModel()
			m = e.model
			have = true
		}()
		if !have {
			// the path condition has no model, or the solver cannot tell
			if r, _, _ := e.S.Check(e.pc); r != Unsat {
				e.stats.Ends["unknown-assert"]++
			}
			return
		}
	}
	c := &Candidate{Harness: e.harness, Kind: kind, Msg: msg, Where: e.where(), Params: e.params, Race: kind == "race", Repeat: e.mapOrder || e.conc}
	for _, n := range e.nlog {
		var x uint64
		if t, ok := n.v.r.(*Term); ok {
			x = e.T.Eval(t, m)
		} else {
			x = n.v.n
		}
		c.Vals = append(c.Vals, Replay{Kind: n.kind, Name: n.name, Val: sext64(x, n.w)})
	}
	if e.onCand != nil {
		e.onCand(c)
	}
}

func (e *E) where() string {
	th := e.thread()
	if th == nil {
		return ""
	}
	var parts []string
	for i := len(th.frames) - 1; i >= 0 && len(parts) < 12; i-- {
		parts = append(parts, th.frames[i].fn.name)
	}
	return strings.Join(parts, " < ")
}

// goPanic starts a Go panic with an interface value.
func (e *E) goPanic(val V, desc string) {
	if e.merging > 0 {
		panic(mergeBail{})
	}
	th := e.threads[e.cur]
	w := ""
	if len(th.frames) > 0 {
		w = th.frames[len(th.frames)-1].fn.name
	}
	th.pan = &GoPanic{val: val, where: desc + " in " + w}
	e.doUnwind()
}

// rtPanic starts a run-time error panic.
func (e *E) rtPanic(msg string) {
	e.goPanic(V{r: &Iface{t: e.prog.rtErrType, v: vStr(msg)}}, "runtime error: "+msg)
}

// doUnwind runs deferred calls of the top frame or pops it, until a handler takes over.
func (e *E) doUnwind() {
	th := e.threads[e.cur]
	for {
		if len(th.frames) == 0 {
			e.end("panic", "%s", th.pan.where)
		}
		fr := e.top()
		if fr.defers != nil {
			fr.unwind = true
			if e.callDeferred(fr, fr.defers, dstDefer) {
				return
			}
			// builtin or intrinsic ran to completion
			if th.pan == nil || th.pan.recovered {
				e.afterDeferred(fr)
				return
			}
			continue
		}
		th.frames = th.frames[:len(th.frames)-1]
		if fr.dst == dstDefer || fr.dst == dstRun {
			// a panic inside a deferred call: keep unwinding the caller
			continue
		}
	}
}

// afterDeferred continues in fr after a deferred call ran during unwinding.
func (e *E) afterDeferred(fr *Frame) {
	th := e.threads[e.cur]
	if th.pan != nil && th.pan.recovered {
		th.pan = nil
		fr.unwind = false
		if fr.fn.recoverPC >= 0 {
			fr.pc = fr.fn.recoverPC
			return
		}
		e.doReturn(fr, fr.fn.zeroResult(e))
		return
	}
	e.doUnwind()
}

func (e *E) doReturn(fr *Frame, v V) {
	th := e.threads[e.cur]
	th.frames = th.frames[:len(th.frames)-1]
	if len(th.frames) == 0 {
		th.done = true
		e.threadDone(th)
		return
	}
	dst := fr.dst
	caller := e.top()
	switch {
	case dst == dstDefer:
		e.afterDeferred(caller)
	case dst == dstRun:
		// re-execute RunDefers
	case dst == dstNone:
		caller.pc++
	default:
		caller.regs[dst] = v
		caller.pc++
	}
}

func (e *E) curInstr() string {
	th := e.thread()
	if th == nil || len(th.frames) == 0 {
		return ""
	}
	fr := th.frames[len(th.frames)-1]
	f := fr.fn
	for bi := range f.blockPC {
		if fr.pc >= f.blockPC[bi] && fr.pc <= f.blockEnd[bi] {
			b := f.ssa.Blocks[bi]
			k := len(f.phiDst[bi]) + fr.pc - f.blockPC[bi]
			if k < len(b.Instrs) {
				return fmt.Sprintf("%s: %s", e.prog.fset.Position(b.Instrs[k].Pos()), b.Instrs[k])
			}
		}
	}
	return ""
}
