package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"

	"unicode/utf8"
)

const symPkg = modPath + "/internal/verifsym."
const modelsPkg = modPath + "/internal/verifmodels."

var modelFor = map[string]string{
	"errors.Is":        "errorsIs",
	"fmt.Sprintf":      "sprintf",
	"fmt.Errorf":       "errorf",
	"fmt.Sprint":       "sprint",
	"fmt.Sprintln":     "sprintln",
	"fmt.Fprintf":      "fprintf",
	"fmt.Fprint":       "fprint",
	"fmt.Fprintln":     "fprintln",
	"sort.Slice":       "sortSlice",
	"sort.SliceStable": "sortSlice",

	"(*sync.Map).Load":           "mapLoad",
	"(*sync.Map).Store":          "mapStore",
	"(*sync.Map).LoadOrStore":    "mapLoadOrStore",
	"(*sync.Map).Swap":           "mapSwap",
	"(*sync.Map).LoadAndDelete":  "mapLoadAndDelete",
	"(*sync.Map).Delete":         "mapDelete",
	"(*sync.Map).Clear":          "mapClear",
	"(*sync.Map).CompareAndSwap": "mapCompareAndSwap",
	"(*sync.Map).Range":          "mapRange",

	"time.Now": "timeNow",

	"os.OpenFile":            "osOpenFile",
	"os.Open":                "osOpen",
	"os.Create":              "osCreate",
	"os.Stat":                "osStat",
	"os.Lstat":               "osStat",
	"os.Exit":                "osExit",
	"(*os.File).Read":        "fileRead",
	"(*os.File).Write":       "fileWrite",
	"(*os.File).WriteString": "fileWriteString",
	"(*os.File).WriteTo":     "fileWriteTo",
	"(*os.File).ReadFrom":    "fileReadFrom",
	"(*os.File).Close":       "fileClose",
	"(*os.File).Sync":        "fileSync",
	"(*os.File).Name":        "fileName",
	"(*os.File).Seek":        "fileSeek",
	"(*os.File).Truncate":    "fileTruncate",
	"os.ReadFile":            "osReadFile",
	"os.WriteFile":           "osWriteFile",
	"os.Remove":              "osRemove",
	"os.Rename":              "osRename",
	"(*os.File).Stat":        "fileStat",

	"github.com/clipperhouse/flag.PrintDefaults": "nothing",
	"flag.PrintDefaults":                         "nothing",
	"fmt.Printf":                                 "printf",
	"fmt.Print":                                  "print",
	"fmt.Println":                                "println",

	"net/http.Handle":                      "httpHandle",
	"net/http.HandleFunc":                  "httpHandleFunc",
	"net/http.ListenAndServe":              "httpListenAndServe",
	"net/http.NewServeMux":                 "muxNew",
	"(*net/http.ServeMux).Handle":          "muxHandle",
	"(*net/http.ServeMux).HandleFunc":      "muxHandleFunc",
	"(*net/http.ServeMux).ServeHTTP":       "muxServeHTTP",
	"net/http.Serve":                       "serve",
	"(*net/http.Server).Serve":             "serverServe",
	"net.Listen":                           "listen",
	"(*net/http.Server).ListenAndServe":    "serverListenAndServe",
	"net/textproto.CanonicalMIMEHeaderKey": "canonicalHeader",
	"log.Print":                            "logPrint",
	"log.Println":                          "logPrint",
	"log.Printf":                           "logPrintf",
	"log.Fatal":                            "logFatal",
	"log.Fatalln":                          "logFatal",
	"log.Fatalf":                           "logFatalf",
	"os.Getenv":                            "getenv",
	"os.LookupEnv":                         "lookupenv",
	"html/template.New":                    "htmlNew",
	"(*html/template.Template).Parse":      "htmlParse",
	"(*html/template.Template).Execute":    "htmlExecute",
	"text/template.New":                    "textNew",
	"(*text/template.Template).Parse":      "textParse",
	"(*text/template.Template).Execute":    "textExecute",
	"html/template.HTMLEscapeString":       "htmlEscapeString",
	"text/template.HTMLEscapeString":       "htmlEscapeString",
}

var intrinsics map[string]intrFn
var extraIntr []func(map[string]intrFn)
var pureIntr = map[string]bool{}

func nop(e *E, a []V, dst int) (V, bool) { return V{}, true }
func ident(e *E, a []V, dst int) (V, bool) {
	return a[0], true
}

func (e *E) noMergeHere() {
	if e.merging > 0 {
		panic(mergeBail{})
	}
}

func (e *E) symVar(w uint8) *Term {
	key := fmt.Sprintf("%d_%d", e.nsym, w)
	e.nsym++
	t := e.symCache[key]
	if t == nil {
		t = e.T.Var("s"+key, w)
		e.symCache[key] = t
	}
	return t
}

func (e *E) strArg(v V) string {
	s, ok := strConc(v)
	if !ok {
		e.unsupported("symbolic name")
	}
	return s
}

func (e *E) assume(c *Term) {
	if c.op == OConst {
		if c.val == 0 {
			e.end("assume", "")
		}
		return
	}
	if e.ppos < len(e.prefix) || !e.modelOK {
		e.addPC(c)
		e.modelOK = false
		return
	}
	if e.T.Eval(c, e.model) == 0 {
		r, m := e.feasible(c)
		switch r {
		case Unsat:
			e.end("assume", "")
		case Unknown:
			e.end("unknown", "solver unknown at assume")
		}
		e.model = m
	}
	e.addPC(c)
}

func (e *E) freshByte(name, set string, all bool) V {
	t := e.symVar(8)
	e.nlog = append(e.nlog, nondet{"byte", name, V{r: t}, 64})
	if !all {
		var c *Term
		if set == "" {
			c = e.T.Ult(t, e.T.Const(8, 0x80))
		} else {
			m := map[uint64]int{}
			lo, hi := uint64(255), uint64(0)
			for i := 0; i < len(set); i++ {
				b := uint64(set[i])
				m[b] = 1
				if b < lo {
					lo = b
				}
				if b > hi {
					hi = b
				}
			}
			tab := e.uniTabs["set:"+set]
			if tab == nil {
				tab = e.tableFromMap(8, 0, m)
				e.uniTabs["set:"+set] = tab
			}
			e.setBound(t, lo, hi)
			c = e.T.Apply(tab, t)
			if c.op == OConst {
				return V{r: t}
			}
		}
		e.assume(c)
	}
	return V{r: t}
}

// uniTable tabulates f over all code points.
func (e *E) uniTable(name string, outW uint8, f func(r rune) uint64) *Table {
	if t := e.uniTabs[name]; t != nil {
		return t
	}
	e.ntab++
	t := newTable(e.ntab, 32, outW, 0x110000, 0, func(i uint64) uint64 { return f(rune(i)) })
	e.uniTabs[name] = t
	return t
}

func uniPred(name string, f func(rune) bool) intrFn {
	pureIntr["unicode."+name] = true
	return func(e *E, a []V, dst int) (V, bool) {
		t, ok := a[0].r.(*Term)
		if !ok {
			return vBool(f(rune(int32(a[0].n)))), true
		}
		tab := e.uniTable(name, 0, func(r rune) uint64 { return b2u(f(r)) })
		return vTerm(e.T.Apply(tab, t)), true
	}
}

func uniMap(name string, f func(rune) rune) intrFn {
	pureIntr["unicode."+name] = true
	return func(e *E, a []V, dst int) (V, bool) {
		t, ok := a[0].r.(*Term)
		if !ok {
			return V{n: uint64(uint32(f(rune(int32(a[0].n)))))}, true
		}
		tab := e.uniTable(name, 32, func(r rune) uint64 { return uint64(uint32(f(r) - r)) })
		return vTerm(e.T.Bin(OAdd, t, e.T.Apply(tab, t))), true
	}
}

// rangeTableAt reads an interpreted unicode.RangeTable and returns a membership table.
func (e *E) rangeTableAt(p V) *Table {
	o := p.r.(*Obj)
	name := fmt.Sprintf("rt:%d.%d.%d", o.id, p.n, o.ver)
	if t := e.uniTabs[name]; t != nil {
		return t
	}
	var rt unicode.RangeTable
	rd := func(cell V, n func(lo, hi, st uint64)) {
		s, _ := cell.r.(*Slice)
		if s == nil {
			return
		}
		for i := 0; i < s.len; i++ {
			c := s.obj.cells[s.off+3*i:]
			n(c[0].n, c[1].n, c[2].n)
		}
	}
	rd(o.cells[p.n], func(lo, hi, st uint64) {
		rt.R16 = append(rt.R16, unicode.Range16{Lo: uint16(lo), Hi: uint16(hi), Stride: uint16(st)})
	})
	rd(o.cells[p.n+1], func(lo, hi, st uint64) {
		rt.R32 = append(rt.R32, unicode.Range32{Lo: uint32(lo), Hi: uint32(hi), Stride: uint32(st)})
	})
	rt.LatinOffset = int(o.cells[p.n+2].n)
	return e.uniTable(name, 0, func(r rune) uint64 { return b2u(unicode.Is(&rt, r)) })
}

func (e *E) byteCells(v V) []V {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil
	}
	if e.conc {
		e.touch(s.obj, s.off, s.len, false)
	}
	return s.obj.cells[s.off : s.off+s.len]
}

// indexByte forks on the position of the first occurrence.
func (e *E) indexByte(b []V, c V) int {
	ct := e.term(c, 8)
	var alts []*Term
	var pos []int
	none := e.T.tt
	for i := range b {
		eq := e.T.Eq(e.term(b[i], 8), ct)
		if eq == e.T.ff {
			continue
		}
		if lo, hi := e.T.pathInterval(eq); lo == hi {
			eq = e.T.Bool(lo != 0)
			if lo == 0 {
				continue
			}
		}
		alts = append(alts, e.T.And(none, eq))
		pos = append(pos, i)
		none = e.T.And(none, e.T.Not(eq))
		if none == e.T.ff {
			break
		}
	}
	if len(alts) == 0 {
		return -1
	}
	alts = append(alts, none)
	pos = append(pos, -1)
	return pos[e.choose(alts)]
}

func (e *E) lastIndexByte(b []V, c V) int {
	r := make([]V, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	k := e.indexByte(r, c)
	if k < 0 {
		return -1
	}
	return len(b) - 1 - k
}

func (e *E) countByte(b []V, c V) V {
	ct := e.term(c, 8)
	acc := e.T.Const(64, 0)
	for i := range b {
		acc = e.T.Bin(OAdd, acc, e.T.Ite(e.T.Eq(e.term(b[i], 8), ct), e.T.Const(64, 1), e.T.Const(64, 0)))
	}
	return vInt(int64(e.concretize(vTerm(acc), 64)))
}

func (e *E) indexSub(s, sub []V) int {
	n := len(sub)
	if n == 0 {
		return 0
	}
	var alts []*Term
	var pos []int
	none := e.T.tt
	for i := 0; i+n <= len(s); i++ {
		eq := e.strEq(V{r: &SStr{s[i : i+n]}}, V{r: &SStr{sub}})
		if eq == e.T.ff {
			continue
		}
		alts = append(alts, e.T.And(none, eq))
		pos = append(pos, i)
		none = e.T.And(none, e.T.Not(eq))
		if none == e.T.ff {
			break
		}
	}
	if len(alts) == 0 {
		return -1
	}
	alts = append(alts, none)
	pos = append(pos, -1)
	return pos[e.choose(alts)]
}

// asciiCase maps an all-ASCII string without forking; ok is false when the string is not ASCII on this path.
func (e *E) asciiCase(b []V, upper bool) ([]V, bool) {
	var ts []*Term
	for i := range b {
		c := e.T.Ult(e.term(b[i], 8), e.T.Const(8, 0x80))
		if c == e.T.ff {
			return nil, false
		}
		if lo, _ := e.T.pathInterval(c); lo == 1 {
			continue
		}
		ts = append(ts, c)
	}
	if !e.branch(e.T.AndN(ts)) {
		return nil, false
	}
	lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
	if upper {
		lo, hi, d = 'a', 'z', 256-32
	}
	out := make([]V, len(b))
	for i := range b {
		if b[i].r == nil {
			n := b[i].n
			if lo <= n && n <= hi {
				n = (n + d) & 255
			}
			out[i] = V{n: n}
			continue
		}
		t := b[i].r.(*Term)
		in := e.inR(t, lo, hi)
		if l, h := e.T.pathInterval(in); l == h {
			in = e.T.Bool(l != 0)
		}
		out[i] = vTerm(e.T.Ite(in, e.T.Bin(OAdd, t, e.T.Const(8, d)), t))
	}
	return out, true
}

// mapRunes applies f to every rune (strings.Map semantics for a total, non-negative map).
func (e *E) mapRunes(b []V, f intrFn) []V {
	var out []V
	for i := 0; i < len(b); {
		r, w := e.decodeRune(func(k int) V { return b[i+k] }, len(b)-i)
		m, _ := f(e, []V{r}, -1)
		out = append(out, e.encodeRune(m)...)
		i += w
	}
	return out
}

func caseFn(upper bool, isBytes bool) intrFn {
	var rf intrFn
	if upper {
		rf = uniMap("ToUpper", unicode.ToUpper)
	} else {
		rf = uniMap("ToLower", unicode.ToLower)
	}
	return func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if s, ok := a[0].r.(string); ok && !isBytes {
			if upper {
				return vStr(strings.ToUpper(s)), true
			}
			return vStr(strings.ToLower(s)), true
		}
		var b []V
		if isBytes {
			b = e.byteCells(a[0])
		} else {
			b = strBytes(a[0])
		}
		out, ok := e.asciiCase(b, upper)
		if !ok {
			out = e.mapRunes(b, rf)
		}
		if isBytes {
			o := e.newObj(goRoundup(len(out)), "bytes")
			copy(o.cells, out)
			return V{r: &Slice{o, 0, len(out), len(o.cells)}}, true
		}
		return mkStr(out), true
	}
}

func (e *E) cell(p V) (*Obj, int) {
	p = e.concPtr(p)
	o, ok := p.r.(*Obj)
	if !ok {
		e.unsupported("nil synchronisation object")
	}
	return o, int(p.n)
}

func atomicOp(f func(e *E, o *Obj, i int, a []V) V) intrFn { return atomicOp2(f, true) }

// A load synchronises with the store it observes, but not with later stores.
func atomicOp2(f func(e *E, o *Obj, i int, a []V) V, store bool) intrFn {
	return func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if a[0].r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return V{}, false
		}
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "a" + ptrKey(V{n: uint64(i), r: o})
		e.acquire(k)
		v := f(e, o, i, a)
		if store {
			e.release(k)
		}
		return v, true
	}
}

func init() {
	in := map[string]intrFn{}
	// --- harness interface ---
	in[symPkg+"Byte"] = func(e *E, a []V, dst int) (V, bool) { return e.freshByte(e.strArg(a[0]), "", true), true }
	in[symPkg+"ByteOf"] = func(e *E, a []V, dst int) (V, bool) {
		return e.freshByte(e.strArg(a[0]), e.strArg(a[1]), false), true
	}
	in[symPkg+"Bool"] = func(e *E, a []V, dst int) (V, bool) {
		t := e.symVar(8)
		e.nlog = append(e.nlog, nondet{"bool", e.strArg(a[0]), V{r: t}, 64})
		return vTerm(e.T.Eq(e.T.Bin(OAnd, t, e.T.Const(8, 1)), e.T.Const(8, 1))), true
	}
	in[symPkg+"Rune"] = func(e *E, a []V, dst int) (V, bool) {
		t := e.symVar(32)
		e.nlog = append(e.nlog, nondet{"rune", e.strArg(a[0]), V{r: t}, 32})
		e.setBound(t, 0, 0x10ffff)
		e.assume(e.T.Ule(t, e.T.Const(32, 0x10ffff)))
		e.assume(e.T.Not(e.T.And(e.T.Ule(e.T.Const(32, 0xd800), t), e.T.Ule(t, e.T.Const(32, 0xdfff)))))
		return V{r: t}, true
	}
	in[symPkg+"Int"] = func(e *E, a []V, dst int) (V, bool) {
		lo, hi := int64(a[1].n), int64(a[2].n)
		d := uint64(hi - lo)
		w := uint8(8)
		if d > 0xff {
			w = 16
		}
		if d > 0xffff {
			w = 32
		}
		t := e.symVar(w)
		v := e.T.Bin(OAdd, e.T.Zext(t, 64), e.T.Const(64, uint64(lo)))
		e.nlog = append(e.nlog, nondet{"int", e.strArg(a[0]), vTerm(v), 64})
		if d < mask(w) {
			e.assume(e.T.Ule(t, e.T.Const(w, d)))
		}
		return vTerm(v), true
	}
	in[symPkg+"Choice"] = func(e *E, a []V, dst int) (V, bool) {
		n := e.concInt(a[1])
		if n < 1 {
			e.end("assume", "")
		}
		k := 0
		if n > 1 {
			k = e.choose(make([]*Term, n))
		}
		e.nlog = append(e.nlog, nondet{"choice", e.strArg(a[0]), vInt(int64(k)), 64})
		return vInt(int64(k)), true
	}
	in[symPkg+"Size"] = func(e *E, a []V, dst int) (V, bool) {
		lo, hi := int(int64(a[1].n)), int(int64(a[2].n))
		var opts []int
		seen := map[int]bool{}
		add := func(x int) {
			if x >= lo && x <= hi && !seen[x] {
				seen[x] = true
				opts = append(opts, x)
			}
		}
		if s, ok := a[3].r.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				add(int(int64(s.obj.cells[s.off+i].n)))
			}
		}
		for _, x := range e.harvest {
			add(x)
			add(x - 1)
			add(x + 1)
		}
		if len(opts) == 0 {
			e.end("assume", "")
		}
		k := 0
		if len(opts) > 1 {
			k = e.choose(make([]*Term, len(opts)))
		}
		e.nlog = append(e.nlog, nondet{"choice", e.strArg(a[0]), vInt(int64(opts[k])), 64})
		return vInt(int64(opts[k])), true
	}
	in[symPkg+"Param"] = func(e *E, a []V, dst int) (V, bool) {
		if v, ok := e.params[e.strArg(a[0])]; ok {
			return vInt(int64(v)), true
		}
		return a[1], true
	}
	in[symPkg+"Assume"] = func(e *E, a []V, dst int) (V, bool) {
		e.assume(e.term(a[0], 0))
		return V{}, true
	}
	in[symPkg+"Assert"] = func(e *E, a []V, dst int) (V, bool) {
		c := e.term(a[0], 0)
		msg, _ := strConc(a[1])
		if e.ppos < len(e.prefix) {
			if c == e.T.ff {
				e.end("ok", "")
			}
			return V{}, true
		}
		e.stats.Asserts++
		if c == e.T.tt {
			e.stats.AssertConst++
			return V{}, true
		}
		if c == e.T.ff {
			e.stats.AssertSat++
			e.candidate("assert", msg, nil)
			e.end("ok", "")
		}
		e.ensureModel()
		r, m := e.ask(append(e.slice(c), e.T.Not(c)))
		switch r {
		case Unsat:
			e.stats.AssertUnsat++
		case Unknown:
			e.stats.Ends["unknown-assert"]++
		case Sat:
			e.stats.AssertSat++
			e.candidate("assert", msg, m)
		}
		return V{}, true
	}
	in[symPkg+"Cover"] = func(e *E, a []V, dst int) (V, bool) {
		e.covers = append(e.covers, e.strArg(a[0]))
		return V{}, true
	}
	in[symPkg+"Observe"] = func(e *E, a []V, dst int) (V, bool) {
		e.obs = append(e.obs, a[0])
		return V{}, true
	}
	in[symPkg+"MapOrder"] = func(e *E, a []V, dst int) (V, bool) {
		old := e.mapOrder
		e.mapOrder = a[0].n != 0
		e.onUndo(func() { e.mapOrder = old })
		return V{}, true
	}
	in[symPkg+"Symbolic"] = func(e *E, a []V, dst int) (V, bool) { return V{n: 1}, true }
	in[symPkg+"Note"] = nop
	in[symPkg+"Load"] = nop
	in[modelsPkg+"Comparable"] = func(e *E, a []V, dst int) (V, bool) {
		if f, ok := a[0].r.(*Iface); ok {
			return vBool(types.Comparable(f.t)), true
		}
		return V{n: 1}, true
	}
	in[modelsPkg+"Show"] = func(e *E, a []V, dst int) (V, bool) {
		if f, ok := a[0].r.(*Iface); ok {
			if l := e.tc.layout(f.t); l.isInt && f.v.r == nil {
				if l.signed {
					return vStr(fmt.Sprint(sext64(f.v.n, l.w))), true
				}
				return vStr(fmt.Sprint(f.v.n)), true
			} else if l.isStr {
				return f.v, true
			}
			return vStr("?" + f.t.String()), true
		}
		return vStr("?"), true
	}
	in[modelsPkg+"Unsupported"] = func(e *E, a []V, dst int) (V, bool) {
		what, _ := strConc(a[0])
		e.unsupported("%s", what)
		return V{}, true
	}
	in[modelsPkg+"LenAny"] = func(e *E, a []V, dst int) (V, bool) {
		if s, ok := a[0].r.(*Iface).v.r.(*Slice); ok {
			return vInt(int64(s.len)), true
		}
		return V{}, true
	}
	in[modelsPkg+"SwapAny"] = func(e *E, a []V, dst int) (V, bool) {
		f := a[0].r.(*Iface)
		s := f.v.r.(*Slice)
		el := e.tc.layout(f.t.Underlying().(*types.Slice).Elem())
		i, j := e.concInt(a[1]), e.concInt(a[2])
		for k := 0; k < el.size; k++ {
			x, y := s.obj.cells[s.off+i*el.size+k], s.obj.cells[s.off+j*el.size+k]
			e.write(s.obj, s.off+i*el.size+k, y)
			e.write(s.obj, s.off+j*el.size+k, x)
		}
		return V{}, true
	}

	// --- unicode ---
	for name, f := range map[string]func(rune) bool{"IsSpace": unicode.IsSpace, "IsPunct": unicode.IsPunct, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower,
		"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsNumber": unicode.IsNumber, "IsControl": unicode.IsControl, "IsGraphic": unicode.IsGraphic,
		"IsPrint": unicode.IsPrint, "IsSymbol": unicode.IsSymbol, "IsMark": unicode.IsMark, "IsTitle": unicode.IsTitle} {
		in["unicode."+name] = uniPred(name, f)
	}
	for name, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "ToTitle": unicode.ToTitle, "SimpleFold": unicode.SimpleFold} {
		in["unicode."+name] = uniMap(name, f)
	}
	pureIntr["unicode.Is"] = true
	in["unicode.Is"] = func(e *E, a []V, dst int) (V, bool) {
		if a[0].r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return V{}, false
		}
		tab := e.rangeTableAt(a[0])
		return vTerm(e.T.Apply(tab, e.term(a[1], 32))), true
	}
	pureIntr["unicode.In"] = true
	in["unicode.In"] = func(e *E, a []V, dst int) (V, bool) {
		acc := e.T.ff
		if s, ok := a[1].r.(*Slice); ok {
			for i := 0; i < s.len; i++ {
				acc = e.T.Or(acc, e.T.Apply(e.rangeTableAt(s.obj.cells[s.off+i]), e.term(a[0], 32)))
			}
		}
		return vTerm(acc), true
	}
	// --- utf8 ---
	in["unicode/utf8.DecodeRune"] = func(e *E, a []V, dst int) (V, bool) {
		b := e.byteCells(a[0])
		if len(b) == 0 {
			return V{r: Tuple{{n: 0xfffd}, {}}}, true
		}
		r, w := e.decodeRune(func(i int) V { return b[i] }, len(b))
		return V{r: Tuple{r, vInt(int64(w))}}, true
	}
	in["unicode/utf8.DecodeRuneInString"] = func(e *E, a []V, dst int) (V, bool) {
		n := strLen(a[0])
		if n == 0 {
			return V{r: Tuple{{n: 0xfffd}, {}}}, true
		}
		r, w := e.decodeRune(func(i int) V { return strAt(a[0], i) }, n)
		return V{r: Tuple{r, vInt(int64(w))}}, true
	}
	in["unicode/utf8.AppendRune"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		b := e.encodeRune(a[1])
		return e.appendCells(a[0], e.tc.layout(types.Typ[types.Uint8]), 1, b, len(b)), true
	}
	in["unicode/utf8.EncodeRune"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		b := e.encodeRune(a[1])
		s, _ := a[0].r.(*Slice)
		if s == nil || s.len < len(b) {
			e.rtPanic("index out of range")
			return V{}, false
		}
		if e.conc {
			e.touch(s.obj, s.off, len(b), true)
		}
		for i := range b {
			e.write(s.obj, s.off+i, b[i])
		}
		return vInt(int64(len(b))), true
	}
	in["unicode/utf8.RuneLen"] = func(e *E, a []V, dst int) (V, bool) {
		if a[0].r == nil {
			return vInt(int64(utf8.RuneLen(rune(int32(a[0].n))))), true
		}
		t := a[0].r.(*Term)
		c := func(v uint64) *Term { return e.T.Const(32, v) }
		k := func(v uint64) *Term { return e.T.Const(64, v) }
		sur := e.T.And(e.T.Ule(c(0xd800), t), e.T.Ule(t, c(0xdfff)))
		v := e.T.Ite(e.T.Ult(t, c(0x80)), k(1), e.T.Ite(e.T.Ult(t, c(0x800)), k(2), e.T.Ite(sur, k(^uint64(0)), e.T.Ite(e.T.Ult(t, c(0x10000)), k(3), e.T.Ite(e.T.Ule(t, c(0x10ffff)), k(4), k(^uint64(0)))))))
		return vInt(int64(e.concretize(vTerm(v), 64))), true
	}
	// --- bytes and strings ---
	bIdx := func(get func(e *E, v V) []V, last bool) intrFn {
		return func(e *E, a []V, dst int) (V, bool) {
			b := get(e, a[0])
			if last {
				return vInt(int64(e.lastIndexByte(b, a[1]))), true
			}
			return vInt(int64(e.indexByte(b, a[1]))), true
		}
	}
	bs := func(e *E, v V) []V { return e.byteCells(v) }
	ss := func(e *E, v V) []V { return strBytes(v) }
	in["internal/bytealg.IndexByte"] = bIdx(bs, false)
	in["internal/bytealg.IndexByteString"] = bIdx(ss, false)
	in["internal/bytealg.LastIndexByte"] = bIdx(bs, true)
	in["internal/bytealg.LastIndexByteString"] = bIdx(ss, true)
	in["bytes.IndexByte"] = bIdx(bs, false)
	in["strings.IndexByte"] = bIdx(ss, false)
	in["internal/stringslite.IndexByte"] = bIdx(ss, false)
	in["internal/bytealg.Count"] = func(e *E, a []V, dst int) (V, bool) { return e.countByte(bs(e, a[0]), a[1]), true }
	in["internal/bytealg.CountString"] = func(e *E, a []V, dst int) (V, bool) { return e.countByte(ss(e, a[0]), a[1]), true }
	idx := func(g func(e *E, v V) []V) intrFn {
		return func(e *E, a []V, dst int) (V, bool) { return vInt(int64(e.indexSub(g(e, a[0]), g(e, a[1])))), true }
	}
	in["internal/bytealg.Index"] = idx(bs)
	in["internal/bytealg.IndexString"] = idx(ss)
	in["strings.Index"] = idx(ss)
	in["bytes.Index"] = idx(bs)
	in["internal/stringslite.Index"] = idx(ss)
	eqf := func(g func(e *E, v V) []V) intrFn {
		return func(e *E, a []V, dst int) (V, bool) {
			return vTerm(e.strEq(V{r: &SStr{g(e, a[0])}}, V{r: &SStr{g(e, a[1])}})), true
		}
	}
	in["internal/bytealg.Equal"] = eqf(bs)
	in["bytes.Equal"] = eqf(bs)
	pureIntr["bytes.Equal"] = true
	cmp := func(g func(e *E, v V) []V) intrFn {
		return func(e *E, a []V, dst int) (V, bool) {
			x, y := V{r: &SStr{g(e, a[0])}}, V{r: &SStr{g(e, a[1])}}
			lt, eq := e.strLess(x, y), e.strEq(x, y)
			v := e.T.Ite(lt, e.T.Const(64, ^uint64(0)), e.T.Ite(eq, e.T.Const(64, 0), e.T.Const(64, 1)))
			return vTerm(v), true
		}
	}
	in["internal/bytealg.Compare"] = cmp(bs)
	in["internal/bytealg.CompareString"] = cmp(ss)
	in["bytes.Compare"] = cmp(bs)
	in["strings.Compare"] = cmp(ss)
	in["runtime.cmpstring"] = cmp(ss)
	in["strings.ToLower"] = caseFn(false, false)
	in["strings.ToUpper"] = caseFn(true, false)
	in["bytes.ToLower"] = caseFn(false, true)
	in["bytes.ToUpper"] = caseFn(true, true)
	in["internal/bytealg.MakeNoZero"] = func(e *E, a []V, dst int) (V, bool) {
		n := e.concInt(a[0])
		o := e.newObj(goRoundup(n), "bytes")
		return V{r: &Slice{o, 0, n, len(o.cells)}}, true
	}
	for _, n := range []string{"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "strings.Clone", "internal/stringslite.Clone", "runtime.KeepAlive"} {
		in[n] = ident
	}
	// --- sync ---
	in["(*sync.Mutex).Lock"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if a[0].r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return V{}, false
		}
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "m" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n != 0 {
			e.block(k)
			return V{}, false
		}
		e.write(o, i, V{n: 1})
		e.acquire(k)
		return V{}, true
	}
	in["(*sync.Mutex).TryLock"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "m" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n != 0 {
			return V{}, true
		}
		e.write(o, i, V{n: 1})
		e.acquire(k)
		return V{n: 1}, true
	}
	in["(*sync.Mutex).Unlock"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		o, i := e.cell(a[0])
		k := "m" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n == 0 {
			e.end("panic", "sync: unlock of unlocked mutex")
		}
		e.release(k)
		e.write(o, i, V{})
		e.wake(k)
		return V{}, true
	}
	in["(*sync.RWMutex).Lock"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "w" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n != 0 || o.cells[i+1].n != 0 {
			e.block(k)
			return V{}, false
		}
		e.write(o, i, V{n: 1})
		e.acquire(k)
		e.acquire("r" + k)
		return V{}, true
	}
	in["(*sync.RWMutex).Unlock"] = func(e *E, a []V, dst int) (V, bool) {
		o, i := e.cell(a[0])
		k := "w" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n == 0 {
			e.end("panic", "sync: Unlock of unlocked RWMutex")
		}
		e.release(k)
		e.write(o, i, V{})
		e.wake(k)
		return V{}, true
	}
	in["(*sync.RWMutex).RLock"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "w" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n != 0 {
			e.block(k)
			return V{}, false
		}
		e.write(o, i+1, V{n: o.cells[i+1].n + 1})
		e.acquire(k)
		return V{}, true
	}
	in["(*sync.RWMutex).RUnlock"] = func(e *E, a []V, dst int) (V, bool) {
		o, i := e.cell(a[0])
		k := "w" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i+1].n == 0 {
			e.end("panic", "sync: RUnlock of unlocked RWMutex")
		}
		e.release("r" + k)
		e.write(o, i+1, V{n: o.cells[i+1].n - 1})
		e.wake(k)
		return V{}, true
	}
	wgAdd := func(e *E, a []V, d int64) (V, bool) {
		o, i := e.cell(a[0])
		k := "g" + ptrKey(V{n: uint64(i), r: o})
		n := int64(o.cells[i].n) + d
		if n < 0 {
			e.goPanic(V{r: &Iface{e.prog.rtErrType, vStr("sync: negative WaitGroup counter")}}, "sync: negative WaitGroup counter")
			return V{}, false
		}
		e.release(k)
		e.write(o, i, V{n: uint64(n)})
		if n == 0 {
			e.wake(k)
		}
		return V{}, true
	}
	in["(*sync.WaitGroup).Add"] = func(e *E, a []V, dst int) (V, bool) { return wgAdd(e, a, int64(a[1].n)) }
	in["(*sync.WaitGroup).Done"] = func(e *E, a []V, dst int) (V, bool) { return wgAdd(e, a, -1) }
	in["(*sync.WaitGroup).Wait"] = func(e *E, a []V, dst int) (V, bool) {
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		k := "g" + ptrKey(V{n: uint64(i), r: o})
		if o.cells[i].n != 0 {
			e.block(k)
			return V{}, false
		}
		e.acquire(k)
		return V{}, true
	}
	// sync.Pool: Get returns the most recently Put item, or calls New. Cell 0 holds the stack.
	in["(*sync.Pool).Put"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		o, i := e.cell(a[0])
		if a[1].r == nil {
			return V{}, true
		}
		e.release("p" + ptrKey(V{n: uint64(i), r: o}))
		old, _ := o.cells[i].r.(Agg)
		e.write(o, i, V{r: append(append(Agg(nil), old...), a[1])})
		return V{}, true
	}
	in["(*sync.Pool).Get"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if !e.syncPoint() {
			return V{}, false
		}
		o, i := e.cell(a[0])
		st, _ := o.cells[i].r.(Agg)
		if len(st) > 0 {
			e.acquire("p" + ptrKey(V{n: uint64(i), r: o}))
			v := st[len(st)-1]
			e.write(o, i, V{r: st[: len(st)-1 : len(st)-1]})
			return v, true
		}
		// New is the last field
		pt := e.prog.pkgs["sync"].Pkg.Scope().Lookup("Pool").Type()
		l := e.tc.layout(pt)
		nf := o.cells[i+l.size-1]
		if nf.r == nil {
			return V{}, true
		}
		cl := nf.r.(*Closure)
		f := e.fn(cl.fn)
		if f.intr != nil || f.model != nil {
			e.unsupported("sync.Pool.New")
		}
		e.pushFrame(f, nil, cl.env, dst)
		return V{}, false
	}
	// sync.Map is modelled in Go; cell 0 holds its content.
	in[modelsPkg+"StateOf"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		if a[0].r == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
			return V{}, false
		}
		o, i := e.cell(a[0])
		e.acquire("s" + ptrKey(V{n: uint64(i), r: o}))
		return o.cells[i], true
	}
	in[modelsPkg+"SetState"] = func(e *E, a []V, dst int) (V, bool) {
		e.noMergeHere()
		o, i := e.cell(a[0])
		e.release("s" + ptrKey(V{n: uint64(i), r: o}))
		e.write(o, i, a[1])
		return V{}, true
	}
	// --- atomics ---
	in["(*sync/atomic.Value).Load"] = atomicOp2(func(e *E, o *Obj, i int, a []V) V { return o.cells[i] }, false)
	in["(*sync/atomic.Value).Store"] = atomicOp(func(e *E, o *Obj, i int, a []V) V { e.write(o, i, a[1]); return V{} })
	in["(*sync/atomic.Value).Swap"] = atomicOp(func(e *E, o *Obj, i int, a []V) V { v := o.cells[i]; e.write(o, i, a[1]); return v })
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		p := "sync/atomic."
		in[p+"Load"+ty] = atomicOp2(func(e *E, o *Obj, i int, a []V) V { return o.cells[i] }, false)
		in[p+"Store"+ty] = atomicOp(func(e *E, o *Obj, i int, a []V) V { e.write(o, i, a[1]); return V{} })
		in[p+"Swap"+ty] = atomicOp(func(e *E, o *Obj, i int, a []V) V { v := o.cells[i]; e.write(o, i, a[1]); return v })
		in[p+"Add"+ty] = atomicOp(func(e *E, o *Obj, i int, a []V) V {
			v := V{n: (o.cells[i].n + a[1].n) & mask(w)}
			e.write(o, i, v)
			return v
		})
		in[p+"CompareAndSwap"+ty] = atomicOp(func(e *E, o *Obj, i int, a []V) V {
			if sameV(o.cells[i], a[1]) {
				e.write(o, i, a[2])
				return V{n: 1}
			}
			return V{}
		})
	}
	// --- runtime, logging ---
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.SetFinalizer[T]", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"log.Print", "log.Println", "log.Printf", "(*log.Logger).Print", "(*log.Logger).Println", "(*log.Logger).Printf", "internal/race.Acquire", "internal/race.Release",
		"internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault"} {
		in[n] = nop
	}
	in["(*internal/godebug.Setting).Value"] = nop
	for _, n := range []string{"runtime.Gosched", "time.Sleep"} {
		in[n] = func(e *E, a []V, dst int) (V, bool) {
			if !e.syncPoint() {
				return V{}, false
			}
			return V{}, true
		}
	}
	for _, f := range extraIntr {
		f(in)
	}
	intrinsics = in
}
