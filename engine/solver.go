package main

// A z3 process driven over a pipe, with constraint slicing and caching.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Result int8

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries   int64   `json:"queries"`
	Sat       int64   `json:"sat"`
	Unsat     int64   `json:"unsat"`
	Unknown   int64   `json:"unknown"`
	CacheHits int64   `json:"cache_hits"`
	Seconds   float64 `json:"solver_seconds"`
}

type cacheEntry struct {
	r    Result
	vars []int32
	vals []uint64
}

type Solver struct {
	T      *Terms
	bin    string
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe io.WriteCloser
	out    *bufio.Reader
	gen    int32
	nvars  int
	ndefs  int
	tabs   map[int]bool
	named  map[int32]bool
	cache  map[string]*cacheEntry
	Stats  SolverStats
	toMS   int
	logw   io.Writer
}

func NewSolver(T *Terms, bin string, toMS int) *Solver {
	s := &Solver{T: T, bin: bin, cache: map[string]*cacheEntry{}, toMS: toMS}
	if f := os.Getenv("GOSYM_LOG"); f != "" {
		s.logw, _ = os.Create(f)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	s.nvars = 0
	s.ndefs = 0
	s.tabs = map[int]bool{}
	s.named = map[int32]bool{}
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.send("(set-option :print-success false)")
	s.send("(set-logic QF_BV)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.toMS))
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(line string) {
	s.in.WriteString(line)
	s.in.WriteByte('\n')
	if s.logw != nil {
		fmt.Fprintln(s.logw, line)
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || t.op == OVar || t.emitted == s.gen {
		return
	}
	if t.a != nil {
		s.emit(t.a)
	}
	if t.b != nil {
		s.emit(t.b)
	}
	if t.c != nil {
		s.emit(t.c)
	}
	if t.op == OTable && !s.tabs[t.tab.id] {
		s.tabs[t.tab.id] = true
		s.send(smtTable(t.tab))
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)", t.id, sortName(t.w), smtBody(t)))
	t.emitted = s.gen
	s.ndefs++
}

// Check decides the conjunction of cs; on Sat it returns values of all variables in cs.
func (s *Solver) Check(cs []*Term) (Result, []int32, []uint64) {
	ids := make([]int, 0, len(cs))
	seen := map[int32]bool{}
	uniq := cs[:0:0]
	for _, c := range cs {
		if c == s.T.ff {
			return Unsat, nil, nil
		}
		if c == s.T.tt || seen[c.id] {
			continue
		}
		seen[c.id] = true
		ids = append(ids, int(c.id))
		uniq = append(uniq, c)
	}
	if len(uniq) == 0 {
		return Sat, nil, nil
	}
	sort.Ints(ids)
	kb := make([]byte, 0, 4*len(ids))
	for _, id := range ids {
		kb = append(kb, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
	}
	key := string(kb)
	if e, ok := s.cache[key]; ok {
		s.Stats.CacheHits++
		return e.r, e.vars, e.vals
	}
	t0 := time.Now()
	if len(s.named) > 1000 || s.ndefs > 40000 {
		s.restart()
	}
	for s.nvars < len(s.T.vars) {
		s.send(fmt.Sprintf("(declare-const v%d %s)", s.nvars, sortName(s.T.vars[s.nvars].w)))
		s.nvars++
	}
	for _, c := range uniq {
		s.emit(c)
	}
	var q strings.Builder
	q.WriteString("(check-sat-assuming (")
	for _, c := range uniq {
		id := c.id
		neg := false
		base := c
		if c.op == OBNot {
			base, neg, id = c.a, true, c.a.id
		}
		if !s.named[id] {
			s.named[id] = true
			s.send(fmt.Sprintf("(declare-const b%d Bool)\n(assert (= b%d %s))", id, id, smtRef(base)))
		}
		if neg {
			fmt.Fprintf(&q, "(not b%d) ", id)
		} else {
			fmt.Fprintf(&q, "b%d ", id)
		}
	}
	q.WriteString("))")
	s.send(q.String())
	s.in.Flush()
	ans := s.readLine()
	e := &cacheEntry{}
	switch ans {
	case "sat":
		e.r = Sat
		vs := mergeVars(uniq...)
		e.vars = vs
		e.vals = make([]uint64, len(vs))
		if len(vs) > 0 {
			var b strings.Builder
			b.WriteString("(get-value (")
			for _, v := range vs {
				fmt.Fprintf(&b, "v%d ", v)
			}
			b.WriteString("))")
			s.send(b.String())
			s.in.Flush()
			s.readValues(vs, e.vals)
		}
		s.Stats.Sat++
	case "unsat":
		e.r = Unsat
		s.Stats.Unsat++
	case "unknown", "timeout":
		e.r = Unknown
		s.Stats.Unknown++
	default:
		panic("solver: unexpected answer: " + ans)
	}
	s.Stats.Queries++
	s.Stats.Seconds += time.Since(t0).Seconds()
	if slowQ && time.Since(t0) > 20*time.Millisecond {
		sz := 0
		for _, c := range uniq {
			sz += termSize(c, map[int32]bool{})
		}
		fmt.Fprintf(os.Stderr, "slow %v %s n=%d size=%d vars=%d\n", time.Since(t0), ans, len(uniq), sz, len(mergeVars(uniq...)))
		for _, c := range uniq {
			fmt.Fprintln(os.Stderr, "   ", show(c, 0))
		}
	}
	if len(s.cache) > 400000 {
		s.cache = map[string]*cacheEntry{}
	}
	s.cache[key] = e
	return e.r, e.vars, e.vals
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic("solver died: " + err.Error())
	}
	return strings.TrimSpace(l)
}

// readValues parses "((v0 #x00) (v1 true) ...)".
func (s *Solver) readValues(vs []int32, vals []uint64) {
	depth := 0
	var b strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	txt := b.String()
	if strings.Contains(txt, "error") {
		panic("solver: " + txt)
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	idx := map[string]int{}
	for i, v := range vs {
		idx["v"+strconv.Itoa(int(v))] = i
	}
	for i := 0; i+1 < len(f); i += 2 {
		k, ok := idx[f[i]]
		if !ok {
			panic("solver: bad value list " + txt)
		}
		v := f[i+1]
		switch {
		case v == "true":
			vals[k] = 1
		case v == "false":
			vals[k] = 0
		case strings.HasPrefix(v, "#x"):
			vals[k], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			vals[k], _ = strconv.ParseUint(v[2:], 2, 64)
		default:
			panic("solver: bad value " + v)
		}
	}
}

var slowQ = os.Getenv("GOSYM_SLOW") != ""

func termSize(t *Term, seen map[int32]bool) int {
	if t == nil || seen[t.id] {
		return 0
	}
	seen[t.id] = true
	return 1 + termSize(t.a, seen) + termSize(t.b, seen) + termSize(t.c, seen)
}

func show(t *Term, d int) string {
	if t == nil {
		return ""
	}
	if d > 8 {
		return "..."
	}
	switch t.op {
	case OConst:
		return fmt.Sprintf("%#x", t.val)
	case OVar:
		return fmt.Sprintf("v%d", t.val)
	case OTable:
		return fmt.Sprintf("tab%d[%d](%s)", t.tab.id, len(t.tab.starts), show(t.a, d+1))
	case OZext:
		return fmt.Sprintf("z%d(%s)", t.w, show(t.a, d+1))
	}
	r := "(" + opNames[t.op] + " " + show(t.a, d+1)
	if t.b != nil {
		r += " " + show(t.b, d+1)
	}
	if t.c != nil {
		r += " " + show(t.c, d+1)
	}
	return r + ")"
}
