package main

// The check driver: runs the harnesses of a property over all workers, replays
// counterexamples natively, writes the evidence file.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one harness with parameters, explored exhaustively.
type Run struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"bounds"`
}

type RunReport struct {
	Harness  string         `json:"harness"`
	Bounds   map[string]int `json:"bounds"`
	Complete bool           `json:"explored_completely"`
	Stats    Stats          `json:"exploration"`
	Solver   SolverStats    `json:"solver"`
	started  bool
	stopped  bool
}

type item struct {
	run    int
	prefix []dec
}

type sample struct {
	run  int
	cand *Candidate
	obs  []string
}

type Driver struct {
	P        *Program
	prop     string
	spec     *Spec
	tier     string
	verif    string
	repo     string
	runs     []Run
	reports  []*RunReport
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	active   int
	idle     int
	workers  int
	stopped  bool
	deadline time.Time
	maxSteps int64
	// native runs of paths that the executor could not follow
	handovers int
	harvest   []int
	funcs     map[string]int64
	initFail  map[string]bool

	samples   []sample
	violation *Violation
	known     map[string]int
	tried     map[string]int
	unconf    []string
	replays   int
	seq       int
	scratch   string
	native    chan error // closed when the native binary is built
	nativeErr error
	raceOnce  sync.Once
	raceErr   error
}

type Violation struct {
	Cand   *Candidate
	Output string
	Path   string
}

func (d *Driver) overlayJSON() (string, error) {
	ov, err := overlayFiles(d.repo, filepath.Join(d.verif, "harness"))
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	p := filepath.Join(d.scratch, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

func (d *Driver) buildNative(out string, race bool) error {
	ov, err := d.overlayJSON()
	if err != nil {
		return err
	}
	args := []string{"build", "-overlay", ov, "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, d.spec.Pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = d.repo
	env := goEnv()
	if race {
		env = append(env, "CGO_ENABLED=1")
	}
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v: %s", err, b)
	}
	return nil
}

// runNative runs the native harness binary on a replay file.
func (d *Driver) runNative(bin, replay string, to time.Duration) (code int, out string, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	var cmd *exec.Cmd
	if strings.HasSuffix(bin, "-race") {
		cmd = exec.CommandContext(ctx, bin)
	} else {
		cmd = exec.CommandContext(ctx, "/bin/sh", "-c", `ulimit -v 1200000000; exec "$0"`, bin)
	}
	cmd.Dir = d.scratch
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+replay, "GORACE=exitcode=66 halt_on_error=1")
	var b bytes.Buffer
	cmd.Stdout = &b
	cmd.Stderr = &b
	cmd.WaitDelay = time.Second
	err := cmd.Run()
	s := b.String()
	if len(s) > 2000000 {
		s = s[:2000000]
	}
	if ctx.Err() != nil {
		return -1, s, true
	}
	if err == nil {
		return 0, s, false
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode(), s, false
	}
	return -2, err.Error(), false
}

func (d *Driver) writeReplay(c *Candidate) string {
	d.mu.Lock()
	d.seq++
	n := d.seq
	d.mu.Unlock()
	p := filepath.Join(d.scratch, fmt.Sprintf("replay%d.json", n))
	b, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// confirm replays a candidate natively.
func (d *Driver) confirm(c *Candidate) (bool, string) {
	<-d.native
	if d.nativeErr != nil {
		return false, d.nativeErr.Error()
	}
	p := d.writeReplay(c)
	defer os.Remove(p)
	bin := filepath.Join(d.scratch, "native")
	n := 1
	if c.Race || c.Repeat {
		n = 60
	}
	if c.Race {
		d.raceOnce.Do(func() { d.raceErr = d.buildNative(filepath.Join(d.scratch, "native-race"), true) })
		if d.raceErr != nil {
			return false, d.raceErr.Error()
		}
		bin += "-race"
		n = 40
	}
	last := ""
	for i := 0; i < n; i++ {
		d.mu.Lock()
		d.replays++
		d.mu.Unlock()
		code, out, to := d.runNative(bin, p, 20*time.Second)
		last = fmt.Sprintf("exit %d: %s", code, out)
		if to {
			return true, "does not terminate within 20 s\n" + out
		}
		switch code {
		case 0, 3, 4, -2:
			continue
		}
		return true, out
	}
	return false, last
}

// handover runs a path that the executor could not follow to its end natively, with its witness and some
// continuations of it. Only a failure of the native run counts.
func (d *Driver) handover(c *Candidate) (*Candidate, string) {
	d.mu.Lock()
	d.tried["handover|"+c.Harness]++
	n := d.tried["handover|"+c.Harness]
	st := d.stopped
	d.mu.Unlock()
	// the first paths, then ever fewer
	if st || n > 24 && n&(n-1) != 0 {
		return nil, ""
	}
	for c.Tail = 0; c.Tail < 3; c.Tail++ {
		d.mu.Lock()
		d.handovers++
		d.mu.Unlock()
		if ok, out := d.confirm(c); ok {
			return c, out
		}
	}
	return nil, ""
}

func (d *Driver) onCand(ri int, c *Candidate) {
	if c.Kind == "handover" {
		c, out := d.handover(c)
		d.mu.Lock()
		defer d.mu.Unlock()
		if c != nil {
			d.record(c, out)
		}
		return
	}
	key := c.Harness + "|" + c.Kind + "|" + c.Msg
	d.mu.Lock()
	d.tried[key]++
	n := d.tried[key]
	st := d.stopped
	d.mu.Unlock()
	if n > 12 || st {
		return
	}
	ok, out := d.confirm(c)
	d.mu.Lock()
	defer d.mu.Unlock()
	if !ok {
		if len(d.unconf) < 20 {
			d.unconf = append(d.unconf, fmt.Sprintf("%s: %s %s at %s %v native: %.300s", c.Harness, c.Kind, c.Msg, c.Where, c.Vals, out))
		}
		return
	}
	if !d.record(c, out) {
		d.tried[key]--
	}
}

// record takes a confirmed violation; it returns false if it is a known finding.
func (d *Driver) record(c *Candidate, out string) bool {
	if k := d.knownFinding(c, out); k != "" {
		d.known[k]++
		return false
	}
	if d.violation == nil {
		dir := filepath.Join(d.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, d.prop+".json")
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		d.violation = &Violation{c, out, p}
		d.stopped = true
		d.cond.Broadcast()
	}
	return true
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	Output   string `json:"output"`
	What     string `json:"what"`
}

func (d *Driver) knownFinding(c *Candidate, out string) string {
	b, err := os.ReadFile(filepath.Join(d.verif, "known-findings.json"))
	if err != nil {
		return ""
	}
	var fs struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(b, &fs) != nil {
		return ""
	}
	for _, f := range fs.Findings {
		if f.Status == "known" && f.Property == d.prop && f.Harness == c.Harness && f.Msg == c.Msg && f.Output != "" && strings.Contains(out, f.Output) {
			return f.What
		}
	}
	return ""
}

// next blocks until an item is available or everything is done.
func (d *Driver) next() (item, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.idle++
	defer func() { d.idle-- }()
	for {
		if d.stopped || (len(d.queue) == 0 && d.active == 0) {
			d.cond.Broadcast()
			return item{}, false
		}
		if len(d.queue) > 0 {
			b := 0
			for i, it := range d.queue {
				if it.run < d.queue[b].run {
					b = i
				}
			}
			it := d.queue[b]
			d.queue = append(d.queue[:b], d.queue[b+1:]...)
			d.active++
			return it, true
		}
		d.cond.Wait()
	}
}

func addMap(dst, src map[string]int64) {
	for k, v := range src {
		dst[k] += v
	}
}

func (d *Driver) worker(id int) {
	ms := 20000
	if d.spec.QueryMS > 0 {
		ms = d.spec.QueryMS
	}
	e := newE(d.P, d.spec.Solver, ms)
	defer e.S.Close()
	e.initAll(false)
	e.harvest = d.harvest
	e.maxSteps = d.maxSteps
	e.stop = func() bool { return d.stopped || time.Now().After(d.deadline) }
	d.mu.Lock()
	for _, f := range e.initFail {
		d.initFail[f] = true
	}
	d.mu.Unlock()
	lastRun := -1
	for {
		it, ok := d.next()
		if !ok {
			break
		}
		run := d.runs[it.run]
		e.resetStats()
		e.harness = run.Harness
		e.params = run.Params
		e.onCand = func(c *Candidate) bool { d.onCand(it.run, c); return false }
		e.confirmEvery = 50
		if d.tier == "thorough" {
			e.confirmEvery = 5
		}
		if it.run != lastRun {
			lastRun = it.run
			e.confirmLeft = time.Second
			if d.tier == "thorough" {
				e.confirmLeft = 30 * time.Second
			}
		}
		e.onSample = func(c *Candidate, obs []string) {
			d.mu.Lock()
			d.samples = append(d.samples, sample{it.run, c, obs})
			d.mu.Unlock()
		}
		e.donate = func(p []dec) bool {
			if d.idle == 0 {
				return false
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			if len(d.queue) >= d.idle {
				return false
			}
			d.queue = append(d.queue, item{it.run, p})
			d.cond.Signal()
			return true
		}
		h := d.P.harness[run.Harness]
		func() {
			defer func() {
				if r := recover(); r != nil {
					e.stats.Unsupported[fmt.Sprintf("engine: %v", r)]++
					e.S.restart()
				}
			}()
			e.Explore(h, it.prefix)
		}()
		d.mu.Lock()
		rep := d.reports[it.run]
		rep.started = true
		s, q := &rep.Stats, &rep.Solver
		s.Paths += e.stats.Paths
		s.Steps += e.stats.Steps
		s.Forks += e.stats.Forks
		s.Asserts += e.stats.Asserts
		s.AssertConst += e.stats.AssertConst
		s.AssertUnsat += e.stats.AssertUnsat
		s.AssertSat += e.stats.AssertSat
		s.SchedChoices += e.stats.SchedChoices
		s.Merges += e.stats.Merges
		s.Bails += e.stats.Bails
		s.DomainDecided += e.stats.DomainDecided
		s.DomainUnsat += e.stats.DomainUnsat
		s.DomainConfirmed += e.stats.DomainConfirmed
		if e.stats.MaxSyms > s.MaxSyms {
			s.MaxSyms = e.stats.MaxSyms
		}
		addMap(s.Ends, e.stats.Ends)
		addMap(s.Unsupported, e.stats.Unsupported)
		addMap(s.Covers, e.stats.Covers)
		t := e.S.Stats
		q.Queries += t.Queries
		q.Sat += t.Sat
		q.Unsat += t.Unsat
		q.Unknown += t.Unknown
		q.CacheHits += t.CacheHits
		q.Seconds += t.Seconds
		if e.stop() {
			rep.stopped = true
			d.stopped = true
		}
		d.active--
		d.cond.Broadcast()
		d.mu.Unlock()
	}
	d.mu.Lock()
	for f, n := range e.fnCalls {
		if inRepo(f) {
			d.funcs[f.String()] += n
		}
	}
	d.mu.Unlock()
}

// harvestInts collects integer constants the code under test compares with or sizes by.
func harvestInts(P *Program) []int {
	set := map[int]bool{}
	add := func(v ssa.Value) {
		c, ok := v.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return
		}
		b, ok := c.Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 || b.Kind() == types.Int32 || b.Kind() == types.Uint8 {
			return
		}
		if x, ok := constant.Int64Val(c.Value); ok && x > 1 && x <= 1<<17 {
			set[int(x)] = true
		}
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.BinOp:
					switch i.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.REM, token.QUO, token.AND, token.SHL, token.SUB:
						add(i.X)
						add(i.Y)
					}
				case *ssa.MakeSlice:
					add(i.Len)
					add(i.Cap)
				case *ssa.Slice:
					for _, v := range []ssa.Value{i.Low, i.High, i.Max} {
						if v != nil {
							add(v)
						}
					}
				case *ssa.Store:
					add(i.Val)
				case ssa.CallInstruction:
					for _, v := range i.Common().Args {
						add(v)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			scan(g)
		}
	}
	for path, p := range P.pkgs {
		if !(path == modPath || strings.HasPrefix(path, modPath+"/")) || strings.Contains(path, "/internal/verif") {
			continue
		}
		for name, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if !strings.HasPrefix(name, "init") && !strings.HasPrefix(name, "H_") {
					scan(m)
				}
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := P.prog.MethodValue(ms.At(i)); f != nil {
							scan(f)
						}
					}
				}
			}
		}
	}
	var out []int
	for x := range set {
		out = append(out, x)
	}
	sort.Ints(out)
	return out
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		i := strings.IndexByte(kv, '=')
		v, err := strconv.Atoi(kv[i+1:])
		if err != nil {
			panic("bad parameter " + kv)
		}
		m[kv[:i]] = v
	}
	return m
}

// expand turns "h n=1..3,k=2" into runs.
func expand(spec string) []Run {
	f := strings.Fields(spec)
	out := []Run{{Harness: f[0], Params: map[string]int{}}}
	if len(f) < 2 {
		return out
	}
	for _, kv := range strings.Split(f[1], ",") {
		i := strings.IndexByte(kv, '=')
		k, v := kv[:i], kv[i+1:]
		lo, hi := v, v
		if j := strings.Index(v, ".."); j >= 0 {
			lo, hi = v[:j], v[j+2:]
		}
		a, err1 := strconv.Atoi(lo)
		b, err2 := strconv.Atoi(hi)
		if err1 != nil || err2 != nil {
			panic("bad run " + spec)
		}
		var next []Run
		for x := a; x <= b; x++ {
			for _, r := range out {
				p := map[string]int{}
				for kk, vv := range r.Params {
					p[kk] = vv
				}
				p[k] = x
				next = append(next, Run{r.Harness, p})
			}
		}
		out = next
	}
	return out
}

func checkMain(prop, tier, repo, verif string, budget time.Duration, only string) int {
	t0 := time.Now()
	spec := specs[prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no such property", prop)
		return 2
	}
	if spec.Pkg == "" {
		spec.Pkg = "./internal/verifh"
	}
	if spec.Solver == "" {
		spec.Solver = "z3-new"
	}
	d := &Driver{prop: prop, spec: spec, tier: tier, verif: verif, repo: repo, tried: map[string]int{}, known: map[string]int{},
		funcs: map[string]int64{}, initFail: map[string]bool{}, native: make(chan error), maxSteps: 30_000_000}
	if spec.MaxSteps > 0 {
		d.maxSteps = spec.MaxSteps
	}
	d.cond = sync.NewCond(&d.mu)
	var err error
	d.scratch, err = os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(d.scratch)
	nb := make(chan bool)
	go func() {
		d.nativeErr = d.buildNative(filepath.Join(d.scratch, "native"), false)
		close(d.native)
		close(nb)
	}()
	d.P, err = Load(repo, filepath.Join(verif, "harness"), []string{spec.Pkg})
	if err != nil {
		<-nb
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d.harvest = harvestInts(d.P)
	list := spec.Quick
	if tier == "thorough" {
		list = append(append([]string{}, spec.Quick...), spec.Thorough...)
	}
	for _, s := range list {
		for _, r := range expand(s) {
			if only != "" && r.Harness != only {
				continue
			}
			if d.P.harness[r.Harness] == nil {
				<-nb
				fmt.Fprintln(os.Stderr, "no harness", r.Harness)
				return 2
			}
			d.queue = append(d.queue, item{len(d.runs), nil})
			d.runs = append(d.runs, r)
			d.reports = append(d.reports, &RunReport{Harness: r.Harness, Bounds: r.Params,
				Stats: Stats{Ends: map[string]int64{}, Unsupported: map[string]int64{}, Covers: map[string]int64{}}})
		}
	}
	if budget == 0 {
		budget = 240 * time.Second
		if spec.QuickBudget > 0 {
			budget = time.Duration(spec.QuickBudget) * time.Second
		}
		if tier == "thorough" {
			budget = 25 * time.Minute
		}
	}
	d.deadline = t0.Add(budget)
	d.workers = runtime.NumCPU()
	if d.workers > 8 {
		d.workers = 8
	}
	var wg sync.WaitGroup
	for i := 0; i < d.workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); d.worker(i) }(i)
	}
	wg.Wait()
	<-nb
	if d.nativeErr != nil {
		fmt.Fprintln(os.Stderr, d.nativeErr)
		return 2
	}
	validated, disagreements, wit := d.validateSamples()
	code := d.report(time.Since(t0), validated, disagreements, wit)
	return code
}

// validateSamples runs witnesses of explored paths natively and compares what both observe.
func (d *Driver) validateSamples() (int, []string, []string) {
	if d.violation != nil {
		return 0, nil, nil
	}
	per := map[int]int{}
	type res struct {
		bad, wit string
	}
	var mu sync.Mutex
	var bad, wit []string
	n := 0
	sem := make(chan bool, d.workers)
	var wg sync.WaitGroup
	for _, s := range d.samples {
		if per[s.run] >= 12 {
			continue
		}
		per[s.run]++
		s := s
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			p := d.writeReplay(s.cand)
			defer os.Remove(p)
			code, out, to := d.runNative(filepath.Join(d.scratch, "native"), p, 30*time.Second)
			var obs []string
			for _, l := range strings.Split(out, "\n") {
				if strings.HasPrefix(l, "VERIF-OBS ") {
					obs = append(obs, l[len("VERIF-OBS "):])
				}
			}
			okObs := strings.Join(obs, "\n") == strings.Join(s.obs, "\n")
			mu.Lock()
			defer mu.Unlock()
			n++
			if to || code != 0 || !okObs {
				if len(bad) < 10 {
					bad = append(bad, fmt.Sprintf("%s %v: native exit %d, observed %.300q, executor %.300q", s.cand.Harness, s.cand.Vals, code, out, s.obs))
				}
			}
			if len(wit) < 6 && len(s.cand.Vals) > 0 {
				wit = append(wit, fmt.Sprintf("%s %v -> %.200q", s.cand.Harness, s.cand.Vals, s.obs))
			}
		}()
	}
	wg.Wait()
	sort.Strings(bad)
	sort.Strings(wit)
	return n, bad, wit
}

func (d *Driver) report(wall time.Duration, validated int, disagreements, witnesses []string) int {
	var paths, steps, forks, asserts, discharged, sat, queries, unknown int64
	var secs float64
	complete := 0
	unsup := map[string]int64{}
	covers := map[string]int64{}
	for _, r := range d.reports {
		s := r.Stats
		paths += s.Paths
		steps += s.Steps
		forks += s.Forks
		asserts += s.Asserts
		discharged += s.AssertConst + s.AssertUnsat
		sat += s.AssertSat
		queries += r.Solver.Queries
		unknown += r.Solver.Unknown
		secs += r.Solver.Seconds
		addMap(unsup, s.Unsupported)
		addMap(covers, s.Covers)
		r.Complete = r.started && !r.stopped && s.Ends["stopped"] == 0 && s.Ends["unknown"] == 0 && s.Ends["unknown-branch"] == 0 && s.Ends["unknown-assert"] == 0 && len(s.Unsupported) == 0
		if r.Complete {
			complete++
		}
	}
	for _, r := range d.reports {
		if d.stopped && !r.Complete {
			r.stopped = true
		}
	}
	var fl []string
	for f := range d.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var ifail []string
	for f := range d.initFail {
		ifail = append(ifail, f)
	}
	sort.Strings(ifail)
	var missing []string
	for _, c := range d.spec.Covers {
		if covers[c] == 0 {
			missing = append(missing, c)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viol := 0
	if d.violation != nil {
		viol = 1
	}
	if len(witnesses) == 0 {
		witnesses = []string{"none: the run ended before a path was sampled"}
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": append(append([]string{}, commonAssumptions...), d.spec.Assumptions...),
		"coverage": map[string]interface{}{
			"states":                        paths,
			"transitions":                   steps,
			"traces_validated_against_impl": validated + d.replays,
			"samples":                       witnesses,
			"explanation":                   "states: distinct symbolic paths explored to their end, each standing for every input that satisfies its path condition; transitions: SSA instructions executed symbolically; traces_validated_against_impl: witnesses of explored paths run on the native build with the same observations, and counterexample replays",
			"bounds":                        d.spec.Bounds,
			"runs":                          d.reports,
			"runs_total":                    len(d.reports),
			"runs_explored_completely":      complete,
			"exhaustive":                    complete == len(d.reports),
			"assertions_checked":            asserts,
			"assertions_discharged":         discharged,
			"assertions_refuted":            sat,
			"solver":                        d.spec.Solver,
			"solver_queries":                queries,
			"solver_unknown":                unknown,
			"solver_seconds":                secs,
			"forks":                         forks,
			"functions_encoded":             fl,
			"situations_reached":            covers,
			"situations_never_reached":      missing,
			"unsupported":                   unsup,
			"native_runs_of_unsupported":    d.handovers,
			"executor_native_disagreements": disagreements,
			"unconfirmed_candidates":        d.unconf,
			"initialisers_not_encoded":      ifail,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d/%d runs explored completely, %d paths, %d assertions (%d discharged), %d queries, %.1f s solver, %.1f s wall\n",
		d.prop, d.tier, complete, len(d.reports), paths, asserts, discharged, queries, secs, wall.Seconds())
	for _, r := range d.reports {
		if !r.Complete {
			fmt.Printf("  not complete: %s %v paths=%d ends=%v unsupported=%v\n", r.Harness, r.Bounds, r.Stats.Paths, r.Stats.Ends, r.Stats.Unsupported)
		}
	}
	if asserts > discharged+sat+unknown && d.violation == nil {
		fmt.Printf("  engine: %d assertions neither discharged nor refuted\n", asserts-discharged-sat-unknown)
	}
	for _, m := range missing {
		fmt.Println("  never reached:", m)
	}
	for _, x := range disagreements {
		fmt.Println("  executor and native run disagree:", x)
	}
	for _, x := range d.unconf {
		fmt.Println("  not confirmed natively:", x)
	}
	var ks []string
	for k := range d.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k)
	}
	if v := d.violation; v != nil {
		fmt.Printf("counterexample: %s %s: %s\n  inputs %v\n  native run: %s\n", v.Cand.Harness, v.Cand.Kind, v.Cand.Msg, v.Cand.Vals, strings.TrimSpace(v.Output))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, v.Path)
		return 1
	}
	return 0
}
