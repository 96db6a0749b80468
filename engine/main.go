package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// initProgram runs package initialisers inside the executor.
var skipInit = []string{"runtime", "reflect", "syscall", "os", "net", "crypto", "testing", "time", "log", "internal/", "vendor/", "encoding/", "compress/", "mime", "hash", "html/template", "text/template", "math/", "path", "io/ioutil", "context", "debug", "unique", "weak", "os/", "embed", "database", "go/", "fmt", "sync"}
var forceInit = map[string]bool{"internal/oserror": true, "io/fs": true, "path/filepath": true, "path": true, "internal/bytealg": true, "internal/strconv": true, "math/bits": true}

func wantInit(p string) bool {
	if forceInit[p] {
		return true
	}
	for _, s := range skipInit {
		if p == s || strings.HasPrefix(p, s+"/") || (strings.HasSuffix(s, "/") && strings.HasPrefix(p, s)) {
			return false
		}
	}
	return true
}

func (e *E) initAll(verbose bool) {
	e.inInit = true
	e.epoch = 1
	for _, p := range e.prog.order {
		path := p.Pkg.Path()
		if !wantInit(path) {
			continue
		}
		p.Build()
		f := p.Func("init")
		if f == nil {
			continue
		}
		t0 := time.Now()
		e.threads = []*Thread{{id: 0, vc: []uint32{1}}}
		e.cur = 0
		start := func() { e.pushFrame(e.fn(f), nil, nil, dstNone) }
		var pe pathEnd
		for try := 0; try < 200; try++ {
			pe = e.runInit(try == 0, start)
			if pe.kind == "ok" {
				break
			}
			// a failing initialiser leaves its variable at the zero value
			th := e.threads[0]
			if len(th.frames) == 0 {
				break
			}
			e.initFail = append(e.initFail, path+": "+pe.kind+" "+pe.msg)
			if verbose {
				fmt.Fprintln(os.Stderr, "init", path, pe.kind, pe.msg)
			}
			th.frames = th.frames[:1]
			th.pan = nil
			fr := e.top()
			if ci := fr.fn.calls[fr.pc]; ci != nil && ci.dst >= 0 {
				fr.regs[ci.dst] = e.fn(ci.fn).zeroResult(e)
			}
			fr.pc++
			pe = pathEnd{"ok", ""}
		}
		if pe.kind != "ok" {
			e.initFail = append(e.initFail, path+": "+pe.kind+" "+pe.msg)
			if verbose {
				fmt.Fprintln(os.Stderr, "init", path, pe.kind, pe.msg)
			}
		}
		if d := time.Since(t0); verbose && d > 50*time.Millisecond {
			fmt.Fprintln(os.Stderr, "init", path, d)
		}
	}
	e.trail = e.trail[:0]
	e.inInit = false
	e.steps = 0
	e.threads = nil
	e.resetStats()
	e.epoch++
}

func (e *E) runInit(first bool, start func()) (pe pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(pathEnd); ok {
				pe = p
				return
			}
			pe = pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", r, e.where())}
		}
	}()
	if first {
		start()
	}
	e.loop()
	return
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		prop := fs.String("prop", "", "property id")
		tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
		repo := fs.String("repo", "/repo", "")
		verif := fs.String("verif", "/verif", "")
		secs := fs.Int("t", 0, "seconds")
		only := fs.String("only", "", "one harness")
		fs.Parse(os.Args[2:])
		if *tier != "thorough" {
			*tier = "quick"
		}
		os.Exit(checkMain(*prop, *tier, *repo, *verif, time.Duration(*secs)*time.Second, *only))
	}
	fmt.Fprintln(os.Stderr, "usage")
	os.Exit(2)
}

func debugMain(args []string) {
	fs := flag.NewFlagSet("debug", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	harn := fs.String("harness", "/verif/harness", "")
	pat := fs.String("pkg", "./internal/verifh", "")
	h := fs.String("h", "", "")
	params := fs.String("p", "", "")
	secs := fs.Int("t", 60, "")
	solver := fs.String("solver", "z3-new", "")
	nomerge := fs.Bool("nomerge", false, "")
	dbg := fs.Bool("dbg", false, "")
	fs.Parse(args)
	t0 := time.Now()
	P, err := Load(*repo, *harn, strings.Split(*pat, ","))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Fprintln(os.Stderr, "load", time.Since(t0))
	e := newE(P, *solver, 10000)
	e.debug = *dbg
	e.noMerge = *nomerge
	t0 = time.Now()
	e.initAll(true)
	fmt.Fprintln(os.Stderr, "init", time.Since(t0))
	e.params = map[string]int{}
	for _, kv := range strings.Split(*params, ",") {
		if kv != "" {
			var v int
			i := strings.IndexByte(kv, '=')
			fmt.Sscan(kv[i+1:], &v)
			e.params[kv[:i]] = v
		}
	}
	f := P.harness[*h]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", *h)
		os.Exit(2)
	}
	dl := time.Now().Add(time.Duration(*secs) * time.Second)
	e.stop = func() bool { return time.Now().After(dl) }
	e.harness = *h
	seen := map[string]int{}
	e.onCand = func(c *Candidate) bool {
		k := c.Kind + " " + c.Msg
		seen[k]++
		if seen[k] <= 2 {
			fmt.Printf("CAND %s %s at %s: %v\n", c.Kind, c.Msg, c.Where, c.Vals)
		}
		return false
	}
	t0 = time.Now()
	e.Explore(f, nil)
	fmt.Printf("time %v stats %+v\nsolver %+v\n", time.Since(t0), e.stats, e.S.Stats)
	type kv struct {
		n string
		c int64
	}
	var fs2 []kv
	for f, c := range e.fnCalls {
		fs2 = append(fs2, kv{f.String(), c})
	}
	sort.Slice(fs2, func(i, j int) bool { return fs2[i].c > fs2[j].c })
	for i, x := range fs2 {
		if i > 15 {
			break
		}
		fmt.Println(x.n, x.c)
	}
	for k, v := range seen {
		fmt.Println("candidates", k, v)
	}
}
