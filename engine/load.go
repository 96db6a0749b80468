package main

// Loading the repository's current source (plus overlay harness files) into SSA.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/clipperhouse/jargon"

type Program struct {
	prog      *ssa.Program
	fset      *token.FileSet
	pkgs      map[string]*ssa.Package // by import path
	order     []*ssa.Package          // dependency order
	rtErrType types.Type
	models    map[string]*ssa.Function
	repoDir   string
	harness   map[string]*ssa.Function
	buildMu   sync.Mutex
	strCtx    types.Type
}

// overlayFiles maps paths inside the repository to harness files of /verif.
func overlayFiles(repo, harn string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(harn, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harn, p)
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m, err
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "CGO_ENABLED=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=-mod=readonly")
}

func Load(repo, harn string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(repo, harn)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, fset: cfg.Fset, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, repoDir: repo, harness: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	// dependency order
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil {
			P.order = append(P.order, sp)
		}
	}
	if p := P.pkgs[modPath+"/internal/verifmodels"]; p != nil {
		visit(p.Pkg) // sets up what the models stand for
	}
	for _, p := range spkgs {
		if p != nil {
			visit(p.Pkg)
		}
	}
	// build the packages of the module (harness constants, functions); others on demand
	for _, p := range P.order {
		if p.Pkg.Path() == "runtime" {
			if tn, ok := p.Pkg.Scope().Lookup("errorString").(*types.TypeName); ok {
				P.rtErrType = tn.Type()
			}
		}
	}
	for _, p := range P.order {
		path := p.Pkg.Path()
		if strings.HasPrefix(path, modPath) {
			p.Build()
			for name, m := range p.Members {
				if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "H_") {
					P.harness[name[2:]] = fn
				}
			}
		}
		if path == modPath+"/internal/verifmodels" || path == modPath+"/internal/verifweb" {
			for name, m := range p.Members {
				if fn, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "M_") {
					P.models[name[2:]] = fn
				}
			}
		}
	}
	return P, nil
}

// ensureBuilt builds the package declaring f, so that f has blocks.
func (P *Program) ensureBuilt(f *ssa.Function) {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return
	}
	p.Build()
}

func inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	return (path == modPath || strings.HasPrefix(path, modPath+"/")) && !strings.Contains(path, "/internal/verif") && !strings.HasPrefix(f.Name(), "H_")
}
