package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Variables of packages whose initialisers are not executed have no value here: a path that uses one ends as
// unsupported instead of seeing a zero value. Those the library models set are known.

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func storedGlobals(f *ssa.Function, set map[*ssa.Global]bool) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g := rootGlobal(s.Addr); g != nil {
					set[g] = true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		storedGlobals(a, set)
	}
}

func (e *E) findUnset() {
	e.unset = map[*ssa.Global]bool{}
	e.unsetDone = map[*ssa.Package]bool{}
	e.modelled = map[*ssa.Global]bool{}
	for _, p := range e.prog.order {
		if strings.HasPrefix(p.Pkg.Path(), modPath+"/internal/verif") {
			for _, m := range p.Members {
				if f, ok := m.(*ssa.Function); ok {
					storedGlobals(f, e.modelled)
				}
			}
		}
	}
}

// unsetGlobal says that g would have been given its value by an initialiser that was not executed.
func (e *E) unsetGlobal(g *ssa.Global) bool {
	if g.Pkg == nil || g.Name() == "init$guard" || wantInit(g.Pkg.Pkg.Path()) {
		return false
	}
	if e.unset == nil {
		e.findUnset()
	}
	if !e.unsetDone[g.Pkg] {
		e.unsetDone[g.Pkg] = true
		g.Pkg.Build()
		for name, m := range g.Pkg.Members {
			if f, ok := m.(*ssa.Function); ok && (name == "init" || strings.HasPrefix(name, "init#")) {
				storedGlobals(f, e.unset)
			}
		}
	}
	return e.unset[g] && !e.modelled[g]
}
