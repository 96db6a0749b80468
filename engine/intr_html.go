package main

import (
	"go/constant"
	"sort"

	"golang.org/x/tools/go/ssa"
)

const atomPkg = "golang.org/x/net/html/atom"

type atomEnt struct {
	name string
	val  uint64
}

// atoms reads the atom table of the html package: names and values by length.
func (e *E) atomsOf(n int) []atomEnt {
	if e.atoms == nil {
		e.atoms = map[int][]atomEnt{}
		p := e.prog.pkgs[atomPkg]
		text := constant.StringVal(p.Members["atomText"].(*ssa.NamedConst).Value.Value)
		tab := e.global(p.Members["table"].(*ssa.Global))
		seen := map[uint64]bool{}
		for _, c := range tab.cells {
			if c.n == 0 || seen[c.n] {
				continue
			}
			seen[c.n] = true
			s, l := int(c.n>>8), int(c.n&0xff)
			e.atoms[l] = append(e.atoms[l], atomEnt{text[s : s+l], c.n})
		}
		for _, l := range e.atoms {
			sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
		}
	}
	return e.atoms[n]
}

func init() {
	extraIntr = append(extraIntr, func(in map[string]intrFn) {
		// atom.Lookup is a perfect-hash lookup; encode what it computes (the value of the
		// atom spelled, or 0) instead of the hash.
		in[atomPkg+".Lookup"] = func(e *E, a []V, dst int) (V, bool) {
			s, ok := a[0].r.(*Slice)
			if !ok || s == nil {
				return V{}, true
			}
			b := s.obj.cells[s.off : s.off+s.len]
			res := e.T.Const(32, 0)
			for _, at := range e.atomsOf(len(b)) {
				var cs []*Term
				bad := false
				for i := range b {
					c := e.T.Eq(e.term(b[i], 8), e.T.Const(8, uint64(at.name[i])))
					if lo, hi := e.T.pathInterval(c); lo == hi {
						if lo == 0 {
							bad = true
							break
						}
						continue
					}
					cs = append(cs, c)
				}
				if !bad {
					res = e.T.Ite(e.T.AndN(cs), e.T.Const(32, at.val), res)
				}
			}
			return vTerm(res), true
		}
	})
}
