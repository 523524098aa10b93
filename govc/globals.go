package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalConst gives the value of a package-level variable that is assigned
// exactly once, in its package's initialiser, with a constant or a function,
// and whose address is never taken otherwise.
func (e *Engine) globalConst(g *ssa.Global) (Value, bool) {
	if e.globalInit == nil {
		e.scanGlobals()
	}
	v, ok := e.globalInit[g]
	return v, ok && v != nil
}

const repoMod = "sigs.k8s.io/controller-tools"

func (e *Engine) scanGlobals() {
	e.globalInit = map[*ssa.Global]Value{}
	stores := map[*ssa.Global][]*ssa.Store{}
	escaped := map[*ssa.Global]bool{}
	var scan func(fn *ssa.Function)
	seen := map[*ssa.Function]bool{}
	scan = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						if x.Addr == g {
							stores[g] = append(stores[g], x)
							if x.Val == g {
								escaped[g] = true
							}
							continue
						}
						escaped[g] = true
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						escaped[g] = true
					default:
						escaped[g] = true
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			scan(a)
		}
	}
	for _, p := range e.prog.AllPackages() {
		if !strings.HasPrefix(p.Pkg.Path(), repoMod) {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				scan(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := e.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						scan(e.prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	for g, ss := range stores {
		if escaped[g] || len(ss) != 1 || ss[0].Parent().Name() != "init" {
			continue
		}
		switch v := ss[0].Val.(type) {
		case *ssa.Const:
			e.globalInit[g] = e.constVal(v)
		case *ssa.Function:
			e.globalInit[g] = &FuncV{[]FuncAlt{{G: True, Fn: v}}}
		}
	}
}
