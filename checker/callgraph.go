package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// CallGraph resolves callees: static calls, interface calls by class
// hierarchy over the module's types, calls of function values by signature
// over the functions of the module whose value is taken.
type CallGraph struct {
	P         *Program
	addrTaken []*ssa.Function
	isTaken   map[*ssa.Function]bool
	namedMod  []types.Type
	siteMap   map[*ssa.Function][]ssa.CallInstruction
}

func newCallGraph(p *Program) *CallGraph {
	g := &CallGraph{P: p, isTaken: map[*ssa.Function]bool{}}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee ssa.Value
				if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if fn, ok := (*op).(*ssa.Function); ok {
						if callee == fn && countOperand(ins, fn) == 1 {
							continue
						}
						if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
							// closures only called or deferred in place are not "taken"
							if onlyCalledInPlace(mc) {
								continue
							}
						}
						if !g.isTaken[fn] {
							g.isTaken[fn] = true
							g.addrTaken = append(g.addrTaken, fn)
						}
					}
				}
			}
		}
	}
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, isIface := t.Type().Underlying().(*types.Interface); !isIface {
					g.namedMod = append(g.namedMod, t.Type())
				}
			}
		}
	}
	capGraph = g
	return g
}

func countOperand(ins ssa.Instruction, v ssa.Value) int {
	n := 0
	for _, op := range ins.Operands(nil) {
		if op != nil && *op == v {
			n++
		}
	}
	return n
}

func onlyCalledInPlace(mc *ssa.MakeClosure) bool {
	refs := mc.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if r.Common().IsInvoke() || r.Common().Value != mc || countOperand(r, mc) != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sites lists the calls in the module that may call f.
func (g *CallGraph) sites(f *ssa.Function) []ssa.CallInstruction {
	if g.siteMap == nil {
		g.siteMap = map[*ssa.Function][]ssa.CallInstruction{}
		for _, h := range g.P.Funcs {
			for _, b := range h.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						mod, _, _ := g.Callees(c)
						for _, m := range mod {
							g.siteMap[m] = append(g.siteMap[m], c)
						}
					}
				}
			}
		}
	}
	return g.siteMap[f]
}

// Callees of a call: functions of the module, and external functions.
// opaque is true when the callee may be a function given by the caller of the API.
func (g *CallGraph) Callees(c ssa.CallInstruction) (mod []*ssa.Function, ext []*ssa.Function, opaque bool) {
	com := c.Common()
	add := func(f *ssa.Function) {
		if f == nil {
			return
		}
		if f.Blocks != nil && g.P.InModule(f) {
			mod = append(mod, f)
		} else {
			ext = append(ext, f)
		}
	}
	if com.IsInvoke() {
		for _, t := range g.namedMod {
			for _, ty := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(ty, com.Value.Type().Underlying().(*types.Interface)) {
					sel := g.P.SSA.MethodSets.MethodSet(ty).Lookup(com.Method.Pkg(), com.Method.Name())
					if sel != nil {
						add(g.P.SSA.MethodValue(sel))
					}
				}
			}
		}
		return mod, ext, true
	}
	if f := com.StaticCallee(); f != nil {
		add(f)
		return mod, ext, false
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil, nil, false
	}
	sig := com.Value.Type().Underlying().(*types.Signature)
	for _, f := range g.addrTaken {
		if sameSig(f.Signature, sig) {
			add(f)
		}
	}
	return mod, ext, true
}

func sameSig(a, b *types.Signature) bool {
	if a.Params().Len() != b.Params().Len() || a.Results().Len() != b.Results().Len() || a.Variadic() != b.Variadic() {
		return false
	}
	for i := 0; i < a.Params().Len(); i++ {
		if !types.Identical(a.Params().At(i).Type(), b.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < a.Results().Len(); i++ {
		if !types.Identical(a.Results().At(i).Type(), b.Results().At(i).Type()) {
			return false
		}
	}
	return true
}

// Reachable gives the functions of the module reachable from the roots.
func (g *CallGraph) Reachable(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !g.P.InModule(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					mod, _, _ := g.Callees(c)
					for _, m := range mod {
						visit(m)
					}
				}
				// functions whose value is taken here may be called back
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						if fn, ok := (*op).(*ssa.Function); ok {
							visit(fn)
						}
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// exported tells if a function is part of the API: callable from outside of
// its package through an exported name or method.
func exportedAPI(f *ssa.Function) bool {
	if f.Parent() != nil || f.Object() == nil {
		return false
	}
	return token.IsExported(f.Name())
}

func isInit(f *ssa.Function) bool {
	return f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#")
}
