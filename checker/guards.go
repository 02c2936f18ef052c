package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// guardSet is the set of guards that must hold at a point: "mx" (mutex held
// for writing), "r:mx" (held for reading at least), "in:once" (inside the
// function run by the once), "done:once" (the once has completed).
type guardSet map[string]bool

var topGuards guardSet // nil means "every guard" (unreached)

func (g guardSet) clone() guardSet {
	n := guardSet{}
	for k := range g {
		n[k] = true
	}
	return n
}

func meet(a, b guardSet, aTop, bTop bool) (guardSet, bool) {
	if aTop {
		return b, bTop
	}
	if bTop {
		return a, aTop
	}
	n := guardSet{}
	for k := range a {
		if b[k] {
			n[k] = true
		}
	}
	return n, false
}

func (g guardSet) String() string {
	var ks []string
	for k := range g {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return "{" + strings.Join(ks, " ") + "}"
}

type fnGuards struct {
	entryTop bool
	entry    guardSet
	gen      guardSet // guards acquired, for sure, on return
	kill     guardSet // guards that may be released on return
	at       map[ssa.Instruction]guardSet
}

// Guards is a forward must analysis of the locks held and onces completed,
// over all functions of the module.
type Guards struct {
	P  *Program
	G  *CallGraph
	fn map[*ssa.Function]*fnGuards
}

// lockName names a mutex or once by where it lives: a global, or a field of a type.
func lockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Global:
		return strings.TrimPrefix(x.String(), modPath+"/")
	case *ssa.FieldAddr:
		k := fieldKeyOf(x.X.Type(), x.Field)
		return fmt.Sprintf("%s.%d", strings.TrimPrefix(k.typ, modPath+"/"), k.idx)
	case *ssa.UnOp:
		return lockName(x.X)
	case *ssa.ChangeType:
		return lockName(x.X)
	case *ssa.MakeInterface:
		return lockName(x.X)
	}
	return ""
}

type guardOp struct {
	kind string // lock, rlock, unlock, runlock, once
	name string
	fns  []*ssa.Function // for once
}

func guardOpOf(c ssa.CallInstruction, g *CallGraph) *guardOp {
	com := c.Common()
	var name string
	var recv ssa.Value
	if com.IsInvoke() {
		if com.Method.Pkg() == nil || com.Method.Pkg().Path() != "sync" {
			return nil
		}
		name, recv = com.Method.Name(), com.Value
	} else {
		f := com.StaticCallee()
		if f == nil {
			return nil
		}
		if b := boundMethod(com.Value); b != nil {
			f, recv = b.fn, b.recv
		} else if f.Signature.Recv() != nil && len(com.Args) > 0 {
			recv = com.Args[0]
		}
		if f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" || recv == nil {
			return nil
		}
		name = f.Name()
	}
	n := lockName(recv)
	if n == "" {
		return nil
	}
	switch name {
	case "Lock":
		return &guardOp{kind: "lock", name: n}
	case "RLock":
		return &guardOp{kind: "rlock", name: n}
	case "Unlock":
		return &guardOp{kind: "unlock", name: n}
	case "RUnlock":
		return &guardOp{kind: "runlock", name: n}
	case "Do":
		return &guardOp{kind: "once", name: n, fns: funcValues(com.Args[len(com.Args)-1])}
	}
	return nil
}

type bound struct {
	fn   *ssa.Function
	recv ssa.Value
}

// boundMethod recognizes a call of x.M as a method value.
func boundMethod(v ssa.Value) *bound {
	mc, ok := v.(*ssa.MakeClosure)
	if !ok {
		return nil
	}
	fn := mc.Fn.(*ssa.Function)
	if !strings.HasPrefix(fn.Synthetic, "bound method wrapper") || len(mc.Bindings) != 1 {
		return nil
	}
	if o, ok := fn.Object().(*types.Func); ok {
		if f := fn.Prog.FuncValue(o); f != nil {
			return &bound{f, mc.Bindings[0]}
		}
	}
	return nil
}

func newGuards(p *Program, g *CallGraph) *Guards {
	gs := &Guards{P: p, G: g, fn: map[*ssa.Function]*fnGuards{}}
	for _, f := range p.Funcs {
		fg := &fnGuards{entryTop: true, gen: guardSet{}, kill: guardSet{}}
		// callable from outside with nothing held: exported functions, init
		// and functions whose value escapes
		if exportedAPI(f) || isInit(f) || g.isTaken[f] {
			if !onlyOnceFn(f, p, g) {
				fg.entryTop, fg.entry = false, guardSet{}
			}
		}
		gs.fn[f] = fg
	}
	for i := 0; i < 100; i++ {
		if !gs.pass() {
			return gs
		}
	}
	panic("guard analysis does not converge")
}

// onlyOnceFn tells if the only uses of the function's value are as the
// argument of (sync.Once).Do.
func onlyOnceFn(f *ssa.Function, p *Program, g *CallGraph) bool {
	if exportedAPI(f) || isInit(f) {
		return false
	}
	found := false
	for _, h := range p.Funcs {
		for _, b := range h.Blocks {
			for _, ins := range b.Instrs {
				if countOperand(ins, f) == 0 {
					continue
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						c, ok := r.(ssa.CallInstruction)
						if !ok {
							return false
						}
						if op := guardOpOf(c, g); op == nil || op.kind != "once" {
							return false
						}
						found = true
					}
					continue
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					return false
				}
				if op := guardOpOf(c, g); op != nil && op.kind == "once" {
					found = true
					continue
				}
				if c.Common().StaticCallee() == f && countOperand(ins, f) == 1 {
					continue
				}
				return false
			}
		}
	}
	return found
}

func eqSet(a, b guardSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func (gs *Guards) pass() bool {
	changed := false
	type contrib struct {
		top bool
		set guardSet
	}
	next := map[*ssa.Function]*contrib{}
	contribute := func(f *ssa.Function, s guardSet) {
		if gs.fn[f] == nil {
			return
		}
		c := next[f]
		if c == nil {
			next[f] = &contrib{set: s.clone()}
			return
		}
		n, _ := meet(c.set, s, false, false)
		c.set = n
	}
	for _, f := range gs.P.Funcs {
		fg := gs.fn[f]
		if fg.entryTop {
			// unreached yet: summarize as if nothing was held
			gs.flow(f, guardSet{}, nil)
			continue
		}
		gs.flow(f, fg.entry, contribute)
	}
	// summaries
	for _, f := range gs.P.Funcs {
		gen, kill := gs.summary(f)
		fg := gs.fn[f]
		if !eqSet(gen, fg.gen) || !eqSet(kill, fg.kill) {
			fg.gen, fg.kill = gen, kill
			changed = true
		}
	}
	for f, c := range next {
		fg := gs.fn[f]
		if fg.entryTop {
			fg.entryTop, fg.entry = false, c.set
			changed = true
			continue
		}
		if n, _ := meet(fg.entry, c.set, false, false); !eqSet(n, fg.entry) {
			fg.entry = n
			changed = true
		}
	}
	return changed
}

func (gs *Guards) summary(f *ssa.Function) (gen, kill guardSet) {
	kill = guardSet{}
	at := gs.flow2(f, guardSet{}, nil, kill)
	first := true
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s := at[ret]
			if s == nil {
				continue
			}
			if first {
				gen, first = s.clone(), false
			} else {
				gen, _ = meet(gen, s, false, false)
			}
		}
	}
	if gen == nil {
		gen = guardSet{}
	}
	for k := range gen {
		delete(kill, k)
	}
	return gen, kill
}

func (gs *Guards) flow(f *ssa.Function, entry guardSet, contribute func(*ssa.Function, guardSet)) {
	gs.fn[f].at = gs.flow2(f, entry, contribute, guardSet{})
}

// flow2 runs the intraprocedural analysis; at gives the guards held before each instruction.
func (gs *Guards) flow2(f *ssa.Function, entry guardSet, contribute func(*ssa.Function, guardSet), killed guardSet) map[ssa.Instruction]guardSet {
	in := map[*ssa.BasicBlock]guardSet{f.Blocks[0]: entry}
	if f.Recover != nil {
		in[f.Recover] = guardSet{}
	}
	at := map[ssa.Instruction]guardSet{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		work = append(work, f.Recover)
	}
	var defers []*ssa.Defer
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if d, ok := ins.(*ssa.Defer); ok {
				defers = append(defers, d)
			}
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b].clone()
		for _, ins := range b.Instrs {
			at[ins] = s.clone()
			switch x := ins.(type) {
			case *ssa.Call:
				gs.apply(x, s, killed, contribute)
			case *ssa.RunDefers:
				gs.runDefers(defers, s, killed, contribute)
			case *ssa.Go:
				mod, _, _ := gs.G.Callees(x)
				for _, m := range mod {
					if contribute != nil {
						contribute(m, guardSet{})
					}
				}
			}
		}
		for _, succ := range b.Succs {
			old, ok := in[succ]
			if !ok {
				in[succ] = s.clone()
				work = append(work, succ)
				continue
			}
			if n, _ := meet(old, s, false, false); !eqSet(n, old) {
				in[succ] = n
				work = append(work, succ)
			}
		}
	}
	return at
}

func (gs *Guards) apply(c ssa.CallInstruction, s, killed guardSet, contribute func(*ssa.Function, guardSet)) {
	if op := guardOpOf(c, gs.G); op != nil {
		switch op.kind {
		case "lock":
			s[op.name], s["r:"+op.name] = true, true
		case "rlock":
			s["r:"+op.name] = true
		case "unlock":
			delete(s, op.name)
			delete(s, "r:"+op.name)
			killed[op.name], killed["r:"+op.name] = true, true
		case "runlock":
			delete(s, "r:"+op.name)
			killed["r:"+op.name] = true
		case "once":
			for _, f := range op.fns {
				if contribute != nil {
					n := s.clone()
					n["in:"+op.name] = true
					contribute(f, n)
				}
				if fg := gs.fn[f]; fg != nil {
					for k := range fg.gen {
						if strings.HasPrefix(k, "done:") {
							s[k] = true
						}
					}
				}
			}
			s["done:"+op.name] = true
		}
		return
	}
	mod, ext, opaque := gs.G.Callees(c)
	var gen guardSet
	for i, m := range mod {
		if contribute != nil {
			contribute(m, s)
		}
		fg := gs.fn[m]
		for k := range fg.kill {
			delete(s, k)
			killed[k] = true
		}
		if i == 0 {
			gen = fg.gen.clone()
		} else {
			gen, _ = meet(gen, fg.gen, false, false)
		}
	}
	if len(ext) == 0 && !opaque {
		for k := range gen {
			s[k] = true
		}
	}
	// callbacks run by external code: nothing is known of when
	for _, a := range c.Common().Args {
		for _, fn := range funcValues(a) {
			if contribute != nil && gs.fn[fn] != nil {
				contribute(fn, guardSet{})
			}
		}
	}
}

func (gs *Guards) runDefers(defers []*ssa.Defer, s, killed guardSet, contribute func(*ssa.Function, guardSet)) {
	// last deferred, first run; defers on exclusive branches are all applied,
	// which can only lose guards
	for i := len(defers) - 1; i >= 0; i-- {
		gs.apply(defers[i], s, killed, contribute)
	}
}

// At gives the guards held before an instruction.
func (gs *Guards) At(ins ssa.Instruction) guardSet {
	fg := gs.fn[ins.Parent()]
	if fg == nil || fg.at == nil {
		return guardSet{}
	}
	if s := fg.at[ins]; s != nil {
		return s
	}
	return guardSet{}
}
