package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "proof",
		"lockset and publication analysis over SSA: every write to memory rooted at a package variable or at a word breaker, and every read of such written memory, is checked for a common guard (mutex held, inside / after a sync.Once); values published there are checked to be immutable afterwards",
		checkC15)
}

// nonInit gives the functions that may run after package initialization.
func nonInit(p *Program, g *CallGraph) map[*ssa.Function]bool {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if exportedAPI(f) || (f.Signature.Recv() != nil && f.Synthetic == "") {
			roots = append(roots, f)
		}
	}
	return g.Reachable(roots...)
}

// breakerTypes gives the named types of the module with a method BreakWord.
func breakerTypes(p *Program) []*types.Named {
	var out []*types.Named
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			n, ok := t.Type().(*types.Named)
			if !ok {
				continue
			}
			if _, isI := n.Underlying().(*types.Interface); isI {
				continue
			}
			ms := p.SSA.MethodSets.MethodSet(types.NewPointer(n))
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == "BreakWord" {
					out = append(out, n)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func isSyncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// sharedTaint labels memory by the package variable (or the kind of word
// breaker) it is rooted at, and by depth: 0 the variable, 1 the object it
// refers to, 2 anything further.
type sharedTaint struct {
	*Taint
	levels  [][3]int // per root
	roots   []string
	next    map[int]int
	ofLabel map[int]int // label -> root
	level   map[int]int
}

func newSharedTaint(p *Program, g *CallGraph, scope map[*ssa.Function]bool, receivers []*types.Named) *sharedTaint {
	t := newTaint(p, g, scope)
	st := &sharedTaint{Taint: t, next: map[int]int{}, ofLabel: map[int]int{}, level: map[int]int{}}
	addRoot := func(name string) [3]int {
		var ls [3]int
		for i := range ls {
			ls[i] = t.NewLabel(fmt.Sprintf("%s(depth %d)", name, i))
			st.ofLabel[ls[i]] = len(st.roots)
			st.level[ls[i]] = i
		}
		st.next[ls[0]], st.next[ls[1]], st.next[ls[2]] = ls[1], ls[2], ls[2]
		st.roots = append(st.roots, name)
		st.levels = append(st.levels, ls)
		return ls
	}
	globals := map[*ssa.Global][3]int{}
	var gs []*ssa.Global
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			if gl, ok := m.(*ssa.Global); ok {
				if gl.Name() == "_" || gl.Name() == "init$guard" {
					continue
				}
				el := gl.Type().(*types.Pointer).Elem()
				if isSyncType(el) && el.String() != "sync.Map" {
					continue
				}
				gs = append(gs, gl)
			}
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, gl := range gs {
		globals[gl] = addRoot("variable " + strings.TrimPrefix(gl.String(), modPath+"/"))
	}
	recvs := map[*ssa.Parameter]Label{}
	for _, n := range receivers {
		ls := addRoot("receiver " + strings.TrimPrefix(n.String(), modPath+"/"))
		ms := p.SSA.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			f := p.SSA.MethodValue(ms.At(i))
			if f == nil || !exportedAPI(f) || !scope[f] || len(f.Params) == 0 {
				continue
			}
			if _, isPtr := f.Params[0].Type().Underlying().(*types.Pointer); isPtr {
				recvs[f.Params[0]] = bit(ls[1])
			} else {
				recvs[f.Params[0]] = bit(ls[2])
			}
		}
	}
	t.Source = func(v ssa.Value) Label {
		switch v := v.(type) {
		case *ssa.Global:
			if ls, ok := globals[v]; ok {
				return bit(ls[0])
			}
		case *ssa.Parameter:
			return recvs[v]
		}
		return Label{}
	}
	t.LoadT = func(l Label) Label {
		var out Label
		for i := range t.names {
			if l.has(i) {
				out = out.or(bit(st.next[i]))
			}
		}
		return out
	}
	t.CallT = func(c ssa.CallInstruction, callee *ssa.Function, args []Label) (Label, bool) {
		pkg, name := extPkg(c, callee)
		switch pkg {
		case "container/list", "container/ring", "sync/atomic", "slices", "bytes", "maps", "iter":
			return Label{}, false
		case "sync":
			if recvNamed(callee) == "Map" {
				return Label{}, false
			}
			return Label{}, true
		case "":
			return Label{}, false
		}
		_ = name
		return Label{}, true
	}
	return st
}

type guardedAccess struct {
	Write
	kind   string
	guards guardSet // normalized
}

func checkC15(p *Program, r *Report) {
	g := newCallGraph(p)
	scope := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		scope[f] = true
	}
	live := nonInit(p, g)
	brk := breakerTypes(p)
	st := newSharedTaint(p, g, scope, brk)
	st.Run()
	gs := newGuards(p, g)
	for _, n := range brk {
		r.Count("word breaker types", n.Obj().Name())
	}
	for _, n := range st.roots {
		r.Count("shared roots", n)
	}
	r.AtLeast("word breaker types", 3)
	r.AtLeast("shared roots", 10)
	r.Rule("every write after initialization to memory rooted at a package variable or at a word breaker holds an exclusive guard (mutex, or runs inside sync.Once.Do)")
	r.Rule("every read of memory so written holds a guard in common with all of its writes (the mutex, or follows the Do of the same once)")
	r.Rule("a value published in shared memory is not written through a local alias afterwards, unless under a guard of the publication")
	r.Rule("no goroutine is started by the module")
	r.Assume("functions given by the user (readers, writers, renderers, split functions) synchronize their own state")
	r.Assume("the listed standard library and x/text functions are safe for concurrent reads of their arguments")

	// collect accesses
	byRoot := map[int][]guardedAccess{}
	addAccess := func(w Write, kind string) {
		if !live[w.Fn] {
			return
		}
		for i := range st.names {
			if !w.Labels.has(i) {
				continue
			}
			gsAt := gs.At(w.Ins)
			n := guardSet{}
			for k := range gsAt {
				switch {
				case strings.HasPrefix(k, "done:"):
					if kind == "read" {
						n["once "+k[5:]] = true
					}
				case strings.HasPrefix(k, "in:"):
					n["once "+k[3:]] = true
				case strings.HasPrefix(k, "r:"):
					if kind == "read" {
						n["mutex "+k[2:]] = true
					}
				default:
					n["mutex "+k] = true
				}
			}
			byRoot[i] = append(byRoot[i], guardedAccess{w, kind, n})
		}
	}
	for _, w := range st.Writes() {
		addAccess(w, "write")
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var target ssa.Value
				what := "read"
				switch x := ins.(type) {
				case *ssa.UnOp:
					if x.Op.String() == "*" {
						target = x.X
					}
				case *ssa.Lookup:
					target = x.X
				case *ssa.Range:
					target = x.X
				case *ssa.Index:
					target = x.X
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && len(x.Call.Args) > 0 {
						if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); isMap {
							target = x.Call.Args[0]
						}
						_ = bi
						break
					}
					mod, _, _ := g.Callees(x)
					if len(mod) == 0 {
						for _, a := range x.Call.Args {
							if l := st.L(a); !l.empty() && refLike(a.Type()) && !isSyncType(a.Type()) {
								addAccess(Write{f, ins, "call of " + calleeName(x), a, l}, "read")
							}
						}
					}
				case *ssa.Go:
					r.Fail("no goroutine", shortFn(f), p.PosOf(ins), "starts a goroutine: its accesses are not ordered with those of the caller")
				}
				if target != nil {
					if l := st.L(target); !l.empty() {
						addAccess(Write{f, ins, what, target, l}, "read")
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		r.Count("functions analysed", shortFn(f))
	}
	for lab := range st.names {
		acc := byRoot[lab]
		var common guardSet
		nw := 0
		for _, a := range acc {
			r.Count("accesses to shared memory", fmt.Sprintf("%s of %s in %s", a.What, st.names[lab], shortFn(a.Fn)))
			if a.kind != "write" {
				continue
			}
			nw++
			r.Count("writes to shared memory", fmt.Sprintf("%s of %s in %s under %s", a.What, st.names[lab], shortFn(a.Fn), a.guards))
			if !r.Oblige(len(a.guards) > 0, "shared write is guarded", fmt.Sprintf("%s: %s of %s", shortFn(a.Fn), a.What, st.names[lab]), p.PosOf(a.Ins),
				"memory shared between goroutines is written without a mutex held and outside of a sync.Once") {
				continue
			}
			if common == nil {
				common = a.guards.clone()
			} else {
				common, _ = meet(common, a.guards, false, false)
			}
		}
		if nw == 0 || common == nil {
			continue
		}
		if !r.Oblige(len(common) > 0, "writes share a guard", st.names[lab], "-", "no guard is common to all the writes") {
			continue
		}
		for _, a := range acc {
			if a.kind != "read" {
				continue
			}
			n, _ := meet(common, a.guards, false, false)
			r.Oblige(len(n) > 0, "shared read is guarded", fmt.Sprintf("%s: %s of %s", shortFn(a.Fn), a.What, st.names[lab]), p.PosOf(a.Ins),
				fmt.Sprintf("this memory is written under %s, and read here under %s", common, a.guards))
		}
	}
	r.AtLeast("writes to shared memory", 1)
	checkPublication(p, g, gs, st, live, r)
}

// checkPublication verifies that what is stored in shared memory is not
// written afterwards through a local alias.
func checkPublication(p *Program, g *CallGraph, gs *Guards, st *sharedTaint, live map[*ssa.Function]bool, r *Report) {
	mw := newModSummary(p, g)
	for _, f := range p.Funcs {
		if !live[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var val, target ssa.Value
				switch x := ins.(type) {
				case *ssa.Store:
					val, target = x.Val, x.Addr
				case *ssa.MapUpdate:
					val, target = x.Value, x.Map
				case *ssa.Call:
					// sync.Map.Store, LoadOrStore, atomic.Pointer.Store...
					if cal := x.Call.StaticCallee(); cal != nil && len(x.Call.Args) > 1 && isSyncType(x.Call.Args[0].Type()) {
						val, target = x.Call.Args[len(x.Call.Args)-1], x.Call.Args[0]
					}
				}
				if val == nil || !refLike(val.Type()) {
					continue
				}
				if _, isStr := val.Type().Underlying().(*types.Basic); isStr {
					continue
				}
				if st.L(target).empty() {
					continue
				}
				r.Count("publications", fmt.Sprintf("%s publishes in %s", shortFn(f), st.Names(st.L(target))))
				pubGuards := gs.At(ins)
				al := aliases(val)
				for _, late := range reachableAfter(ins, al) {
					var through ssa.Value
					what := ""
					switch y := late.(type) {
					case *ssa.Store:
						through, what = rootOf(y.Addr), "store"
						if _, isAlloc := y.Addr.(*ssa.Alloc); isAlloc && !al[y.Addr] {
							continue
						}
					case *ssa.MapUpdate:
						through, what = rootOf(y.Map), "map update"
					case ssa.CallInstruction:
						for i, a := range callArgs(y) {
							if al[rootOf(a)] && mw.writesArg(y, i) {
								through, what = rootOf(a), "call of "+calleeName(y)
							}
						}
					}
					if through == nil || !al[through] {
						continue
					}
					n, _ := meet(pubGuards, gs.At(late), false, false)
					excl := 0
					for k := range n {
						if !strings.HasPrefix(k, "r:") && !strings.HasPrefix(k, "done:") {
							excl++
						}
					}
					r.Oblige(excl > 0, "published values are immutable", fmt.Sprintf("%s: %s", shortFn(f), what), p.PosOf(late),
						"writes to a value after it was published in shared memory, without the guard of the publication")
				}
			}
		}
	}
}

func callArgs(c ssa.CallInstruction) []ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		return append([]ssa.Value{com.Value}, com.Args...)
	}
	return com.Args
}

// rootOf strips the access path of a reference: the value it starts from.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Field:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.UnOp:
			if x.Op.String() != "*" {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// aliases of a value within its function (through copies, not loads).
func aliases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || out[v] {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		out[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.TypeAssert:
			visit(x.X)
		case *ssa.Slice:
			visit(x.X)
		case *ssa.UnOp:
			// a local variable: what was stored there
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op.String() == "*" {
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						visit(st.Val)
					}
				}
			}
		}
		if refs := v.Referrers(); refs != nil {
			for _, ref := range *refs {
				switch x := ref.(type) {
				case *ssa.Phi:
					visit(x)
				case *ssa.ChangeType:
					visit(x)
				case *ssa.MakeInterface:
					visit(x)
				case *ssa.Slice:
					visit(x)
				}
			}
		}
	}
	visit(v)
	return out
}

// reachableAfter lists the instructions that may run after ins, on paths that
// do not define the value anew.
func reachableAfter(ins ssa.Instruction, defs map[ssa.Value]bool) []ssa.Instruction {
	var out []ssa.Instruction
	isDef := func(i ssa.Instruction) bool {
		v, ok := i.(ssa.Value)
		if !ok || !defs[v] {
			return false
		}
		_, isPhi := v.(*ssa.Phi)
		return !isPhi
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for i := from; i < len(b.Instrs); i++ {
			if isDef(b.Instrs[i]) {
				return
			}
			out = append(out, b.Instrs[i])
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	b := ins.Block()
	for i, x := range b.Instrs {
		if x == ins {
			walk(b, i+1)
		}
	}
	return out
}

// modSummary tells which parameters a function may write through.
type modSummary struct {
	p    *Program
	g    *CallGraph
	memo map[*ssa.Function][]bool
}

func newModSummary(p *Program, g *CallGraph) *modSummary {
	m := &modSummary{p, g, map[*ssa.Function][]bool{}}
	for _, f := range p.Funcs {
		m.memo[f] = make([]bool, len(f.Params)+len(f.FreeVars))
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					mark := func(v ssa.Value) {
						root := rootOf(v)
						for a := range aliases(root) {
							for i, prm := range f.Params {
								if a == prm && !m.memo[f][i] {
									m.memo[f][i] = true
									changed = true
								}
							}
						}
					}
					switch x := ins.(type) {
					case *ssa.Store:
						mark(x.Addr)
					case *ssa.MapUpdate:
						mark(x.Map)
					case ssa.CallInstruction:
						for i, a := range callArgs(x) {
							if refLike(a.Type()) && m.writesArg(x, i) {
								mark(a)
							}
						}
					}
				}
			}
		}
	}
	return m
}

func (m *modSummary) writesArg(c ssa.CallInstruction, i int) bool {
	com := c.Common()
	args := callArgs(c)
	if bi, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		switch bi.Name() {
		case "append":
			return i == 0 && !cappedSlice(args[0])
		case "copy", "delete", "clear":
			return i == 0
		}
		return false
	}
	mod, ext, _ := m.g.Callees(c)
	for _, f := range mod {
		if w := m.memo[f]; i < len(w) && w[i] {
			return true
		}
	}
	for _, a := range mutatedArgs(c, ext) {
		if a == args[i] && len(ext) > 0 {
			return true
		}
	}
	return false
}
