package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "proof",
		"definite-reset (typestate) dataflow over SSA: each field of the line breaker that a call may modify, directly or through what it refers to, must be overwritten on every path of the call before it is first read; no package state is retained",
		checkC20)
}

// breakerAnalysis is an interprocedural must analysis: fields of the receiver
// that were overwritten since the entry of the API method.
type breakerAnalysis struct {
	p      *Program
	g      *CallGraph
	r      *Report
	typ    *types.Named
	mut    map[string]bool // field paths that the cone may modify
	memo   map[string]map[string]bool
	stack  map[*ssa.Function]bool
	accept func(f *ssa.Function) bool
}

// fieldPath gives the path of a field address from the receiver: "nodes", "options.measurer".
func (a *breakerAnalysis) fieldPath(v ssa.Value) (string, bool) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		base, ok := a.fieldPath(x.X)
		if !ok {
			return "", false
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		n := st.Field(x.Field).Name()
		if base == "" {
			return n, true
		}
		return base + "." + n, true
	default:
		if a.isRecv(v) {
			return "", true
		}
	}
	return "", false
}

// isRecv tells if a value is the line breaker itself.
func (a *breakerAnalysis) isRecv(v ssa.Value) bool {
	pt, ok := v.Type().(*types.Pointer)
	if !ok || !types.Identical(pt.Elem(), a.typ) {
		return false
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Phi:
		return true
	case *ssa.UnOp:
		_ = x
		return true // a local variable or captured variable holding it
	case *ssa.Alloc, *ssa.Call:
		return false
	}
	return true
}

func checkC20(p *Program, r *Report) {
	g := newCallGraph(p)
	sp := p.SSAPkgs["linebreak"]
	if sp == nil || sp.Type("LineBreaker") == nil {
		r.Fail("anchor", "linebreak.LineBreaker", "-", "type not found")
		return
	}
	named := sp.Type("LineBreaker").Type().(*types.Named)
	var entries []*ssa.Function
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(named))
	for i := 0; i < ms.Len(); i++ {
		f := p.SSA.MethodValue(ms.At(i))
		if f != nil && f.Object() != nil && f.Object().Exported() && f.Blocks != nil {
			entries = append(entries, f)
		}
	}
	for _, f := range entries {
		r.Count("entry methods", shortFn(f))
	}
	r.AtLeast("entry methods", 1)
	r.Rule("each field of LineBreaker modified by an exported method (directly, or in the memory it refers to) is overwritten before it is read, on every path from the entry of the method")
	r.Rule("no package variable is modified by a method with a value that depends on the call")
	r.Assume("functions given as options (measurer, hyphenator, punctuator) keep no state")
	cone := g.Reachable(entries...)
	a := &breakerAnalysis{p: p, g: g, r: r, typ: named, mut: map[string]bool{}, memo: map[string]map[string]bool{}, stack: map[*ssa.Function]bool{}}

	// what may be modified: direct stores
	for f := range cone {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if path, ok := a.fieldPath(s.Addr); ok {
						if path == "" {
							st := named.Underlying().(*types.Struct)
							for i := 0; i < st.NumFields(); i++ {
								a.mut[st.Field(i).Name()] = true
							}
							continue
						}
						a.mut[path] = true
					}
				}
			}
		}
	}
	// and through references held by fields: labels by field
	scope := map[*ssa.Function]bool{}
	for f := range cone {
		scope[f] = true
	}
	t := newTaint(p, g, scope)
	labels := map[string]int{}
	st := named.Underlying().(*types.Struct)
	var addFields func(prefix string, s *types.Struct, depth int)
	addFields = func(prefix string, s *types.Struct, depth int) {
		for i := 0; i < s.NumFields(); i++ {
			n := prefix + s.Field(i).Name()
			labels[n] = t.NewLabel(n)
			if fs, ok := s.Field(i).Type().Underlying().(*types.Struct); ok && depth < 4 {
				addFields(n+".", fs, depth+1)
			}
			if pt, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && depth < 2 {
				if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() == named.Obj().Pkg() && s.Field(i).Embedded() {
					_ = nt
				}
			}
		}
	}
	addFields("", st, 0)
	t.Source = func(v ssa.Value) Label {
		if u, ok := v.(*ssa.UnOp); ok && u.Op.String() == "*" {
			if path, ok := a.fieldPath(u.X); ok && path != "" {
				if l, ok := labels[path]; ok {
					return bit(l)
				}
			}
		}
		return Label{}
	}
	// what is reached from a user function or the arguments is not ours
	t.CallT = func(c ssa.CallInstruction, callee *ssa.Function, args []Label) (Label, bool) {
		pkg, _ := extPkg(c, callee)
		if pkg == "container/list" {
			return Label{}, false
		}
		return Label{}, true
	}
	t.Run()
	for _, w := range t.Writes() {
		for n, l := range labels {
			if !w.Labels.has(l) {
				continue
			}
			// stores to a field cell itself are direct stores
			if path, ok := a.fieldPath(w.Target); ok && path != "" {
				continue
			}
			a.mut[n] = true
			r.Count("writes through fields", fmt.Sprintf("%s: %s through %s", shortFn(w.Fn), w.What, n))
		}
	}
	var muts []string
	for m := range a.mut {
		muts = append(muts, m)
	}
	sort.Strings(muts)
	for _, m := range muts {
		r.Count("modified fields", m)
	}
	for _, f := range entries {
		if !a.entryMutates(f, cone) {
			continue
		}
		a.flow(f, map[string]bool{}, true)
	}
	for f := range cone {
		_ = f
		r.Count("functions in the cone", shortFn(f))
	}
	checkRetainedState(p, g, r, cone, false)
}

func (a *breakerAnalysis) entryMutates(f *ssa.Function, cone map[*ssa.Function]bool) bool {
	return true
}

func covered(fresh map[string]bool, path string) bool {
	if fresh["*"] {
		return true
	}
	for p := path; ; {
		if fresh[p] {
			return true
		}
		i := strings.LastIndex(p, ".")
		if i < 0 {
			return false
		}
		p = p[:i]
	}
}

// modifiable tells if a path, or a part of it, may be modified by a call.
func (a *breakerAnalysis) modifiable(path string) []string {
	var out []string
	for m := range a.mut {
		if m == path || strings.HasPrefix(m, path+".") || strings.HasPrefix(path, m+".") {
			out = append(out, m)
		}
	}
	sort.Strings(out)
	return out
}

func stateKey(f *ssa.Function, fresh map[string]bool) string {
	var ks []string
	for k := range fresh {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return f.String() + "|" + strings.Join(ks, ",")
}

// flow analyses a function from a set of fresh fields; it gives those fresh on return.
func (a *breakerAnalysis) flow(f *ssa.Function, entry map[string]bool, report bool) map[string]bool {
	key := stateKey(f, entry)
	if out, ok := a.memo[key]; ok {
		return out
	}
	if a.stack[f] {
		return entry // recursion: a recursive call only keeps what was fresh
	}
	a.stack[f] = true
	defer delete(a.stack, f)
	in := map[*ssa.BasicBlock]map[string]bool{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	var exit map[string]bool
	meetS := func(x, y map[string]bool) map[string]bool {
		n := map[string]bool{}
		for k := range x {
			if covered(y, k) {
				n[k] = true
			}
		}
		for k := range y {
			if covered(x, k) {
				n[k] = true
			}
		}
		return n
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := map[string]bool{}
		for k := range in[b] {
			s[k] = true
		}
		for _, ins := range b.Instrs {
			a.transfer(ins, s, false)
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil {
				exit = s
			} else {
				exit = meetS(exit, s)
			}
		}
		for _, succ := range b.Succs {
			old, ok := in[succ]
			if !ok {
				in[succ] = s
				work = append(work, succ)
				continue
			}
			n := meetS(old, s)
			if len(n) != len(old) {
				in[succ] = n
				work = append(work, succ)
			} else {
				for k := range n {
					if !old[k] {
						in[succ] = n
						work = append(work, succ)
						break
					}
				}
			}
		}
	}
	if exit == nil {
		exit = map[string]bool{"*": true} // never returns
	}
	a.memo[key] = exit
	// report on the stable states
	for _, b := range f.Blocks {
		s0, ok := in[b]
		if !ok {
			continue
		}
		s := map[string]bool{}
		for k := range s0 {
			s[k] = true
		}
		for _, ins := range b.Instrs {
			a.transfer(ins, s, true)
		}
	}
	return exit
}

func (a *breakerAnalysis) transfer(ins ssa.Instruction, s map[string]bool, report bool) {
	read := func(path string, what string) {
		if !report {
			return
		}
		for _, m := range a.modifiable(path) {
			if strings.HasPrefix(m, path+".") && !covered(s, m) || !strings.HasPrefix(m, path+".") && !covered(s, path) {
				a.r.Oblige(false, "fields are reset before use", fmt.Sprintf("LineBreaker.%s in %s", path, shortFn(ins.Parent())), a.p.PosOf(ins),
					what+" a field that an earlier call may have modified, and that this call did not reset on every path to here")
				return
			}
		}
		a.r.Oblige(true, "", "", "", "")
		a.r.Count("reads of fields", fmt.Sprintf("%s in %s", path, shortFn(ins.Parent())))
	}
	switch x := ins.(type) {
	case *ssa.Store:
		if path, ok := a.fieldPath(x.Addr); ok {
			if path == "" {
				s["*"] = true
			} else {
				s[path] = true
			}
			return
		}
		// *l.field = value: the whole object the field refers to is replaced
		if u, ok := x.Addr.(*ssa.UnOp); ok && u.Op.String() == "*" {
			if path, ok := a.fieldPath(u.X); ok && path != "" {
				s[path] = true
			}
		}
	case *ssa.UnOp:
		if x.Op.String() != "*" {
			return
		}
		path, ok := a.fieldPath(x.X)
		if !ok {
			return
		}
		if path == "" {
			// copy of the whole line breaker
			st := a.typ.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				read(st.Field(i).Name(), "copies")
			}
			return
		}
		if a.onlyResets(x) {
			return
		}
		read(path, "reads")
	case *ssa.Defer:
		// runs at exit: what it reads is checked as of now, what it resets is not counted
		for _, arg := range callArgs(x) {
			if a.isRecv(arg) {
				mod, _, _ := a.g.Callees(x)
				for _, m := range mod {
					a.flow(m, s, report)
				}
			}
		}
	case *ssa.Call:
		// resets through methods of what the field refers to
		if reset := a.resetCall(x); reset != "" {
			s[reset] = true
			return
		}
		mod, _, _ := a.g.Callees(x)
		var outs []map[string]bool
		for _, m := range mod {
			if !a.touches(m) {
				continue
			}
			in := map[string]bool{}
			for k := range s {
				in[k] = true
			}
			outs = append(outs, a.flow(m, in, report))
		}
		if len(outs) == len(mod) && len(mod) > 0 && !x.Call.IsInvoke() {
			// what all callees reset
			for k := range outs[0] {
				all := true
				for _, o := range outs[1:] {
					if !covered(o, k) {
						all = false
					}
				}
				if all {
					s[k] = true
				}
			}
		}
	case *ssa.MakeClosure:
		// a closure over the line breaker may run from here on
		fn := x.Fn.(*ssa.Function)
		if a.touches(fn) && report && !onlyCalledInPlace(x) {
			a.flow(fn, s, report)
		}
	}
}

// touches: the function refers to the line breaker.
func (a *breakerAnalysis) touches(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if a.isRecv(prm) {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		t := fv.Type()
		for i := 0; i < 2; i++ {
			pt, ok := t.(*types.Pointer)
			if !ok {
				break
			}
			if types.Identical(pt.Elem(), a.typ) {
				return true
			}
			t = pt.Elem()
		}
	}
	return false
}

// onlyResets: the loaded reference is only used to empty or to replace what it
// refers to: x[:0], comparison to nil, *x = ..., x.Init(), clear(x).
func (a *breakerAnalysis) onlyResets(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, ref := range *refs {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Slice:
			if x.X != v || x.High == nil || !isZeroConst(x.High) {
				return false
			}
		case *ssa.BinOp:
			if !isNilConst(x.X) && !isNilConst(x.Y) {
				return false
			}
		case *ssa.Store:
			if x.Addr != v {
				return false
			}
		case *ssa.Call:
			if a.resetCall(x) == "" {
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "cap" {
					continue
				}
				return false
			}
		default:
			return false
		}
	}
	return true
}

// resetCall gives the field that a call empties.
func (a *breakerAnalysis) resetCall(x *ssa.Call) string {
	args := callArgs(x)
	if len(args) == 0 {
		return ""
	}
	u, ok := args[0].(*ssa.UnOp)
	if !ok || u.Op.String() != "*" {
		return ""
	}
	path, ok := a.fieldPath(u.X)
	if !ok || path == "" {
		return ""
	}
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() == "clear" {
			if _, isMap := args[0].Type().Underlying().(*types.Map); isMap {
				return path
			}
		}
		return ""
	}
	f := x.Call.StaticCallee()
	if f == nil {
		return ""
	}
	if pkg, name := extPkg(x, f); pkg == "container/list" && name == "Init" {
		return path
	}
	if a.p.InModule(f) && resetsParam(f) {
		return path
	}
	return ""
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "0"
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// resetsParam: a method that overwrites all of what its receiver points to
// before anything else.
func resetsParam(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Params) == 0 {
		return false
	}
	prm := f.Params[0]
	pt, ok := prm.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, _ := pt.Elem().Underlying().(*types.Struct)
	set := map[int]bool{}
	for _, ins := range f.Blocks[0].Instrs {
		switch x := ins.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.FieldAddr, *ssa.Alloc, *ssa.Jump:
		case *ssa.Store:
			if x.Addr == prm {
				return true
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok && fa.X == prm {
				if _, isConst := x.Val.(*ssa.Const); isConst {
					set[fa.Field] = true
				}
			}
		case *ssa.UnOp:
			if x.X == prm {
				return false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.X == prm {
				return false
			}
		default:
			return false
		}
		if st != nil && len(set) == st.NumFields() {
			return true
		}
	}
	return false
}
