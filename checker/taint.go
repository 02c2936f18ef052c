package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Label is a set of labels carried by values.
type Label [6]uint64

func (l Label) or(m Label) Label {
	for i := range l {
		l[i] |= m[i]
	}
	return l
}
func (l Label) empty() bool { return l == Label{} }
func (l Label) has(i int) bool {
	return l[i/64]&(1<<(uint(i)%64)) != 0
}
func bit(i int) (l Label) {
	l[i/64] |= 1 << (uint(i) % 64)
	return l
}
func (l Label) minus(m Label) Label {
	for i := range l {
		l[i] &^= m[i]
	}
	return l
}
func (l Label) and(m Label) Label {
	for i := range l {
		l[i] &= m[i]
	}
	return l
}

// class is a node of the alias classes of memory: what is stored there, and
// the class of the references stored there.
type class struct {
	parent  *class
	content Label
	elem    *class
}

func (c *class) find() *class {
	for c.parent != nil {
		if c.parent.parent != nil {
			c.parent = c.parent.parent
		}
		c = c.parent
	}
	return c
}

type fieldKey struct {
	typ string
	idx int
}

// Taint propagates labels over the SSA form of the functions in scope, flow
// insensitively: labels on values (where the memory they refer to is rooted,
// or what they depend on) and on alias classes of memory (what is stored).
type Taint struct {
	P      *Program
	G      *CallGraph
	Scope  map[*ssa.Function]bool
	V      map[ssa.Value]Label
	cls    map[ssa.Value]*class
	fields map[fieldKey]*class
	rets   map[*ssa.Function][]Label
	retCls map[*ssa.Function][]*class
	tuple  map[ssa.Value][]Label
	tupCls map[tupKey]*class

	names  []string
	LoadT  func(Label) Label // labels of what is loaded through a labelled reference
	Scalar bool              // scalars carry labels too
	// Pure tells how an external call propagates; nil result means default.
	CallT func(c ssa.CallInstruction, callee *ssa.Function, args []Label) (Label, bool)
	// BinT tells how a binary operation propagates; default otherwise.
	BinT func(x *ssa.BinOp) (Label, bool)
	// Source gives labels to values at their origin.
	Source func(v ssa.Value) Label
	// FieldSource gives labels to the loads of a field.
	FieldSource func(fa fieldKey, base Label) Label

	changed bool
}

func newTaint(p *Program, g *CallGraph, scope map[*ssa.Function]bool) *Taint {
	return &Taint{
		P: p, G: g, Scope: scope,
		V: map[ssa.Value]Label{}, cls: map[ssa.Value]*class{}, fields: map[fieldKey]*class{},
		rets: map[*ssa.Function][]Label{}, retCls: map[*ssa.Function][]*class{}, tuple: map[ssa.Value][]Label{},
		LoadT: func(l Label) Label { return l },
	}
}

func (t *Taint) NewLabel(name string) int {
	t.names = append(t.names, name)
	if len(t.names) > 6*64 {
		panic("too many labels")
	}
	return len(t.names) - 1
}

func (t *Taint) Names(l Label) string {
	var out []string
	for i, n := range t.names {
		if l.has(i) {
			out = append(out, n)
		}
	}
	return strings.Join(out, ", ")
}

func refLike(ty types.Type) bool {
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refLike(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return refLike(u.Elem())
	default:
		return true
	}
}

func (t *Taint) carries(ty types.Type) bool { return t.Scalar || refLike(ty) }

func (t *Taint) class(v ssa.Value) *class {
	if c, ok := t.cls[v]; ok {
		return c.find()
	}
	var c *class
	switch v := v.(type) {
	case *ssa.FieldAddr:
		c = t.fieldClass(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		c = t.class(v.X)
	default:
		c = &class{}
	}
	t.cls[v] = c
	return c.find()
}

func fieldKeyOf(ty types.Type, idx int) fieldKey {
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = p.Elem()
	}
	return fieldKey{types.TypeString(ty, nil), idx}
}

func (t *Taint) fieldClass(ty types.Type, idx int) *class {
	k := fieldKeyOf(ty, idx)
	c := t.fields[k]
	if c == nil {
		c = &class{}
		t.fields[k] = c
	}
	return c.find()
}

func (t *Taint) elem(c *class) *class {
	c = c.find()
	if c.elem == nil {
		c.elem = &class{}
	}
	c.elem = c.elem.find()
	return c.elem
}

func (t *Taint) unify(a, b *class) {
	a, b = a.find(), b.find()
	if a == b {
		return
	}
	t.changed = true
	b.parent = a
	a.content = a.content.or(b.content)
	switch {
	case a.elem == nil:
		a.elem = b.elem
	case b.elem != nil:
		ae, be := a.elem, b.elem
		t.unify(ae, be)
	}
}

func (t *Taint) addV(v ssa.Value, l Label) {
	if l.empty() || !t.carries(v.Type()) {
		return
	}
	old := t.V[v]
	n := old.or(l)
	if n != old {
		t.V[v] = n
		t.changed = true
	}
}

func (t *Taint) addContent(c *class, l Label) {
	c = c.find()
	n := c.content.or(l)
	if n != c.content {
		c.content = n
		t.changed = true
	}
}

// Label of a value.
func (t *Taint) L(v ssa.Value) Label {
	l := t.V[v]
	if t.Source != nil {
		l = l.or(t.Source(v))
	}
	return l
}

// loaded gives the labels of what is loaded through a reference.
func (t *Taint) loaded(ref ssa.Value) Label {
	l := t.LoadT(t.L(ref)).or(t.class(ref).content)
	if t.FieldSource != nil {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			l = l.or(t.FieldSource(fieldKeyOf(fa.X.Type(), fa.Field), t.L(fa.X)))
		}
	}
	return l
}

// Run propagates to a fixpoint.
func (t *Taint) Run() {
	for i := 0; ; i++ {
		if i > 2000 {
			panic("label propagation does not converge")
		}
		t.changed = false
		for _, f := range t.P.Funcs {
			if !t.Scope[f] {
				continue
			}
			for _, prm := range f.Params {
				t.addV(prm, t.L(prm))
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					t.step(f, ins)
				}
			}
		}
		if !t.changed {
			return
		}
	}
}

func (t *Taint) flow(dst, src ssa.Value) {
	t.addV(dst, t.L(src))
	if refLike(dst.Type()) && refLike(src.Type()) {
		t.unify(t.class(dst), t.class(src))
	}
}

func (t *Taint) step(f *ssa.Function, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			t.flow(x, e)
		}
	case *ssa.ChangeType:
		t.flow(x, x.X)
	case *ssa.ChangeInterface:
		t.flow(x, x.X)
	case *ssa.MakeInterface:
		t.flow(x, x.X)
	case *ssa.Convert:
		t.flow(x, x.X)
	case *ssa.SliceToArrayPointer:
		t.flow(x, x.X)
	case *ssa.Slice:
		t.flow(x, x.X)
		if t.Scalar {
			for _, o := range []ssa.Value{x.Low, x.High, x.Max} {
				if o != nil {
					t.addV(x, t.L(o))
				}
			}
		}
	case *ssa.TypeAssert:
		if x.CommaOk {
			t.addTuple(x, 0, t.L(x.X))
			t.unify(t.class(x), t.class(x.X))
		} else {
			t.flow(x, x.X)
		}
	case *ssa.FieldAddr:
		t.addV(x, t.L(x.X))
		t.class(x)
	case *ssa.IndexAddr:
		t.addV(x, t.L(x.X))
		if t.Scalar {
			t.addV(x, t.L(x.Index))
		}
		t.unify(t.class(x), t.class(x.X))
	case *ssa.Field:
		fc := t.fieldClass(x.X.Type(), x.Field)
		t.addV(x, t.L(x.X).or(fc.content))
		if t.FieldSource != nil {
			t.addV(x, t.FieldSource(fieldKeyOf(x.X.Type(), x.Field), t.L(x.X)))
		}
		if refLike(x.Type()) {
			t.unify(t.class(x), t.elem(fc))
		}
	case *ssa.Index:
		t.addV(x, t.loaded(x.X))
		if t.Scalar {
			t.addV(x, t.L(x.Index))
		}
		if refLike(x.Type()) {
			t.unify(t.class(x), t.elem(t.class(x.X)))
		}
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			t.addV(x, t.loaded(x.X))
			if t.Scalar {
				if ia, ok := x.X.(*ssa.IndexAddr); ok {
					t.addV(x, t.L(ia.Index))
				}
			}
			if refLike(x.Type()) {
				t.unify(t.class(x), t.elem(t.class(x.X)))
			}
		case "<-":
			t.addV(x, t.loaded(x.X))
			if refLike(x.Type()) {
				t.unify(t.class(x), t.elem(t.class(x.X)))
			}
		default:
			t.addV(x, t.L(x.X))
		}
	case *ssa.BinOp:
		if t.BinT != nil {
			if l, ok := t.BinT(x); ok {
				t.addV(x, l)
				return
			}
		}
		if t.Scalar || refLike(x.Type()) {
			t.addV(x, t.L(x.X).or(t.L(x.Y)))
		}
	case *ssa.Store:
		t.store(x.Addr, x.Val)
	case *ssa.Send:
		t.store(x.Chan, x.X)
	case *ssa.MapUpdate:
		t.store(x.Map, x.Value)
		t.addContent(t.class(x.Map), t.keyLabel(x.Key))
	case *ssa.Lookup:
		l := t.loaded(x.X)
		if t.Scalar {
			l = l.or(t.L(x.Index))
		}
		if x.CommaOk {
			t.addTuple(x, 0, l)
			if t.Scalar {
				t.addTuple(x, 1, t.L(x.X).or(t.L(x.Index)))
			}
			t.unify(t.class(x), t.elem(t.class(x.X)))
		} else {
			t.addV(x, l)
			if refLike(x.Type()) {
				t.unify(t.class(x), t.elem(t.class(x.X)))
			}
		}
	case *ssa.Range:
		t.flow(x, x.X)
	case *ssa.Next:
		l := t.loaded(x.Iter)
		t.addTuple(x, 1, l)
		t.addTuple(x, 2, l)
		t.unify(t.class(x), t.elem(t.class(x.Iter)))
	case *ssa.Extract:
		if tl := t.tuple[x.Tuple]; x.Index < len(tl) {
			t.addV(x, tl[x.Index])
		}
		if refLike(x.Type()) {
			if c := t.tupleClass(x.Tuple, x.Index); c != nil {
				t.unify(t.class(x), c)
			}
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			t.flow(fn.FreeVars[i], b)
			t.addV(x, t.L(b))
		}
	case *ssa.Return:
		t.growRets(f, len(x.Results))
		for i, r := range x.Results {
			old := t.rets[f][i]
			n := old.or(t.L(r))
			if n != old {
				t.rets[f][i] = n
				t.changed = true
			}
			if refLike(r.Type()) {
				t.unify(t.retCls[f][i], t.class(r))
			}
		}
	case ssa.CallInstruction:
		t.call(f, x)
	case *ssa.Select:
		// no channel in scope: see the checks that refuse them
	}
}

func (t *Taint) keyLabel(v ssa.Value) Label {
	if t.carries(v.Type()) {
		return t.L(v)
	}
	return Label{}
}

func (t *Taint) growRets(f *ssa.Function, n int) {
	for len(t.rets[f]) < n {
		t.rets[f] = append(t.rets[f], Label{})
		t.retCls[f] = append(t.retCls[f], &class{})
	}
}

func (t *Taint) addTuple(v ssa.Value, i int, l Label) {
	for len(t.tuple[v]) <= i {
		t.tuple[v] = append(t.tuple[v], Label{})
	}
	n := t.tuple[v][i].or(l)
	if n != t.tuple[v][i] {
		t.tuple[v][i] = n
		t.changed = true
	}
}

type tupKey struct {
	v ssa.Value
	i int
}

func (t *Taint) tupleClass(v ssa.Value, i int) *class {
	switch v := v.(type) {
	case *ssa.TypeAssert, *ssa.Lookup:
		if i == 0 {
			return t.class(v)
		}
		return nil
	case *ssa.Next:
		return t.class(v)
	case *ssa.Call:
		return t.callCls(v, i)
	}
	return nil
}

func (t *Taint) callCls(v ssa.Value, i int) *class {
	if v.Type() == nil {
		return &class{}
	}
	if tup, ok := v.Type().(*types.Tuple); !ok || tup.Len() <= 1 && !ok {
		return t.class(v)
	}
	if t.tupCls == nil {
		t.tupCls = map[tupKey]*class{}
	}
	k := tupKey{v, i}
	c := t.tupCls[k]
	if c == nil {
		c = &class{}
		t.tupCls[k] = c
	}
	return c.find()
}

func (t *Taint) store(addr, val ssa.Value) {
	if !t.carries(val.Type()) {
		return
	}
	t.addContent(t.class(addr), t.L(val))
	if refLike(val.Type()) {
		t.unify(t.elem(t.class(addr)), t.class(val))
	}
}

func (t *Taint) call(f *ssa.Function, c ssa.CallInstruction) {
	com := c.Common()
	res, _ := c.(ssa.Value)
	setRes := func(i int, l Label) {
		if res == nil {
			return
		}
		if tup, ok := res.Type().(*types.Tuple); ok {
			if i < tup.Len() {
				if t.carries(tup.At(i).Type()) {
					t.addTuple(res, i, l)
				}
			}
			return
		}
		t.addV(res, l)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok && !com.IsInvoke() {
		args := com.Args
		switch b.Name() {
		case "append":
			t.flow(res, args[0])
			if len(args) > 1 {
				t.addContent(t.class(args[0]), t.elemLabel(args[1]))
				if refLike(args[1].Type()) {
					t.unify(t.elem(t.class(args[0])), t.elem(t.class(args[1])))
				}
			}
		case "copy":
			t.addContent(t.class(args[0]), t.elemLabel(args[1]))
			t.unify(t.elem(t.class(args[0])), t.elem(t.class(args[1])))
		case "len", "cap":
			// lengths carry no label
		default:
			for _, a := range args {
				if res != nil && t.Scalar {
					t.addV(res, t.L(a))
				}
			}
		}
		return
	}
	mod, ext, opaque := t.G.Callees(c)
	var args []ssa.Value
	if com.IsInvoke() {
		args = append(args, com.Value)
	}
	args = append(args, com.Args...)
	for _, callee := range mod {
		if !t.Scope[callee] {
			continue
		}
		for i, prm := range callee.Params {
			if i < len(args) {
				t.flow(prm, args[i])
			}
		}
		n := callee.Signature.Results().Len()
		t.growRets(callee, n)
		for i := 0; i < n; i++ {
			setRes(i, t.rets[callee][i])
			if res != nil && refLike(callee.Signature.Results().At(i).Type()) {
				t.unify(t.callCls(res, i), t.retCls[callee][i])
			}
		}
	}
	if len(ext) > 0 || (opaque && len(mod) == 0) || com.IsInvoke() {
		// external: what it returns may depend on, or refer to, its arguments
		var callee *ssa.Function
		if len(ext) == 1 {
			callee = ext[0]
		}
		ls := make([]Label, len(args))
		var all Label
		for i, a := range args {
			ls[i] = t.L(a)
			all = all.or(ls[i])
			if refLike(a.Type()) {
				all = all.or(t.LoadT(ls[i])).or(t.class(a).content)
			}
		}
		if !com.IsInvoke() && com.StaticCallee() == nil {
			fv := t.L(com.Value)
			all = all.or(fv).or(t.LoadT(fv))
		}
		l := all
		if t.CallT != nil {
			if m, ok := t.CallT(c, callee, ls); ok {
				l = m
			}
		}
		if res != nil {
			n := 1
			if tup, ok := res.Type().(*types.Tuple); ok {
				n = tup.Len()
			}
			for i := 0; i < n; i++ {
				setRes(i, l)
			}
		}
		// what is given along with a receiver or a reference may be stored there
		if len(args) > 1 && refLike(args[0].Type()) {
			for _, a := range args[1:] {
				if refLike(a.Type()) {
					if _, isFn := a.Type().Underlying().(*types.Signature); isFn {
						continue
					}
					t.addContent(t.class(args[0]), t.L(a))
				}
			}
		}
		// functions given to external code are called back
		for _, a := range args {
			if _, isFn := a.Type().Underlying().(*types.Signature); !isFn {
				continue
			}
			for _, fn := range funcValues(a) {
				if t.Scope[fn] {
					for i, prm := range fn.Params {
						_ = i
						t.addV(prm, all)
					}
				}
			}
		}
	}
}

// elemLabel gives the labels of the elements of a slice or string.
func (t *Taint) elemLabel(v ssa.Value) Label {
	et := v.Type()
	switch u := et.Underlying().(type) {
	case *types.Slice:
		if !t.carries(u.Elem()) {
			return Label{}
		}
	}
	return t.loaded(v)
}

// funcValues resolves a function value to the functions it may be, when they
// are visible in the same function.
func funcValues(v ssa.Value) []*ssa.Function {
	var out []*ssa.Function
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Function:
			out = append(out, v)
		case *ssa.MakeClosure:
			out = append(out, v.Fn.(*ssa.Function))
		case *ssa.ChangeType:
			visit(v.X)
		case *ssa.Phi:
			for _, e := range v.Edges {
				visit(e)
			}
		}
	}
	visit(v)
	return out
}

// Write is an instruction that writes to memory.
type Write struct {
	Fn     *ssa.Function
	Ins    ssa.Instruction
	What   string
	Target ssa.Value // the reference written through
	Labels Label
}

// Access is an instruction that reads memory.
type Access = Write

// Writes enumerates the instructions of the scope that write through a labelled reference.
func (t *Taint) Writes() []Write {
	var out []Write
	add := func(f *ssa.Function, ins ssa.Instruction, what string, target ssa.Value) {
		l := t.L(target)
		if !l.empty() {
			out = append(out, Write{f, ins, what, target, l})
		}
	}
	for _, f := range t.P.Funcs {
		if !t.Scope[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					add(f, ins, "store", x.Addr)
				case *ssa.MapUpdate:
					add(f, ins, "map update", x.Map)
				case ssa.CallInstruction:
					com := x.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if !cappedSlice(com.Args[0]) && !emptyAppend(x) {
								add(f, ins, "append", com.Args[0])
							}
						case "copy":
							add(f, ins, "copy", com.Args[0])
						case "delete", "clear":
							add(f, ins, bi.Name(), com.Args[0])
						}
						continue
					}
					mod, ext, opaque := t.G.Callees(x)
					if len(ext) == 0 && !(opaque && len(mod) == 0) && !com.IsInvoke() {
						continue
					}
					for _, a := range mutatedArgs(x, ext) {
						add(f, ins, "call of "+calleeName(x), a)
					}
				}
			}
		}
	}
	return out
}

func calleeName(c ssa.CallInstruction) string {
	com := c.Common()
	if com.IsInvoke() {
		return fmt.Sprintf("(%s).%s", types.TypeString(com.Value.Type(), func(p *types.Package) string { return p.Name() }), com.Method.Name())
	}
	if f := com.StaticCallee(); f != nil {
		return f.String()
	}
	return com.Value.Name()
}

func emptyAppend(c ssa.CallInstruction) bool { return len(c.Common().Args) < 2 }

// capGraph resolves the callers of unexported functions for cappedSlice.
var capGraph *CallGraph

// cappedSlice recognizes x[i:n:n]: appending to it always reallocates when
// anything is appended. What was appended to such a slice is either that
// slice still or freshly allocated, hence it may be appended to as well.
func cappedSlice(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.ChangeType:
			return visit(x.X)
		case *ssa.MakeSlice:
			return true // fresh memory
		case *ssa.Slice:
			if x.Max == nil {
				return false
			}
			if x.High == nil {
				return lenOf(x.Max, x.X)
			}
			return sameValue(x.High, x.Max, 0)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !visit(e) {
					return false
				}
			}
			return len(x.Edges) > 0
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
				return bi.Name() == "append" && visit(x.Call.Args[0])
			}
			if f := x.Call.StaticCallee(); f != nil {
				if pkg, name := extPkg(x, f); pkg == "slices" && (name == "Clip" || name == "Clone" || name == "Concat") {
					return true
				}
			}
			return false
		case *ssa.Parameter:
			// an unexported function given capped slices by all its callers
			f := x.Parent()
			if exportedAPI(f) || f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() || capGraph == nil || capGraph.isTaken[f] {
				return false
			}
			sites := capGraph.sites(f)
			idx := -1
			for i, p := range f.Params {
				if p == x {
					idx = i
				}
			}
			for _, c := range sites {
				if c.Common().IsInvoke() || idx >= len(c.Common().Args) || !visit(c.Common().Args[idx]) {
					return false
				}
			}
			return len(sites) > 0
		}
		return false
	}
	return visit(v)
}

func lenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && sameValue(c.Call.Args[0], of, 0)
}

// sameValue recognizes structurally equal pure expressions evaluated in one
// block without a store or call in between (loads included).
func sameValue(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 6 {
		return false
	}
	ia, oka := a.(ssa.Instruction)
	ib, okb := b.(ssa.Instruction)
	if oka != okb {
		return false
	}
	if !oka {
		ca, ok1 := a.(*ssa.Const)
		cb, ok2 := b.(*ssa.Const)
		return ok1 && ok2 && ca.Value != nil && cb.Value != nil && ca.Value.ExactString() == cb.Value.ExactString()
	}
	switch x := a.(type) {
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok {
			return false
		}
		bx, ok1 := x.Call.Value.(*ssa.Builtin)
		by, ok2 := y.Call.Value.(*ssa.Builtin)
		if !ok1 || !ok2 || bx.Name() != by.Name() || (bx.Name() != "len" && bx.Name() != "cap") {
			return false
		}
		return sameValue(x.Call.Args[0], y.Call.Args[0], depth+1)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X, depth+1) && sameValue(x.Y, y.Y, depth+1)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		if !ok || x.Op != y.Op || !sameValue(x.X, y.X, depth+1) {
			return false
		}
		if x.Op.String() == "*" {
			return noEffectBetween(ia, ib)
		}
		return true
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameValue(x.X, y.X, depth+1) && sameValue(x.Index, y.Index, depth+1)
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameValue(x.X, y.X, depth+1)
	case *ssa.Field:
		y, ok := b.(*ssa.Field)
		return ok && x.Field == y.Field && sameValue(x.X, y.X, depth+1)
	}
	return false
}

func noEffectBetween(a, b ssa.Instruction) bool {
	if a.Block() != b.Block() {
		return false
	}
	in := false
	for _, ins := range a.Block().Instrs {
		if ins == a || ins == b {
			if in {
				return true
			}
			in = true
			continue
		}
		if !in {
			continue
		}
		switch x := ins.(type) {
		case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
			return false
		case ssa.CallInstruction:
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			return false
		}
	}
	return false
}
