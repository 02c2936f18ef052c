package main

// Transfer functions of the abstract interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type derivedPred func(x *Exec, s *State, a Lin) int

// Exec is one abstract interpretation.
type Exec struct {
	p         *Program
	base      map[int]*Obj // objects after initialisation
	globals   map[*ssa.Global]int
	infos     map[*ssa.Function]*fnInfo
	nobj      int
	nsym      Sym
	nuniq     int
	symName   map[Sym]string
	nkLen     map[string][2]Lin // atom of a nil slice -> its length and capacity
	onFact    map[string]func(x *Exec, s *State, atom string, args []Lin, val bool) bool
	derived   map[string]derivedPred
	trackP    []string               // predicates tracked as facts on ranges of elements
	limits    map[int]Lin            // the facts on the ranges of these arrays are about the elements before the limit only
	noExists  bool                   // of these, only those on all elements of a range
	noEnd     func(path string) bool // values that are no end of such a range
	models    map[string]model
	invoke    func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool)
	override  func(x *Exec, s *State, f *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool)
	callFn    func(x *Exec, s *State, fn VFunc, args []Val, site ssa.CallInstruction) ([]ret, bool)
	frozen    func(t types.Type) bool // elements of arrays of that type are never set, but by append
	onAppend  func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction)
	partSegs  func(x *Exec, s *State, v Val) ([]Seg, bool)
	onClobber func(x *Exec, s *State, obj int, ins ssa.Instruction)
	partOf    func(x *Exec, s *State, t types.Type, src int, lo, hi Lin) (Val, bool)
	assertOK  func(x *Exec, s *State, v VTerm, t types.Type) bool
	onLoad    func(x *Exec, s *State, ptr VPtr, t types.Type, ins ssa.Instruction) (Val, bool)
	onIndex   func(x *Exec, s *State, v VSlice, at Lin)
	saturate  func(x *Exec, s *State)              // records, as labels, what is known before states are joined
	coarse    bool                                 // utf8.RuneLen is some length
	peel      func(l *loopInfo, info *fnInfo) bool // the first iteration is executed apart
	implied   bool                                 // relations that followed from lost bounds are tried anew
	loopSym   Sym                                  // symbols up to this one are older than the loop being joined
	minCoarse int                                  // shapes are at least as coarse
	curIns    ssa.Instruction                      // the last instruction interpreted
	alias     bool                                 // cells that go together are generalised together
	looseLen  bool                                 // how many parts a list has does not matter
	anyNums   bool                                 // the elements of slices of numbers are not followed
	inSum     int                                  // number of summaries under way
	modular   func(f *ssa.Function) bool           // functions analysed once, through a summary
	sums      map[string]*summary
	onStore   func(x *Exec, s *State, ptr VPtr, v Val, ins ssa.Instruction)

	havocNum   bool // loops that only compute numbers from numbers may do anything
	numLoops   map[*loopInfo]bool
	wentCoarse int
	maxShapes  int
	seeds      map[*ssa.BasicBlock]map[string]*head
	round      int  // of the loop being joined
	constMode  bool // loops are unrolled as long as they are decided
	unroll     int
	joinAt     int
	panics     bool // report what may panic
	terminates bool // report loops without a ranking function
	log        []Finding
	nobl       int
	steps      int
	maxSteps   int
	callNames  []string
	debug      bool
	loopsSeen  map[string]string
	fnsSeen    map[string]bool
	inInit     bool
	depthMax   int
	roots      []int // objects the caller keeps
	oblSeen    map[string]int
	initMon    map[string]Val
}

type model func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret

type ret struct {
	s *State
	v Val
}

type giveUp struct{ msg string }

func newExec(p *Program) *Exec {
	x := &Exec{
		p: p, base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, infos: map[*ssa.Function]*fnInfo{},
		symName: map[Sym]string{}, nkLen: map[string][2]Lin{}, onFact: map[string]func(*Exec, *State, string, []Lin, bool) bool{},
		derived: map[string]derivedPred{}, models: map[string]model{}, unroll: 6, joinAt: 10, maxShapes: 10, numLoops: map[*loopInfo]bool{}, seeds: map[*ssa.BasicBlock]map[string]*head{}, maxSteps: 60_000_000,
		sums: map[string]*summary{}, loopsSeen: map[string]string{}, fnsSeen: map[string]bool{}, depthMax: 14, oblSeen: map[string]int{},
	}
	x.onFact["nil"] = func(x *Exec, s *State, atom string, _ []Lin, val bool) bool {
		if !val {
			return true
		}
		l, ok := x.nkLen[atom]
		if !ok {
			return true
		}
		w := s.wsys()
		return w.addEQ(l[1]) && w.addEQ(l[0]) && w.feasible()
	}
	x.debug = os.Getenv("AI_DEBUG") != ""
	stdModels(x)
	return x
}

func (x *Exec) fail(rule string, ins ssa.Instruction, detail string) {
	c := "-"
	w := "-"
	if ins != nil {
		c = shortFn(ins.Parent())
		w = x.p.PosOf(ins)
	}
	if len(x.callNames) > 1 {
		detail += " [via " + strings.Join(x.callNames, " > ") + "]"
	}
	x.log = append(x.log, Finding{rule, c, w, detail})
}

func (x *Exec) undecided(ins ssa.Instruction, detail string) {
	x.fail("undecided", ins, detail)
}

// oblige requires c; otherwise the construct may panic. The state then goes
// on assuming c; false when c cannot hold.
func (x *Exec) oblige(s *State, c *Cond, rule string, ins ssa.Instruction, detail string) bool {
	if x.panics {
		x.nobl++
		x.oblSeen[rule+" "+x.p.PosOf(ins)]++
		if d := x.decide(s, c); d <= 0 {
			x.fail(rule, ins, detail)
			if x.debug {
				fmt.Printf("FAIL %s %s %s\n  cond %v %s\n  sys %s\n", rule, x.p.PosOf(ins), detail, c.k, s.sys.norm(c.l).key(), s.sys)
			}
		} else {
			return true
		}
	}
	return x.assume(s, c)
}

// split yields the states where c holds and where it does not (nil when infeasible).
func (x *Exec) split(s *State, c *Cond) (*State, *State) {
	switch x.decide(s, c) {
	case 1:
		return s, nil
	case -1:
		return nil, s
	}
	t := s.clone()
	if !x.assume(t, c) {
		t = nil
	}
	if !x.assume(s, c.not()) {
		s = nil
	}
	return t, s
}

func (x *Exec) val(s *State, v ssa.Value) Val {
	if i, ok := s.fr.info.idx[v]; ok {
		r := s.fr.vals[i]
		if r == nil {
			panic(giveUp{"value " + v.Name() + " of " + shortFn(s.fr.fn) + " has no abstract value"})
		}
		return r
	}
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return VPtr{obj: x.globalObj(v)}
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Builtin:
		return VFunc{id: "builtin " + v.Name()}
	}
	panic(giveUp{fmt.Sprintf("value %s (%T)", v.Name(), v)})
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch {
	case isIntT(t):
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return VInt{K(i)}
		}
		return VTerm{key: c.Value.ExactString(), typ: t}
	case isBoolT(t):
		return VBool{condOf(constant.BoolVal(c.Value))}
	case isStringT(t):
		return constStr(constant.StringVal(c.Value))
	}
	return VTerm{key: "const " + c.Value.ExactString(), typ: t, nn: 1}
}

func (x *Exec) globalObj(g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	x.nobj++
	id := x.nobj
	x.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	o := &Obj{typ: t, name: g.String()}
	if g.Pkg != nil && x.p.inMod[g.Pkg] {
		o.val = x.zero(t)
	} else {
		switch t.Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Signature, *types.Map, *types.Struct:
			o.val = VTerm{key: "global " + g.String(), nn: 1, typ: t}
		default:
			o.val = VLazy{}
		}
	}
	x.base[id] = o
	return id
}

func (x *Exec) set(s *State, v ssa.Value, r Val) {
	s.fr.vals[s.fr.info.idx[v]] = r
}

// call executes f and returns the states at its returns.
func (x *Exec) call(s *State, f *ssa.Function, args, bind []Val, site ssa.Instruction) []ret {
	depth := 0
	if s.fr != nil {
		depth = s.fr.depth + 1
	}
	for fr := s.fr; fr != nil; fr = fr.parent {
		if fr.fn == f {
			x.undecided(site, "recursive call of "+shortFn(f))
			return []ret{{s, x.fresh(s, resultType(f.Signature), "rec")}}
		}
	}
	if depth > x.depthMax {
		panic(giveUp{"calls nested too deep at " + shortFn(f)})
	}
	info := x.info(f)
	if info.irreducible {
		panic(giveUp{"irreducible control flow in " + shortFn(f)})
	}
	x.fnsSeen[shortFn(f)] = true
	x.callNames = append(x.callNames, f.Name())
	defer func(n int) { x.callNames = x.callNames[:n] }(len(x.callNames) - 1)
	fr := &Frame{fn: f, info: info, vals: make([]Val, len(info.idx)), parent: s.fr, site: site, depth: depth}
	for i, p := range f.Params {
		fr.vals[info.idx[p]] = args[i]
	}
	for i, p := range f.FreeVars {
		fr.vals[info.idx[p]] = bind[i]
	}
	caller := s.fr
	if c, ok := site.(*ssa.Call); ok && caller != nil && c.Parent() == caller.fn && !x.constMode {
		// values the caller does not use any more are forgotten
		after := caller.info.liveAfter(c)
		n := *caller
		n.vals = make([]Val, len(caller.vals))
		for v, k := range caller.info.idx {
			if after[v] {
				n.vals[k] = caller.vals[k]
			}
		}
		caller, fr.parent = &n, &n
	}
	s.fr = fr
	s.pred = nil
	it := s.it
	outs := x.region(nil, f.Blocks[0], []*State{s}, info)
	var rs []*State
	for _, o := range outs {
		if o.to == nil {
			rs = append(rs, o.s)
		}
	}
	if len(rs) > x.joinAt && !x.constMode {
		rs = x.joinReturns(rs)
	}
	var res []ret
	for _, r := range rs {
		v := r.ret
		r.ret = nil
		r.it = it
		if caller != nil {
			c := *caller
			c.vals = append([]Val(nil), caller.vals...)
			r.fr = &c
		} else {
			r.fr = nil
		}
		res = append(res, ret{r, v})
	}
	return res
}

func resultType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

type edgeOut struct {
	to *ssa.BasicBlock // nil: return
	s  *State
}

// region executes the blocks of loop l (the whole function when nil) from its
// head; edges back to the head or out of the region are returned.
func (x *Exec) region(l *loopInfo, head *ssa.BasicBlock, in []*State, info *fnInfo) []edgeOut {
	pending := map[*ssa.BasicBlock][]*State{head: in}
	var out []edgeOut
	route := func(e edgeOut) {
		if e.to == nil || e.to == head && l != nil || l != nil && !l.body[e.to] {
			out = append(out, e)
			return
		}
		pending[e.to] = append(pending[e.to], e.s)
	}
	for _, b := range info.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		sts := pending[b]
		if len(sts) == 0 {
			continue
		}
		delete(pending, b)
		if inner := info.loops[b]; inner != nil && !(l != nil && b == head) {
			for _, e := range x.loop(inner, sts, info) {
				route(e)
			}
			continue
		}
		if len(sts) > x.joinAt && !x.constMode && len(b.Preds) > 1 {
			sts = x.join(sts, b)
		}
		for _, s := range sts {
			for _, e := range x.block(b, s) {
				route(e)
			}
		}
	}
	return out
}

// edge moves s along the edge from -> to, evaluating the phis of to.
func (x *Exec) edge(s *State, from, to *ssa.BasicBlock) {
	pi := -1
	for j, p := range to.Preds {
		if p == from {
			pi = j
		}
	}
	var vs []Val
	var ps []*ssa.Phi
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vs = append(vs, x.val(s, p.Edges[pi]))
	}
	for i, p := range ps {
		x.set(s, p, vs[i])
	}
	s.pred = from
}

// block executes the instructions of b.
func (x *Exec) block(b *ssa.BasicBlock, s0 *State) []edgeOut {
	type work struct {
		s *State
		i int
	}
	todo := []work{{s0, 0}}
	var out []edgeOut
	for len(todo) > 0 {
		w := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		s := w.s
		i := w.i
	run:
		for i < len(b.Instrs) {
			x.steps++
			x.curIns = b.Instrs[i]
			if x.steps > x.maxSteps || x.steps%64 == 0 && time.Since(started) > maxTime {
				panic(giveUp{"the analysis is too expensive"})
			}
			ins := b.Instrs[i]
			switch ins := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				x.edge(s, b, b.Succs[0])
				out = append(out, edgeOut{b.Succs[0], s})
				s = nil
				break run
			case *ssa.If:
				c := x.val(s, ins.Cond).(VBool).c
				t, f := x.split(s, c)
				if t != nil {
					x.edge(t, b, b.Succs[0])
					out = append(out, edgeOut{b.Succs[0], t})
				}
				if f != nil {
					x.edge(f, b, b.Succs[1])
					out = append(out, edgeOut{b.Succs[1], f})
				}
				s = nil
				break run
			case *ssa.Return:
				switch len(ins.Results) {
				case 0:
					s.ret = VTuple{}
				case 1:
					s.ret = x.val(s, ins.Results[0])
				default:
					t := VTuple{}
					for _, r := range ins.Results {
						t.f = append(t.f, x.val(s, r))
					}
					s.ret = t
				}
				out = append(out, edgeOut{nil, s})
				s = nil
				break run
			case *ssa.Panic:
				if x.panics {
					x.nobl++
					x.fail("panic", ins, "an explicit panic may be reached")
				}
				s = nil
				break run
			case *ssa.RunDefers:
				states := []*State{s}
				ds := s.fr.defers
				s.fr.defers = nil
				for k := len(ds) - 1; k >= 0; k-- {
					var next []*State
					for _, t := range states {
						for _, r := range x.callVal(t, ds[k].call, ds[k].fn, ds[k].args, ds[k].ins.(ssa.CallInstruction)) {
							next = append(next, r.s)
						}
					}
					states = next
				}
				for _, t := range states {
					todo = append(todo, work{t, i + 1})
				}
				s = nil
				break run
			default:
				states := x.step(s, ins)
				if len(states) == 1 && states[0] == s {
					break
				}
				for _, t := range states {
					todo = append(todo, work{t, i + 1})
				}
				s = nil
				break run
			}
			i++
		}
	}
	return out
}

func (x *Exec) step(s *State, ins ssa.Instruction) (res []*State) {
	one := []*State{s}
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := ins.Type().(*types.Pointer).Elem()
		x.set(s, ins, VPtr{obj: x.newCell(s, t, x.zero(t), ins.Comment)})
		return one
	case *ssa.BinOp:
		return x.binop(s, ins)
	case *ssa.UnOp:
		return x.unop(s, ins)
	case *ssa.ChangeType:
		v := x.val(s, ins.X)
		if t, ok := v.(VTerm); ok {
			t.typ = ins.Type()
			v = t
		}
		x.set(s, ins, v)
		return one
	case *ssa.ChangeInterface:
		x.set(s, ins, x.val(s, ins.X))
		return one
	case *ssa.MakeInterface:
		x.set(s, ins, VIface{typ: ins.X.Type(), v: x.val(s, ins.X)})
		return one
	case *ssa.Convert:
		return x.convert(s, ins, ins.X, ins.Type())
	case *ssa.MultiConvert:
		return x.convert(s, ins, ins.X, ins.Type())
	case *ssa.Extract:
		x.set(s, ins, x.val(s, ins.Tuple).(VTuple).f[ins.Index])
		return one
	case *ssa.Field:
		switch v := x.val(s, ins.X).(type) {
		case VStruct:
			x.set(s, ins, v.f[ins.Field])
		case VTerm:
			x.set(s, ins, x.termField(s, v.key, ins.Field, ins.Type()))
		default:
			panic(giveUp{fmt.Sprintf("field of %T", v)})
		}
		if _, ok := x.val(s, ins).(VLazy); ok {
			x.set(s, ins, x.fresh(s, ins.Type(), "field"))
		}
		return one
	case *ssa.FieldAddr:
		p, ok := x.deref(s, ins.X, ins)
		if !ok {
			return nil
		}
		x.set(s, ins, VPtr{p.obj, appendPath(p.path, pel{f: ins.Field})})
		return one
	case *ssa.IndexAddr:
		return x.indexAddr(s, ins)
	case *ssa.Index:
		i := x.val(s, ins.Index).(VInt).e
		switch v := x.val(s, ins.X).(type) {
		case VStr:
			if !x.oblige(s, ge(i), "index", ins, "negative index") || !x.oblige(s, ge(v.ln.Sub(i).AddK(-1)), "index", ins, "index beyond the end of the string") {
				return nil
			}
			ni := s.sys.norm(i)
			if v.k != nil && ni.isConst() {
				x.set(s, ins, VInt{K(int64((*v.k)[ni.c]))})
			} else {
				x.set(s, ins, x.fresh(s, ins.Type(), "byte"))
			}
			return one
		case VStruct:
			n := int64(len(v.f))
			if !x.oblige(s, ge(i), "index", ins, "negative index") || !x.oblige(s, ge(K(n-1).Sub(i)), "index", ins, "index beyond the end of the array") {
				return nil
			}
			return x.splitIndex(s, i, 0, n, func(t *State, k int64) {
				x.set(t, ins, v.f[k])
			}, func(t *State) { x.set(t, ins, x.fresh(t, ins.Type(), "elem")) })
		}
		x.set(s, ins, x.fresh(s, ins.Type(), "elem"))
		return one
	case *ssa.Lookup:
		return x.lookup(s, ins)
	case *ssa.MakeClosure:
		f := VFunc{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.bind = append(f.bind, x.val(s, b))
		}
		x.set(s, ins, f)
		return one
	case *ssa.MakeMap:
		x.set(s, ins, VMap{x.newObj(s, &Obj{isMap: true, mk: map[string]Val{}, typ: ins.Type()})})
		return one
	case *ssa.MapUpdate:
		k, v := x.val(s, ins.Key), x.val(s, ins.Value)
		switch m := x.val(s, ins.Map).(type) {
		case VMap:
			if m.obj == 0 {
				x.oblige(s, condF, "nil map", ins, "assignment to an entry of a nil map")
				return nil
			}
			o := x.wobj(s, m.obj)
			if key, ok := constKey(s, k); ok {
				o.mk[key] = v
			} else {
				o.mk, o.mopen = map[string]Val{}, true
			}
		case VTerm:
			if !x.oblige(s, x.isNil(s, m).not(), "nil map", ins, "assignment to an entry of a map that may be nil") {
				return nil
			}
		}
		return one
	case *ssa.MakeSlice:
		n := x.val(s, ins.Len).(VInt).e
		c := x.val(s, ins.Cap).(VInt).e
		if !x.oblige(s, ge(n), "makeslice", ins, "negative length") || !x.oblige(s, ge(c.Sub(n)), "makeslice", ins, "length larger than the capacity") {
			return nil
		}
		x.set(s, ins, x.makeSlice(s, ins.Type().Underlying().(*types.Slice).Elem(), n, c))
		return one
	case *ssa.Slice:
		return x.slice(s, ins)
	case *ssa.Store:
		p, ok := x.deref(s, ins.Addr, ins)
		if !ok {
			return nil
		}
		v := x.val(s, ins.Val)
		if x.onStore != nil {
			x.onStore(x, s, p, v, ins)
		}
		x.store(s, p, v, ins)
		return one
	case *ssa.TypeAssert:
		return x.typeAssert(s, ins)
	case *ssa.Range:
		switch v := x.val(s, ins.X).(type) {
		case VStr:
			sl := x.runesOf(s, v)
			x.set(s, ins, VIter{x.newCell(s, nil, VStruct{f: []Val{sl, VInt{K(0)}, VInt{v.ln}}}, "range")})
		default:
			x.set(s, ins, VIter{x.newCell(s, nil, VStruct{f: []Val{v}}, "range")})
		}
		return one
	case *ssa.Next:
		return x.next(s, ins)
	case *ssa.Call:
		f := x.callee(s, &ins.Call, ins)
		if f == nil {
			return nil
		}
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, x.val(s, a))
		}
		for _, r := range x.callVal(s, &ins.Call, f, args, ins) {
			x.set(r.s, ins, r.v)
			res = append(res, r.s)
		}
		return res
	case *ssa.Defer:
		f := x.callee(s, &ins.Call, ins)
		if f == nil {
			return nil
		}
		d := &deferred{call: &ins.Call, fn: f, ins: ins}
		for _, a := range ins.Call.Args {
			d.args = append(d.args, x.val(s, a))
		}
		s.fr.defers = append(s.fr.defers, d)
		return one
	}
	panic(giveUp{fmt.Sprintf("instruction %T at %s", ins, x.p.PosOf(ins))})
}

func ge(l Lin) *Cond { return &Cond{k: cdGE, l: l} }

func appendPath(p []pel, e pel) []pel {
	return append(p[:len(p):len(p)], e)
}

func (x *Exec) newCell(s *State, t types.Type, v Val, name string) int {
	if a, ok := arrayOf(t); ok {
		n := a.Len()
		o := &Obj{arr: true, typ: a.Elem(), n: K(n), name: name}
		if x.anyNums && numType(a.Elem()) {
			o.ck = cAny
		} else if st, is := v.(VStruct); is {
			o.ck, o.el = cConc, append([]Val(nil), st.f...)
		}
		return x.newObj(s, o)
	}
	return x.newObj(s, &Obj{typ: t, val: v, name: name})
}

func arrayOf(t types.Type) (*types.Array, bool) {
	if t == nil {
		return nil, false
	}
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

// deref requires the pointer not to be nil.
func (x *Exec) deref(s *State, v ssa.Value, ins ssa.Instruction) (VPtr, bool) {
	return x.derefVal(s, x.val(s, v), v.Type(), ins)
}

func (x *Exec) derefVal(s *State, v Val, t types.Type, ins ssa.Instruction) (VPtr, bool) {
	switch p := v.(type) {
	case VPtr:
		if p.obj == 0 {
			x.oblige(s, condF, "nil", ins, "nil pointer dereference")
			return p, false
		}
		return p, true
	case VTerm:
		if !x.oblige(s, x.isNil(s, p).not(), "nil", ins, "the pointer may be nil") {
			return VPtr{}, false
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			panic(giveUp{"dereference of " + t.String()})
		}
		return VPtr{obj: x.termObj(s, p.key, pt.Elem())}, true
	}
	panic(giveUp{fmt.Sprintf("dereference of %T", v)})
}

func (x *Exec) termObj(s *State, key string, t types.Type) int {
	if id, ok := s.tobj[key]; ok {
		if x.obj(s, id) != nil {
			return id
		}
	}
	o := &Obj{typ: t, name: key, val: VLazy{}}
	if a, ok := arrayOf(t); ok {
		o = &Obj{arr: true, typ: a.Elem(), n: K(a.Len()), name: key}
	}
	id := x.newObj(s, o)
	m := make(map[string]int, len(s.tobj)+1)
	for k, v := range s.tobj {
		m[k] = v
	}
	m[key] = id
	s.tobj = m
	return id
}

func (x *Exec) termField(s *State, key string, f int, t types.Type) Val {
	k := fmt.Sprintf("%s.%d", key, f)
	return x.termVal(s, k, t)
}

// termVal is the value of type t named by the key: the same each time.
func (x *Exec) termVal(s *State, key string, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan:
		return VTerm{key: key, typ: t}
	case *types.Signature:
		return VFunc{id: "func " + key}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString|types.IsBoolean) == 0 {
		return VTerm{key: key, typ: t}
	}
	if id, ok := s.tobj["val:"+key]; ok {
		return x.obj(s, id).val
	}
	v := x.fresh(s, t, key)
	id := x.newObj(s, &Obj{typ: t, val: v, name: key})
	m := make(map[string]int, len(s.tobj)+1)
	for k, v := range s.tobj {
		m[k] = v
	}
	m["val:"+key] = id
	s.tobj = m
	return v
}

// load reads the location p of type t.
func (x *Exec) load(s *State, p VPtr, t types.Type, ins ssa.Instruction) Val {
	if x.onLoad != nil {
		if v, ok := x.onLoad(x, s, p, t, ins); ok {
			return v
		}
	}
	o := x.obj(s, p.obj)
	if o == nil {
		panic(giveUp{"dangling object"})
	}
	if o.arr {
		if len(p.path) == 0 { // whole array
			if o.ck == cConc {
				return VStruct{f: append([]Val(nil), o.el...)}
			}
			return x.fresh(s, t, o.name)
		}
		e := p.path[0]
		var idx Lin
		if e.idx != nil {
			idx = *e.idx
		} else {
			idx = K(int64(e.f))
		}
		v := x.elem(s, p.obj, idx)
		return x.loadPath(s, v, p.path[1:], t, o.name)
	}
	if len(p.path) == 0 {
		if _, ok := o.val.(VLazy); ok {
			v := x.fresh(s, t, o.name)
			x.wobj(s, p.obj).val = v
			return v
		}
		return o.val
	}
	v, ch := x.materialise(s, o.val, o.typ, p.path, o.name)
	if ch {
		x.wobj(s, p.obj).val = v
	}
	return x.loadPath(s, v, p.path, t, o.name)
}

func (x *Exec) loadPath(s *State, v Val, path []pel, t types.Type, name string) Val {
	for _, e := range path {
		switch u := v.(type) {
		case VStruct:
			k := int64(e.f)
			if e.idx != nil {
				i := s.sys.norm(*e.idx)
				if !i.isConst() {
					return x.fresh(s, t, name)
				}
				k = i.c
			}
			if k < 0 || k >= int64(len(u.f)) {
				return x.fresh(s, t, name)
			}
			v = u.f[k]
		case VTerm:
			v = VTerm{key: fmt.Sprintf("%s.%d", u.key, e.f)}
			if e.idx != nil {
				return x.fresh(s, t, name)
			}
		default:
			return x.fresh(s, t, name)
		}
	}
	switch u := v.(type) {
	case VLazy:
		return x.fresh(s, t, name)
	case VTerm:
		if u.typ == nil {
			return x.termVal(s, u.key, t)
		}
	}
	return v
}

// materialise replaces the lazy values met along path by fresh ones.
func (x *Exec) materialise(s *State, v Val, t types.Type, path []pel, name string) (Val, bool) {
	if t == nil {
		return v, false
	}
	if _, ok := v.(VLazy); ok {
		if st, ok := t.Underlying().(*types.Struct); ok && len(path) > 0 {
			n := VStruct{f: make([]Val, st.NumFields())}
			for i := range n.f {
				n.f[i] = VLazy{}
			}
			v = n
		} else {
			return x.fresh(s, t, name), true
		}
		r, _ := x.materialise(s, v, t, path, name)
		return r, true
	}
	if len(path) == 0 {
		return v, false
	}
	u, ok := v.(VStruct)
	if !ok || path[0].idx != nil {
		return v, false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || path[0].f >= len(u.f) {
		return v, false
	}
	r, ch := x.materialise(s, u.f[path[0].f], st.Field(path[0].f).Type(), path[1:], name+"."+st.Field(path[0].f).Name())
	if !ch {
		return v, false
	}
	n := VStruct{f: append([]Val(nil), u.f...)}
	n.f[path[0].f] = r
	return n, true
}

func (x *Exec) store(s *State, p VPtr, v Val, ins ssa.Instruction) {
	if x.obj(s, p.obj).arr {
		x.clobber(s, p.obj, ins)
	}
	o := x.wobj(s, p.obj)
	if o.arr {
		if len(p.path) == 0 {
			if st, ok := v.(VStruct); ok && int64(len(st.f)) == o.n.c && o.n.isConst() {
				o.ck, o.el = cConc, append([]Val(nil), st.f...)
			} else {
				o.ck, o.el, o.segs, o.top = cAny, nil, nil, true
			}
			return
		}
		e := p.path[0]
		idx := K(int64(e.f))
		if e.idx != nil {
			idx = *e.idx
		}
		idx = s.sys.norm(idx)
		switch o.ck {
		case cConc:
			if idx.isConst() && idx.c >= 0 && idx.c < int64(len(o.el)) {
				old := o.el[idx.c]
				if len(p.path) > 1 {
					old, _ = x.materialise(s, old, o.typ, p.path[1:], o.name)
				}
				o.el[idx.c] = x.storePath(s, old, p.path[1:], v)
				return
			}
			o.ck, o.el = cAny, nil
		case cRope, cList:
			if len(p.path) == 1 && s.sys.entailsEQ(idx.Sub(o.tot)) && !o.top { // writes the element after the last known
				if o.ck == cRope {
					o.segs = x.normSegs(s, append(o.segs[:len(o.segs):len(o.segs)], elemSeg(s, o.typ, v)))
				} else if ps, ok := x.partsOf(s, v); ok {
					o.segs = x.normSegs(s, append(o.segs[:len(o.segs):len(o.segs)], ps...))
				} else {
					o.top = true
				}
				o.tot = o.tot.AddK(1)
				return
			}
			if len(p.path) == 1 && o.top && s.sys.entailsEQ(idx.Sub(o.tot)) {
				o.tot = o.tot.AddK(1)
				return
			}
			if len(p.path) == 1 && o.ck == cRope && !o.top && idx.isConst() {
				if at, ok := segAt(s, o.segs, idx.c); ok {
					segs := append([]Seg(nil), o.segs...)
					segs[at] = elemSeg(s, o.typ, v)
					o.segs = x.normSegs(s, segs)
					return
				}
			}
			o.segs, o.top = nil, true
		case cSrc:
			o.ck = cAny
			s.dropElts(p.obj)
		}
		return
	}
	if len(p.path) > 0 {
		old, _ := x.materialise(s, o.val, o.typ, p.path, o.name)
		o.val = x.storePath(s, old, p.path, v)
		return
	}
	o.val = v
}

func segAt(s *State, segs []Seg, k int64) (int, bool) {
	for i, g := range segs {
		if g.k != segElem {
			return 0, false
		}
		if int64(i) == k {
			return i, true
		}
	}
	return 0, false
}

func (s *State) dropElts(obj int) {
	var n []Elt
	for _, e := range s.elts {
		if e.obj != obj {
			n = append(n, e)
		}
	}
	s.elts = n
	var m []RFact
	for _, e := range s.rf {
		if e.src != obj {
			m = append(m, e)
		}
	}
	s.rf = m
}

func (x *Exec) storePath(s *State, old Val, path []pel, v Val) Val {
	if len(path) == 0 {
		return v
	}
	u, ok := old.(VStruct)
	if !ok {
		return VLazy{}
	}
	n := VStruct{f: append([]Val(nil), u.f...)}
	k := int64(path[0].f)
	if path[0].idx != nil {
		i := s.sys.norm(*path[0].idx)
		if !i.isConst() {
			for j := range n.f {
				n.f[j] = VLazy{}
			}
			return n
		}
		k = i.c
	}
	if k < 0 || k >= int64(len(n.f)) {
		return old
	}
	n.f[k] = x.storePath(s, u.f[k], path[1:], v)
	return n
}

// eltOf tells which element of which sequence the symbol stands for.
func (s *State) eltOf(l Lin) (int, Lin, bool) {
	l = s.sys.norm(l)
	for i := len(s.elts) - 1; i >= 0; i-- {
		e := &s.elts[i]
		if e.obj <= 0 {
			continue
		}
		if v, ok := e.v.(VInt); ok && s.sys.norm(v.e).eq(l) && !l.isConst() {
			return e.obj, e.idx, true
		}
	}
	return 0, Lin{}, false
}

// eltConst is the latest element read known to hold that constant.
func (s *State) eltConst(l Lin) (int, Lin, bool) {
	if l = s.sys.norm(l); l.isConst() {
		for i := len(s.elts) - 1; i >= 0; i-- {
			e := &s.elts[i]
			if v, ok := e.v.(VInt); ok && e.obj > 0 && s.sys.norm(v.e).eq(l) {
				return e.obj, e.idx, true
			}
		}
	}
	return 0, Lin{}, false
}

// isElt tells that the element at idx is known to have that value.
func (s *State) isElt(obj int, idx, l Lin) bool {
	v, ok := s.memo(obj, idx)
	if !ok {
		return false
	}
	vi, ok := v.(VInt)
	return ok && s.sys.entailsEQ(vi.e.Sub(l))
}

func (s *State) memo(obj int, idx Lin) (Val, bool) {
	idx = s.sys.norm(idx)
	var cand []int
	for i := len(s.elts) - 1; i >= 0; i-- {
		e := &s.elts[i]
		if e.obj != obj {
			continue
		}
		d := s.sys.norm(e.idx)
		if d.eq(idx) {
			return e.v, true
		}
		cand = append(cand, i)
	}
	for _, i := range cand {
		if s.sys.entailsEQ(s.elts[i].idx.Sub(idx)) {
			return s.elts[i].v, true
		}
	}
	return nil, false
}

func (s *State) setMemo(obj int, idx Lin, v Val) {
	s.elts = append(s.elts, Elt{obj, s.sys.norm(idx), v})
}

// elem is the element at idx (in bounds) of the array.
func (x *Exec) elem(s *State, id int, idx Lin) Val {
	o := x.obj(s, id)
	idx = s.sys.norm(idx)
	switch o.ck {
	case cConc:
		if idx.isConst() && idx.c >= 0 && idx.c < int64(len(o.el)) {
			v := o.el[idx.c]
			if _, lazy := v.(VLazy); lazy {
				v = x.fresh(s, o.typ, o.name)
				x.wobj(s, id).el[idx.c] = v
			}
			return v
		}
	case cZero:
		return x.zero(o.typ)
	case cSrc:
		if v, ok := s.memo(id, idx); ok {
			return v
		}
		v := x.fresh(s, o.typ, o.name+"[]")
		s.setMemo(id, idx, v)
		if vi, ok := v.(VInt); ok {
			x.applyRange(s, id, idx, vi.e)
		} else if c := x.isNil(s, v); c.k == cdAtom {
			x.applyRangeNil(s, id, idx, c)
		}
		return v
	case cRope:
		if o.top {
			break
		}
		if len(o.segs) == 1 && o.segs[0].k == segView && s.sys.entails(o.tot.Sub(idx).AddK(-1)) {
			return x.elem(s, o.segs[0].src, o.segs[0].lo.Add(idx))
		}
		if idx.isConst() {
			k := idx.c
			for _, g := range o.segs {
				switch g.k {
				case segElem:
					if k == 0 {
						return g.v
					}
					k--
					continue
				case segView:
					n := s.sys.norm(g.hi.Sub(g.lo))
					if n.isConst() && k >= n.c {
						k -= n.c
						continue
					}
					if n.isConst() || s.sys.entails(n.AddK(-k-1)) {
						return x.elem(s, g.src, g.lo.AddK(k))
					}
				}
				break
			}
		}
	case cList:
		if !o.top && len(o.segs) <= 1 && x.partOf != nil {
			src, lo, hi := 0, K(0), K(0)
			if len(o.segs) == 1 {
				if o.segs[0].k != segView {
					break
				}
				src, lo, hi = o.segs[0].src, o.segs[0].lo, o.segs[0].hi
			}
			if v, ok := s.memo(id, idx); ok {
				return v
			}
			b0 := x.boundary(s, id, idx, o, lo, hi)
			b1 := x.boundary(s, id, idx.AddK(1), o, lo, hi)
			// the boundary past the last part that was read is kept across joins
			q := x.wobj(s, id)
			q.cur, q.curI, q.curP = true, idx.AddK(1), b1
			w := s.wsys()
			w.addGE(b1.Sub(b0))
			w.addGE(b0.Sub(lo))
			w.addGE(hi.Sub(b1))
			if v, ok := x.partOf(x, s, o.typ, src, b0, b1); ok {
				s.setMemo(id, idx, v)
				return v
			}
		}
	}
	if x.frozen != nil && (o.ck == cAny || o.top) && x.frozen(o.typ) {
		if v, ok := s.memo(id, idx); ok {
			return v
		}
		v := x.fresh(s, o.typ, o.name+"[]")
		s.setMemo(id, idx, v)
		return v
	}
	return x.fresh(s, o.typ, o.name+"[]")
}

// finishLists: the boundary after the last part of a list is its end.
func (x *Exec) finishLists(s *State) {
	for _, o := range s.heap {
		if !o.arr || o.ck != cList || !o.cur || o.top || len(o.segs) != 1 || o.segs[0].k != segView || !s.sys.entailsEQ(o.curI.Sub(o.tot)) {
			continue
		}
		x.assume(s, &Cond{k: cdEQ, l: o.curP.Sub(o.segs[0].hi)})
	}
}

// boundary is the position, in the concatenation of a list of parts, of the
// start of part idx.
func (x *Exec) boundary(s *State, id int, idx Lin, o *Obj, lo, hi Lin) Lin {
	if s.sys.entailsEQ(idx) {
		return lo
	}
	if s.sys.entailsEQ(o.tot.Sub(idx)) {
		return hi
	}
	if v, ok := s.memo(-id, idx); ok {
		return v.(VInt).e
	}
	if o.cur && s.sys.entailsEQ(o.curI.Sub(idx)) {
		s.setMemo(-id, idx, VInt{o.curP})
		return o.curP
	}
	y := S(x.newSym("boundary"))
	s.setMemo(-id, idx, VInt{y})
	return y
}

func (x *Exec) indexAddr(s *State, ins *ssa.IndexAddr) []*State {
	i := x.val(s, ins.Index).(VInt).e
	switch v := x.val(s, ins.X).(type) {
	case VSlice:
		if !x.oblige(s, ge(i), "index", ins, "negative index") || !x.oblige(s, ge(v.ln.Sub(i).AddK(-1)), "index", ins, "index beyond the end of the slice") {
			return nil
		}
		if v.obj == 0 {
			return nil
		}
		at := s.sys.norm(v.off.Add(i))
		if x.onIndex != nil {
			x.onIndex(x, s, v, at)
		}
		if o := x.obj(s, v.obj); o.ck == cConc && !at.isConst() {
			return x.splitIndex(s, at, 0, int64(len(o.el)), func(t *State, k int64) {
				l := K(k)
				x.set(t, ins, VPtr{v.obj, []pel{{idx: &l}}})
			}, func(t *State) { x.set(t, ins, VPtr{v.obj, []pel{{idx: &at}}}) })
		}
		x.set(s, ins, VPtr{v.obj, []pel{{idx: &at}}})
		return []*State{s}
	case VPtr, VTerm:
		p, ok := x.deref(s, ins.X, ins)
		if !ok {
			return nil
		}
		a, _ := arrayOf(ins.X.Type().Underlying().(*types.Pointer).Elem())
		n := a.Len()
		if !x.oblige(s, ge(i), "index", ins, "negative index") || !x.oblige(s, ge(K(n-1).Sub(i)), "index", ins, "index beyond the end of the array") {
			return nil
		}
		ni := s.sys.norm(i)
		if ni.isConst() {
			x.set(s, ins, VPtr{p.obj, appendPath(p.path, pel{idx: &ni})})
			return []*State{s}
		}
		return x.splitIndex(s, ni, 0, n, func(t *State, k int64) {
			l := K(k)
			x.set(t, ins, VPtr{p.obj, appendPath(p.path, pel{idx: &l})})
		}, func(t *State) { x.set(t, ins, VPtr{p.obj, appendPath(p.path, pel{idx: &ni})}) })
	}
	panic(giveUp{"index of an unknown value"})
}

// splitIndex distinguishes the possible values of i when there are few.
func (x *Exec) splitIndex(s *State, i Lin, lo, hi int64, f func(*State, int64), other func(*State)) []*State {
	i = s.sys.norm(i)
	if i.isConst() {
		f(s, i.c)
		return []*State{s}
	}
	iv := s.sys.ival(i)
	if iv.lo > lo {
		lo = iv.lo
	}
	if iv.hi < hi-1 {
		hi = iv.hi + 1
	}
	if hi-lo > 24 {
		other(s)
		return []*State{s}
	}
	var out []*State
	for k := lo; k < hi; k++ {
		t := s.clone()
		if x.assume(t, &Cond{k: cdEQ, l: i.AddK(-k)}) {
			f(t, k)
			out = append(out, t)
		}
	}
	return out
}

func (x *Exec) makeSlice(s *State, elem types.Type, n, c Lin) VSlice {
	n, c = s.sys.norm(n), s.sys.norm(c)
	o := &Obj{arr: true, typ: elem, n: c}
	limit := int64(256)
	if x.constMode {
		limit = 1 << 20
	}
	switch {
	case x.anyNums && numType(elem):
		o.ck = cAny
	case n.isConst() && n.c > 0 && n.c <= limit:
		o.ck = cConc
		z := x.zero(elem)
		o.el = make([]Val, n.c)
		for i := range o.el {
			o.el[i] = z
		}
	default:
		o.ck = cRope
		if x.isPartType(elem) {
			o.ck = cList
		}
		o.tot = K(0)
	}
	return VSlice{obj: x.newObj(s, o), off: K(0), ln: n, cp: c}
}

func (x *Exec) isPartType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Struct:
		_ = u
		return x.partSegs != nil
	}
	return isStringT(t) && x.partSegs != nil
}

// slice of a slice, string or array.
func (x *Exec) slice(s *State, ins *ssa.Slice) []*State {
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		return x.val(s, v).(VInt).e
	}
	var v VSlice
	isStr := false
	var str VStr
	switch b := x.val(s, ins.X).(type) {
	case VSlice:
		v = b
	case VStr:
		isStr, str = true, b
		v = VSlice{obj: -1, ln: b.ln, cp: b.ln}
	case VPtr, VTerm:
		p, ok := x.deref(s, ins.X, ins)
		if !ok {
			return nil
		}
		a, is := arrayOf(ins.X.Type().Underlying().(*types.Pointer).Elem())
		if !is {
			panic(giveUp{"slice of a pointer"})
		}
		if len(p.path) > 0 {
			// array nested in a struct: give it an object of its own (aliasing is lost: forbid)
			x.undecided(ins, "slice of an array nested in another value")
			v = x.freshSlice(s, a.Elem(), "nested")
			v.nk = ""
			s.wsys().addEQ(v.ln.AddK(-a.Len()))
			s.wsys().addEQ(v.cp.AddK(-a.Len()))
		} else {
			v = VSlice{obj: p.obj, off: K(0), ln: K(a.Len()), cp: K(a.Len())}
		}
	default:
		panic(giveUp{fmt.Sprintf("slice of %T", b)})
	}
	lo := get(ins.Low, K(0))
	hi := get(ins.High, v.ln)
	mx := v.cp
	if ins.Max != nil {
		mx = get(ins.Max, v.cp)
		if !x.oblige(s, ge(v.cp.Sub(mx)), "slice", ins, "slice bound larger than the capacity") {
			return nil
		}
	}
	limit := "the capacity"
	if isStr {
		limit = "the length"
	}
	if !x.oblige(s, ge(lo), "slice", ins, "negative lower bound") ||
		!x.oblige(s, ge(hi.Sub(lo)), "slice", ins, "lower bound larger than the upper bound") ||
		!x.oblige(s, ge(mx.Sub(hi)), "slice", ins, "upper bound larger than "+limit) {
		return nil
	}
	lo, hi, mx = s.sys.norm(lo), s.sys.norm(hi), s.sys.norm(mx)
	if al, ok := ins.X.(*ssa.Alloc); ok && x.looseLen && al.Comment == "makeslice" && hi.isConst() && hi.c == 0 {
		// an empty list, with room for some parts
		if o := x.obj(s, v.obj); o != nil && o.ck == cConc && x.isPartType(o.typ) {
			w := x.wobj(s, v.obj)
			w.ck, w.el, w.segs, w.top, w.tot = cList, nil, nil, false, K(0)
		}
	}
	if isStr {
		if str.k != nil && lo.isConst() && hi.isConst() {
			x.set(s, ins, constStr((*str.k)[lo.c:hi.c]))
		} else if lo.isConst() && lo.c == 0 && s.sys.entailsEQ(hi.Sub(str.ln)) {
			x.set(s, ins, str)
		} else {
			x.set(s, ins, VStr{id: x.uniq("substr"), ln: hi.Sub(lo)})
		}
		return []*State{s}
	}
	if v.obj == 0 {
		x.set(s, ins, v)
		return []*State{s}
	}
	// s[:] of a nil slice is nil; other slices of it can only be nil as well
	x.set(s, ins, VSlice{obj: v.obj, off: s.sys.norm(v.off.Add(lo)), ln: hi.Sub(lo), cp: mx.Sub(lo), nk: v.nk})
	return []*State{s}
}

func (x *Exec) unop(s *State, ins *ssa.UnOp) []*State {
	switch ins.Op {
	case token.MUL:
		p, ok := x.deref(s, ins.X, ins)
		if !ok {
			return nil
		}
		v := x.load(s, p, ins.Type(), ins)
		if _, lazy := v.(VLazy); lazy {
			v = x.fresh(s, ins.Type(), "load")
		}
		x.set(s, ins, v)
	case token.SUB:
		switch v := x.val(s, ins.X).(type) {
		case VInt:
			return x.wrap(s, v.e.Neg(), ins.Type(), ins)
		case VTerm:
			x.set(s, ins, VTerm{key: x.tkey("neg", v.key), typ: ins.Type()})
		}
	case token.XOR: // ^x == -x-1
		e := x.val(s, ins.X).(VInt).e.Neg().AddK(-1)
		if lo, _ := intRange(ins.Type()); lo == 0 {
			_, hi := intRange(ins.Type())
			if hi < posInf {
				e = e.AddK(hi + 1)
			} else {
				x.set(s, ins, x.fresh(s, ins.Type(), "not"))
				return []*State{s}
			}
		}
		x.set(s, ins, VInt{e})
	case token.NOT:
		x.set(s, ins, VBool{x.val(s, ins.X).(VBool).c.not()})
	default:
		panic(giveUp{"operator " + ins.Op.String()})
	}
	return []*State{s}
}

func (x *Exec) tkey(op string, ks ...string) string {
	k := op + "(" + strings.Join(ks, ",") + ")"
	if len(k) > 400 {
		return x.uniq("t")
	}
	return k
}

// wrap sets ins to e reduced to the range of type t.
func (x *Exec) wrap(s *State, e Lin, t types.Type, ins ssa.Value) []*State {
	lo, hi := intRange(t)
	e = s.sys.norm(e)
	iv := s.sys.ival(e)
	if lo <= negInf { // 64 bits, signed
		if iv.lo > negInf && iv.hi < posInf {
			x.set(s, ins, VInt{e})
			return []*State{s}
		}
		return x.wrap64(s, e, iv, t, ins)
	}
	if iv.lo >= lo && iv.hi <= hi && (hi < posInf || iv.hi < posInf) {
		x.set(s, ins, VInt{e})
		return []*State{s}
	}
	if hi >= posInf {
		if s.sys.entails(e) {
			x.set(s, ins, VInt{e})
		} else {
			a, b := x.split(s, ge(e))
			var out []*State
			if a != nil {
				x.set(a, ins, VInt{e})
				out = append(out, a)
			}
			if b != nil {
				x.set(b, ins, x.fresh(b, t, "wrap"))
				out = append(out, b)
			}
			return out
		}
		return []*State{s}
	}
	m := hi - lo + 1
	var out []*State
	cur := s
	if in, rest := x.split(cur, ge(e.AddK(-lo))); true {
		if rest != nil { // below the range
			if iv.lo >= lo-m {
				x.set(rest, ins, VInt{e.AddK(m)})
			} else {
				x.set(rest, ins, x.fresh(rest, t, "wrap"))
			}
			out = append(out, rest)
		}
		cur = in
	}
	if cur != nil {
		in, rest := x.split(cur, ge(K(hi).Sub(e)))
		if rest != nil {
			if iv.hi <= hi+m {
				x.set(rest, ins, VInt{e.AddK(-m)})
			} else {
				x.set(rest, ins, x.fresh(rest, t, "wrap"))
			}
			out = append(out, rest)
		}
		if in != nil {
			x.set(in, ins, VInt{e})
			out = append(out, in)
		}
	}
	return out
}

// wrap64: the exact sum, or a result of the other sign on overflow.
func (x *Exec) wrap64(s *State, e Lin, iv ivl, t types.Type, ins ssa.Value) []*State {
	// operands without a bound above and below, and what the others add up to at most
	up, down, hiRest, loRest := 0, 0, e.c, e.c
	for _, tm := range e.t {
		b := s.sys.ival(Lin{t: []term{tm}})
		k := 1
		if tm.k != 1 && tm.k != -1 {
			k = 3
		}
		if b.hi >= posInf {
			up += k
		} else {
			hiRest = satAdd(hiRest, b.hi)
		}
		if b.lo <= negInf {
			down += k
		} else {
			loRest = satAdd(loRest, b.lo)
		}
	}
	if e.isConst() || len(e.t) == 1 && e.c == 0 && e.t[0].k == 1 {
		x.set(s, ins, VInt{e})
		return []*State{s}
	}
	// the exact result is beyond 64 bits: certainly beyond big; with two
	// operands, the wrapped result has the other sign
	const big = 1 << 52
	var out []*State
	if iv.hi >= posInf && !(up == 1 && hiRest <= 0) && !s.sys.entails(K(1<<30).Sub(e)) {
		o := s.clone()
		r := x.symInt(o, t, "overflow")
		flips := up == 1 && hiRest < 1<<61 || up == 2 && hiRest <= 1
		if (!flips || x.assume(o, ge(r.e.Neg().AddK(-1)))) && x.assume(o, ge(e.AddK(-big))) {
			x.set(o, ins, r)
			out = append(out, o)
		}
	}
	if iv.lo <= negInf && !(down == 1 && loRest >= 0) && !s.sys.entails(e.AddK(1<<30)) {
		o := s.clone()
		r := x.symInt(o, t, "overflow")
		flips := down == 1 && loRest > -1<<61 || down == 2 && loRest >= 0
		if (!flips || x.assume(o, ge(r.e))) && x.assume(o, ge(e.Neg().AddK(-big))) {
			x.set(o, ins, r)
			out = append(out, o)
		}
	}
	x.set(s, ins, VInt{e})
	return append(out, s)
}

func (x *Exec) binop(s *State, ins *ssa.BinOp) []*State {
	a, b := x.val(s, ins.X), x.val(s, ins.Y)
	one := []*State{s}
	switch ins.Op {
	case token.EQL, token.NEQ:
		c := x.equal(s, a, b)
		if ins.Op == token.NEQ {
			c = c.not()
		}
		x.set(s, ins, VBool{c})
		return one
	}
	ai, ok1 := a.(VInt)
	bi, ok2 := b.(VInt)
	if ok1 && ok2 {
		switch ins.Op {
		case token.LSS:
			x.set(s, ins, VBool{ge(bi.e.Sub(ai.e).AddK(-1))})
		case token.LEQ:
			x.set(s, ins, VBool{ge(bi.e.Sub(ai.e))})
		case token.GTR:
			x.set(s, ins, VBool{ge(ai.e.Sub(bi.e).AddK(-1))})
		case token.GEQ:
			x.set(s, ins, VBool{ge(ai.e.Sub(bi.e))})
		default:
			return x.arith(s, ins, ins.Op, ai.e, bi.e, ins.Type())
		}
		return one
	}
	if sa, ok := a.(VStr); ok {
		sb := b.(VStr)
		if ins.Op == token.ADD {
			x.set(s, ins, x.concatStr(s, sa, sb))
			return one
		}
		if sa.k != nil && sb.k != nil {
			var r bool
			switch ins.Op {
			case token.LSS:
				r = *sa.k < *sb.k
			case token.LEQ:
				r = *sa.k <= *sb.k
			case token.GTR:
				r = *sa.k > *sb.k
			case token.GEQ:
				r = *sa.k >= *sb.k
			}
			x.set(s, ins, VBool{condOf(r)})
			return one
		}
	}
	ka, kb := valKey(s, a), valKey(s, b)
	if isBoolT(ins.Type()) {
		op, neg := ins.Op, false
		switch op { // a < b is the negation of a >= b but for NaN: keep them apart
		case token.GTR:
			op, ka, kb = token.LSS, kb, ka
		case token.GEQ:
			op, ka, kb = token.LEQ, kb, ka
		}
		x.set(s, ins, VBool{&Cond{k: cdAtom, atom: x.tkey(op.String(), ka, kb), neg: neg}})
		return one
	}
	if isIntT(ins.Type()) {
		x.set(s, ins, x.fresh(s, ins.Type(), "arith"))
		return one
	}
	x.set(s, ins, VTerm{key: x.tkey(ins.Op.String(), ka, kb), typ: ins.Type()})
	return one
}

func valKey(s *State, v Val) string {
	switch v := v.(type) {
	case VTerm:
		return v.key
	case VInt:
		return s.sys.norm(v.e).key()
	case VStr:
		if v.k != nil {
			return fmt.Sprintf("%q", *v.k)
		}
		return v.id
	case VPtr:
		return fmt.Sprintf("&%d%v", v.obj, v.path)
	case VIface:
		if v.typ == nil {
			return "nil"
		}
		return v.typ.String() + ":" + valKey(s, v.v)
	case VFunc:
		if v.fn != nil {
			return v.fn.String()
		}
		return v.id
	case VSlice:
		return fmt.Sprintf("[]%d:%s:%s", v.obj, s.sys.norm(v.off).key(), s.sys.norm(v.ln).key())
	case VStruct:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range v.f {
			b.WriteString(valKey(s, f) + ",")
		}
		return b.String() + "}"
	case VBool:
		switch v.c.k {
		case cdTrue:
			return "true"
		case cdFalse:
			return "false"
		}
		return fmt.Sprintf("%d%s%s%v", v.c.k, v.c.l.key(), v.c.atom, v.c.neg)
	}
	return fmt.Sprintf("%v", v)
}

func (x *Exec) equal(s *State, a, b Val) *Cond {
	ai, ok1 := a.(VInt)
	bi, ok2 := b.(VInt)
	if ok1 && ok2 {
		return &Cond{k: cdEQ, l: ai.e.Sub(bi.e)}
	}
	if av, ok := a.(VBool); ok {
		bv := b.(VBool)
		switch {
		case bv.c.k == cdTrue:
			return av.c
		case bv.c.k == cdFalse:
			return av.c.not()
		case av.c.k == cdTrue:
			return bv.c
		case av.c.k == cdFalse:
			return bv.c.not()
		}
	}
	if as, ok := a.(VStr); ok {
		bs, ok := b.(VStr)
		if ok {
			if as.k != nil && bs.k != nil {
				return condOf(*as.k == *bs.k)
			}
			if as.k == nil && bs.k == nil && as.id == bs.id {
				return condT
			}
			if as.k != nil && *as.k == "" {
				return &Cond{k: cdEQ, l: bs.ln}
			}
			if bs.k != nil && *bs.k == "" {
				return &Cond{k: cdEQ, l: as.ln}
			}
		}
	}
	isNilC := func(v Val) bool {
		switch v := v.(type) {
		case VPtr:
			return v.obj == 0
		case VSlice:
			return v.obj == 0
		case VIface:
			return v.typ == nil
		case VFunc:
			return v.isNil
		case VMap:
			return v.obj == 0
		case VTerm:
			return v.nn < 0
		}
		return false
	}
	if isNilC(b) {
		return x.isNil(s, a)
	}
	if isNilC(a) {
		return x.isNil(s, b)
	}
	switch av := a.(type) {
	case VPtr:
		if bv, ok := b.(VPtr); ok && len(av.path) == 0 && len(bv.path) == 0 {
			return condOf(av.obj == bv.obj)
		}
	case VIface:
		if bv, ok := b.(VIface); ok {
			if !types.Identical(av.typ, bv.typ) {
				return condF
			}
			return x.equal(s, av.v, bv.v)
		}
	case VTerm:
		if bv, ok := b.(VTerm); ok {
			if av.key == bv.key {
				return condT
			}
			if strings.HasPrefix(av.key, "global ") && strings.HasPrefix(bv.key, "global ") && x.distinctGlobals(av, bv) {
				return condF
			}
			if strings.HasPrefix(av.key, "const ") && strings.HasPrefix(bv.key, "const ") {
				return condF
			}
			if strings.HasPrefix(av.key, "new:") && strings.HasPrefix(bv.key, "new:") {
				return condF
			}
		}
	case VStruct:
		if bv, ok := b.(VStruct); ok && len(av.f) == len(bv.f) {
			all := true
			for i := range av.f {
				c := x.equal(s, av.f[i], bv.f[i])
				switch x.decide(s, c) {
				case -1:
					return condF
				case 0:
					all = false
				}
			}
			if all {
				return condT
			}
		}
	}
	ka, kb := valKey(s, a), valKey(s, b)
	if ka > kb {
		ka, kb = kb, ka
	}
	return &Cond{k: cdAtom, atom: x.tkey("eq", ka, kb)}
}

// distinctGlobals: variables of other packages that hold distinct errors or language tags.
func (x *Exec) distinctGlobals(a, b VTerm) bool {
	return true
}

func (x *Exec) arith(s *State, ins ssa.Value, op token.Token, a, b Lin, t types.Type) (out []*State) {
	one := []*State{s}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			x.set(s, ins, x.fresh(s, t, "overflow"))
			out = one
		}
	}()
	a, b = s.sys.norm(a), s.sys.norm(b)
	pos, _ := ins.(ssa.Instruction)
	switch op {
	case token.ADD:
		return x.wrap(s, a.Add(b), t, ins)
	case token.SUB:
		return x.wrap(s, a.Sub(b), t, ins)
	case token.MUL:
		if b.isConst() {
			return x.wrap(s, a.Mul(b.c), t, ins)
		}
		if a.isConst() {
			return x.wrap(s, b.Mul(a.c), t, ins)
		}
		r := x.symInt(s, t, "product")
		ia, ib := s.sys.ival(a), s.sys.ival(b)
		if ia.lo >= 0 && ib.lo >= 0 && ia.hi < 1<<31 && ib.hi < 1<<31 {
			s.wsys().addGE(r.e)
		}
		x.set(s, ins, r)
		return one
	case token.QUO, token.REM:
		if !x.oblige(s, &Cond{k: cdNE, l: b}, "division", pos, "division by zero") {
			return nil
		}
		if a.isConst() && b.isConst() {
			if op == token.QUO {
				x.set(s, ins, VInt{K(a.c / b.c)})
			} else {
				x.set(s, ins, VInt{K(a.c % b.c)})
			}
			return one
		}
		if !b.isConst() || b.c == 0 {
			r := x.symInt(s, t, "quotient")
			ia, ib := s.sys.ival(a), s.sys.ival(b)
			if ia.lo >= 0 && ib.lo > 0 {
				s.wsys().addGE(r.e)
				if op == token.QUO {
					s.wsys().addGE(a.Sub(r.e))
				} else {
					s.wsys().addGE(b.Sub(r.e).AddK(-1))
				}
			}
			x.set(s, ins, r)
			return one
		}
		d := absI(b.c)
		p, n := x.split(s, ge(a))
		if p != nil {
			q := x.divBy(p, a, d)
			if op == token.QUO {
				if b.c < 0 {
					q = q.Neg()
				}
				x.set(p, ins, VInt{q})
			} else {
				x.set(p, ins, VInt{p.sys.norm(a.Sub(q.Mul(d)))})
			}
			out = append(out, p)
		}
		if n != nil {
			q := x.divBy(n, a.Neg(), d)
			if op == token.QUO {
				if b.c > 0 {
					q = q.Neg()
				}
				x.set(n, ins, VInt{q})
			} else {
				x.set(n, ins, VInt{n.sys.norm(a.Add(q.Mul(d)))})
			}
			out = append(out, n)
		}
		return out
	case token.SHL, token.SHR:
		if !x.oblige(s, ge(b), "shift", pos, "negative shift") {
			return nil
		}
		if !b.isConst() {
			iv := s.sys.ival(b)
			if iv.lo >= 0 && iv.hi-iv.lo <= 8 {
				for k := iv.lo; k <= iv.hi; k++ {
					c := s.clone()
					if x.assume(c, &Cond{k: cdEQ, l: b.AddK(-k)}) {
						out = append(out, x.arith(c, ins, op, a, K(k), t)...)
					}
				}
				return out
			}
			x.set(s, ins, x.fresh(s, t, "shift"))
			return one
		}
		if b.c > 40 {
			x.set(s, ins, x.fresh(s, t, "shift"))
			return one
		}
		if op == token.SHL {
			return x.wrapMod(s, a.Mul(1<<uint(b.c)), t, ins)
		}
		if a.isConst() {
			x.set(s, ins, VInt{K(a.c >> uint(b.c))})
			return one
		}
		x.set(s, ins, VInt{x.divBy(s, a, 1<<uint(b.c))}) // floor, for negative values as well
		return one
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() && b.isConst() {
			var r int64
			switch op {
			case token.AND:
				r = a.c & b.c
			case token.OR:
				r = a.c | b.c
			case token.XOR:
				r = a.c ^ b.c
			case token.AND_NOT:
				r = a.c &^ b.c
			}
			x.set(s, ins, VInt{K(r)})
			return one
		}
		if op == token.AND {
			if a.isConst() {
				a, b = b, a
			}
			ia := s.sys.ival(a)
			if b.isConst() && b.c >= 0 {
				if b.c&(b.c+1) == 0 {
					if ia.lo >= 0 && ia.hi <= b.c {
						x.set(s, ins, VInt{a})
						return one
					}
					q := x.divBy(s, a, b.c+1)
					x.set(s, ins, VInt{s.sys.norm(a.Sub(q.Mul(b.c + 1)))})
					return one
				}
				r := x.symInt(s, t, "and")
				s.wsys().setBound(mustSym(r), 0, b.c)
				x.set(s, ins, r)
				return one
			}
		}
		if a.isConst() && a.c == 0 {
			if op != token.AND && op != token.AND_NOT {
				x.set(s, ins, VInt{b})
				return one
			}
		}
		if b.isConst() && b.c == 0 && op != token.AND {
			x.set(s, ins, VInt{a})
			return one
		}
		// few values: distinguish them
		for _, o := range []Lin{a, b} {
			iv := s.sys.ival(o)
			if !o.isConst() && iv.hi-iv.lo <= 4 && iv.lo > negInf && iv.hi < posInf {
				for k := iv.lo; k <= iv.hi; k++ {
					c := s.clone()
					if x.assume(c, &Cond{k: cdEQ, l: o.AddK(-k)}) {
						out = append(out, x.arith(c, ins, op, a, b, t)...)
					}
				}
				return out
			}
		}
		r := x.symInt(s, t, "bits")
		ia, ib := s.sys.ival(a), s.sys.ival(b)
		if ia.lo >= 0 && ib.lo >= 0 {
			s.wsys().addGE(r.e)
			if op == token.AND || op == token.AND_NOT {
				s.wsys().addGE(a.Sub(r.e))
			}
		}
		x.set(s, ins, r)
		return one
	}
	panic(giveUp{"operator " + op.String()})
}

func mustSym(v VInt) Sym {
	y, _ := v.e.single()
	return y
}

// wrapMod reduces e to the range of t (left shifts).
func (x *Exec) wrapMod(s *State, e Lin, t types.Type, ins ssa.Value) []*State {
	lo, hi := intRange(t)
	iv := s.sys.ival(e)
	if e.isConst() && hi < posInf {
		m := hi - lo + 1
		c := e.c - floorDiv(e.c-lo, m)*m
		x.set(s, ins, VInt{K(c)})
		return []*State{s}
	}
	if lo > negInf && hi < posInf && (iv.lo < lo || iv.hi > hi) && iv.lo > negInf && iv.hi < posInf && lo == 0 {
		q := x.divBy(s, e, hi+1)
		x.set(s, ins, VInt{s.sys.norm(e.Sub(q.Mul(hi + 1)))})
		return []*State{s}
	}
	return x.wrap(s, e, t, ins)
}

// divBy is floor(a/d).
func (x *Exec) divBy(s *State, a Lin, d int64) Lin {
	a = s.sys.norm(a)
	if a.isConst() {
		return K(floorDiv(a.c, d))
	}
	if d == 1 {
		return a
	}
	// multiples of d leave the quotient
	ex := K(floorDiv(a.c, d))
	rest := K(a.c - floorDiv(a.c, d)*d)
	for _, t := range a.t {
		if t.k%d == 0 {
			ex = ex.Add(Lin{t: []term{{t.s, t.k / d}}})
		} else {
			rest = rest.Add(Lin{t: []term{t}})
		}
	}
	if rest.isConst() {
		return ex
	}
	if iv := s.sys.ival(rest); iv.lo > negInf && iv.hi < posInf && floorDiv(iv.lo, d) == floorDiv(iv.hi, d) {
		return ex.AddK(floorDiv(iv.lo, d))
	}
	key := -(1 << 30) - int(d)
	if v, ok := s.memo(key, rest); ok {
		return ex.Add(v.(VInt).e)
	}
	q := x.newSym("quotient")
	iv := s.sys.ival(rest)
	w := s.wsys()
	lo, hi := int64(negInf), int64(posInf)
	if iv.lo > negInf {
		lo = floorDiv(iv.lo, d)
	}
	if iv.hi < posInf {
		hi = floorDiv(iv.hi, d)
	}
	w.setBound(q, lo, hi)
	w.addGE(rest.Sub(S(q).Mul(d)))             // rest - d q >= 0
	w.addGE(S(q).Mul(d).AddK(d - 1).Sub(rest)) // d q + d-1 - rest >= 0
	s.setMemo(key, rest, VInt{S(q)})
	return ex.Add(S(q))
}

func (x *Exec) convert(s *State, ins ssa.Value, X ssa.Value, t types.Type) []*State {
	v := x.val(s, X)
	one := []*State{s}
	from := X.Type()
	switch {
	case isIntT(t):
		switch v := v.(type) {
		case VInt:
			lo1, hi1 := intRange(from)
			lo, hi := intRange(t)
			if lo <= lo1 && hi >= hi1 && !(hi >= posInf && hi1 >= posInf && lo != lo1) {
				x.set(s, ins, v)
				return one
			}
			if lo <= negInf && hi1 >= posInf && lo1 == 0 { // uint64 to int64
				if s.sys.ival(s.sys.norm(v.e)).hi < posInf {
					x.set(s, ins, v)
					return one
				}
			}
			if lo == 0 && hi >= posInf { // to 64 bits unsigned
				a, b := x.split(s, ge(v.e))
				var out []*State
				if a != nil {
					x.set(a, ins, v)
					out = append(out, a)
				}
				if b != nil { // larger than any int64
					r := x.symInt(b, t, "unsigned")
					b.wsys().addGE(r.e.AddK(-(posInf - 1)))
					x.set(b, ins, r)
					out = append(out, b)
				}
				return out
			}
			if lo <= negInf {
				x.set(s, ins, v)
				return one
			}
			return x.narrow(s, v.e, t, ins)
		case VTerm:
			key := x.tkey("int", v.key)
			if n, ok := s.memoKey(key); ok {
				x.set(s, ins, n)
				return one
			}
			n := x.symInt(s, t, key)
			s.setMemoKey(key, n)
			x.set(s, ins, n)
			return one
		}
		x.set(s, ins, x.fresh(s, t, "conv"))
		return one
	case isStringT(t):
		switch v := v.(type) {
		case VStr:
			x.set(s, ins, v)
		case VInt:
			x.set(s, ins, VStr{id: x.uniq("string(rune)"), ln: x.symLen(s, "len"), segs: []Seg{{k: segEncV, v: v}}, sok: true})
		case VSlice:
			segs := x.contentOf(s, v)
			r := VStr{id: x.uniq("string"), sok: true}
			el := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Byte {
				r.segs = segs
				r.ln = v.ln
			} else {
				r.segs = x.encSegs(s, segs)
				r.ln = x.symLen(s, "len(string)")
				w := s.wsys()
				w.addGE(r.ln.Sub(v.ln))
				w.addGE(v.ln.Mul(4).Sub(r.ln))
			}
			for _, g := range r.segs {
				if g.k == segUnk {
					r.sok = false
				}
			}
			if k, ok := segsConst(s, r.segs); ok && r.sok {
				x.set(s, ins, constStr(k))
				return one
			}
			x.set(s, ins, r)
		default:
			x.set(s, ins, x.fresh(s, t, "string"))
		}
		return one
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if str, is := v.(VStr); is {
			if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Byte {
				o := &Obj{arr: true, typ: sl.Elem(), n: str.ln, ck: cRope, segs: str.segs, tot: str.ln, top: !str.sok}
				x.set(s, ins, VSlice{obj: x.newObj(s, o), off: K(0), ln: str.ln, cp: str.ln})
				return one
			}
			x.set(s, ins, x.runesOf(s, str))
			return one
		}
		x.set(s, ins, v)
		return one
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		switch v := v.(type) {
		case VInt:
			e := s.sys.norm(v.e)
			if e.isConst() {
				x.set(s, ins, VTerm{key: "const " + constant.MakeInt64(e.c).ExactString(), typ: t, nn: 1})
			} else {
				x.set(s, ins, VTerm{key: x.tkey("float", e.key()), typ: t})
			}
		case VTerm:
			x.set(s, ins, v)
		}
		return one
	}
	x.set(s, ins, v)
	return one
}

// narrow converts to a narrower or unsigned type.
func (x *Exec) narrow(s *State, e Lin, t types.Type, ins ssa.Value) []*State {
	e = s.sys.norm(e)
	lo, hi := intRange(t)
	if e.isConst() {
		return x.wrapMod(s, e, t, ins)
	}
	iv := s.sys.ival(e)
	m := hi - lo + 1
	if iv.lo >= lo-m && iv.hi <= hi+m {
		return x.wrap(s, e, t, ins)
	}
	in, out := x.split(s, ge(e.AddK(-lo)))
	var res []*State
	over := func(o *State) {
		if o != nil {
			x.set(o, ins, x.symInt(o, t, "narrow"))
			res = append(res, o)
		}
	}
	over(out)
	if in != nil {
		in2, out2 := x.split(in, ge(K(hi).Sub(e)))
		over(out2)
		if in2 != nil {
			x.set(in2, ins, VInt{e})
			res = append(res, in2)
		}
	}
	return res
}

func (s *State) memoKey(k string) (Val, bool) {
	v, ok := s.mon["memo:"+k]
	return v, ok
}

func (s *State) setMemoKey(k string, v Val) { s.setMon("memo:"+k, v) }

// runesOf is the sequence of runes of a string.
func (x *Exec) runesOf(s *State, v VStr) VSlice {
	if v.k != nil {
		o := &Obj{arr: true, typ: types.Typ[types.Int32], ck: cConc, name: "runes"}
		for _, r := range *v.k {
			o.el = append(o.el, VInt{K(int64(r))})
		}
		n := K(int64(len(o.el)))
		o.n = n
		return VSlice{obj: x.newObj(s, o), off: K(0), ln: n, cp: n}
	}
	if m, ok := s.memoKey("runes:" + v.id); ok {
		return m.(VSlice)
	}
	sl := x.freshSlice(s, types.Typ[types.Int32], "runes")
	sl.nk = ""
	w := s.wsys()
	w.addGE(v.ln.Sub(sl.ln))
	w.addGE(sl.ln.Mul(4).Sub(v.ln))
	s.setMemoKey("runes:"+v.id, sl)
	return sl
}

// elemSeg describes one element: a byte below 128 is the encoding of a rune.
func elemSeg(s *State, t types.Type, v Val) Seg {
	if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return Seg{k: segElem, v: v}
	}
	if i, ok := v.(VInt); ok && s.sys.entails(i.e) && s.sys.entails(K(0x7f).Sub(i.e)) {
		return Seg{k: segEncV, v: v}
	}
	return Seg{k: segUnk}
}

func (x *Exec) encSegs(s *State, segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		switch g.k {
		case segView:
			out = append(out, Seg{k: segEnc, src: g.src, lo: g.lo, hi: g.hi})
		case segElem:
			out = append(out, Seg{k: segEncV, v: g.v})
		default:
			out = append(out, Seg{k: segUnk})
		}
	}
	return x.normSegs(s, out)
}

func segsConst(s *State, segs []Seg) (string, bool) {
	r := ""
	for _, g := range segs {
		switch {
		case g.cnst != "":
			r += g.cnst
		case g.k == segEncV:
			l := s.sys.norm(g.v.(VInt).e)
			if !l.isConst() || l.c > math.MaxInt32 {
				return "", false
			}
			r += string(rune(l.c))
		default:
			return "", false
		}
	}
	return r, true
}

func (x *Exec) concatStr(s *State, a, b VStr) VStr {
	if a.k != nil && b.k != nil {
		return constStr(*a.k + *b.k)
	}
	r := VStr{id: x.tkey("cat", valKey(s, a), valKey(s, b)), ln: a.ln.Add(b.ln)}
	if a.k != nil && *a.k == "" {
		return b
	}
	if b.k != nil && *b.k == "" {
		return a
	}
	if a.sok && b.sok {
		r.sok = true
		r.segs = x.normSegs(s, append(append([]Seg(nil), a.segs...), b.segs...))
	}
	return r
}

// contentOf describes the elements of a slice.
func (x *Exec) contentOf(s *State, v VSlice) []Seg {
	if v.obj == 0 || s.sys.entailsEQ(v.ln) {
		return nil
	}
	o := x.obj(s, v.obj)
	end := v.off.Add(v.ln)
	switch o.ck {
	case cSrc:
		return []Seg{{k: segView, src: v.obj, lo: s.sys.norm(v.off), hi: s.sys.norm(end)}}
	case cConc:
		lo, n := s.sys.norm(v.off), s.sys.norm(v.ln)
		if lo.isConst() && n.isConst() && n.c <= 256 {
			var out []Seg
			for i := lo.c; i < lo.c+n.c; i++ {
				out = append(out, elemSeg(s, o.typ, o.el[i]))
			}
			return x.normSegs(s, out)
		}
		// a prefix of an array that holds an encoded rune
		if lo.isConst() && lo.c == 0 && len(o.segs) == 1 && s.sys.entailsEQ(n.Sub(o.tot)) {
			return o.segs
		}
	case cRope:
		if o.top {
			break
		}
		if s.sys.entailsEQ(v.off) && s.sys.entailsEQ(v.ln.Sub(o.tot)) {
			return o.segs
		}
		if len(o.segs) == 1 && o.segs[0].k == segView && s.sys.entails(o.tot.Sub(end)) {
			g := o.segs[0]
			return []Seg{{k: segView, src: g.src, lo: s.sys.norm(g.lo.Add(v.off)), hi: s.sys.norm(g.lo.Add(end))}}
		}
	}
	return []Seg{{k: segUnk}}
}

// normSegs drops empty segments and merges adjacent ones.
func (x *Exec) normSegs(s *State, in []Seg) []Seg {
	var out []Seg
	for _, g := range in {
		if g.k == segElem || g.k == segEncV {
			if v, ok := g.v.(VInt); ok {
				if n := len(out); n > 0 && out[n-1].src != 0 && (out[n-1].k == segView && g.k == segElem || out[n-1].k == segEnc && g.k == segEncV) && s.isElt(out[n-1].src, out[n-1].hi, v.e) {
					out[n-1].hi = s.sys.norm(out[n-1].hi.AddK(1))
					continue
				}
				src, idx, ok := s.eltOf(v.e)
				if !ok && g.k == segElem {
					src, idx, ok = s.eltConst(v.e)
				}
				if ok {
					k := segView
					if g.k == segEncV {
						k = segEnc
					}
					g = Seg{k: k, src: src, lo: idx, hi: idx.AddK(1)}
				} else if l := s.sys.norm(v.e); l.isConst() && g.k == segEncV {
					g = Seg{k: segEnc, cnst: string(rune(l.c))}
				}
			}
		}
		if (g.k == segView || g.k == segEnc) && g.cnst == "" && s.sys.entailsEQ(g.hi.Sub(g.lo)) {
			continue
		}
		if n := len(out); n > 0 && (g.k == segView || g.k == segEnc) && out[n-1].k == g.k && out[n-1].src == g.src {
			p := out[n-1]
			if g.src == 0 {
				p.cnst += g.cnst
				out[n-1] = p
				continue
			}
			if s.sys.entailsEQ(p.hi.Sub(g.lo)) {
				p.hi = g.hi
				out[n-1] = p
				continue
			}
		}
		if n := len(out); n > 0 && g.k == segUnk && out[n-1].k == segUnk {
			continue
		}
		out = append(out, g)
	}
	return out
}

// keep notes that a list refers to the array of the slice.
func (x *Exec) keep(s *State, v VSlice) {
	if v.obj == 0 {
		return
	}
	if o := x.obj(s, v.obj); !o.kept && o.ck != cSrc {
		x.wobj(s, v.obj).kept = true
	}
}

// clobber: an array that parts of lists may refer to is written, so what is
// known of the content of lists does not hold any more.
func (x *Exec) clobber(s *State, id int, ins ssa.Instruction) {
	if o := x.obj(s, id); !o.kept && o.ck != cSrc {
		return
	}
	var ids []int
	for k, o := range s.heap {
		if o.ck == cList && o.arr && !o.top {
			ids = append(ids, k)
		}
	}
	for _, k := range ids {
		w := x.wobj(s, k)
		w.segs, w.top = nil, true
	}
	if x.onClobber != nil {
		x.onClobber(x, s, id, ins)
	}
}

// partsOf describes the elements that a part of a list stands for.
func (x *Exec) partsOf(s *State, v Val) ([]Seg, bool) {
	if x.partSegs != nil {
		if segs, ok := x.partSegs(x, s, v); ok {
			return segs, true
		}
	}
	switch v := v.(type) {
	case VSlice:
		x.keep(s, v)
		return x.contentOf(s, v), true
	case VStr:
		if v.sok {
			return v.segs, true
		}
	}
	return nil, false
}

func segsKnown(segs []Seg) bool {
	for _, g := range segs {
		if g.k == segUnk {
			return false
		}
	}
	return true
}

// appendTo models append(dst, elems...): elems known one by one, or add their description and n their number.
func (x *Exec) appendTo(s *State, dst VSlice, elem types.Type, elems []Val, src *VSlice, ins ssa.CallInstruction) VSlice {
	n := K(int64(len(elems)))
	if src != nil {
		n = src.ln
	}
	if l := s.sys.norm(n); l.isConst() && l.c == 0 {
		return dst
	}
	var old *Obj
	if dst.obj != 0 {
		old = x.obj(s, dst.obj)
	}
	ln := s.sys.norm(dst.ln.Add(n))
	cp := x.symLen(s, "cap")
	s.wsys().addGE(cp.Sub(ln))
	if x.looseLen && x.isPartType(elem) {
		ln = x.symLen(s, "len")
		cp = ln
	}
	o := &Obj{arr: true, typ: elem, n: cp, tot: ln}
	switch {
	case x.anyNums && numType(elem):
		o.ck = cAny
	case x.isPartType(elem):
		o.ck = cList
		segs, ok := x.listSegs(s, dst)
		for _, e := range elems {
			if !ok {
				break
			}
			var ps []Seg
			ps, ok = x.partsOf(s, e)
			segs = append(segs[:len(segs):len(segs)], ps...)
		}
		if ok && src != nil {
			var more []Seg
			more, ok = x.listSegs(s, *src)
			segs = append(segs[:len(segs):len(segs)], more...)
		}
		if ok {
			o.segs = x.normSegs(s, segs)
		} else {
			o.top = true
		}
		if x.debug {
			fmt.Println("APPEND", x.p.PosOf(ins), ok, x.segsString(s, o.segs))
		}
	default:
		segs := append([]Seg(nil), x.contentOf(s, dst)...)
		for _, e := range elems {
			segs = append(segs, elemSeg(s, elem, e))
		}
		if src != nil {
			segs = append(segs, x.contentOf(s, *src)...)
		}
		segs = x.normSegs(s, segs)
		if segsKnown(segs) && len(segs) <= 40 {
			o.ck, o.segs = cRope, segs
		} else {
			o.ck = cAny
		}
	}
	// the old array may have been extended in place
	if old != nil && old.kept {
		end := s.sys.norm(dst.off.Add(dst.ln))
		if !s.sys.entailsEQ(dst.cp.Sub(dst.ln)) && !((old.ck == cRope || old.ck == cList) && s.sys.entailsEQ(end.Sub(old.tot))) {
			x.clobber(s, dst.obj, ins)
		}
	}
	if old != nil && old.ck != cSrc {
		end := s.sys.norm(dst.off.Add(dst.ln))
		switch old.ck {
		case cRope, cList:
			if !old.top && !s.sys.entailsEQ(end.Sub(old.tot)) {
				w := x.wobj(s, dst.obj)
				w.segs, w.top = nil, true
			}
		case cConc:
			if !s.sys.entailsEQ(dst.cp.Sub(dst.ln)) {
				w := x.wobj(s, dst.obj)
				if end.isConst() {
					for i := end.c; i < int64(len(w.el)); i++ {
						w.el[i] = VLazy{}
					}
				} else {
					w.ck, w.el = cAny, nil
				}
			}
		case cZero:
			x.wobj(s, dst.obj).ck = cAny
		}
	}
	return VSlice{obj: x.newObj(s, o), off: K(0), ln: ln, cp: cp}
}

// listSegs is the concatenation of the parts of a list.
func (x *Exec) listSegs(s *State, v VSlice) ([]Seg, bool) {
	if v.obj == 0 || s.sys.entailsEQ(v.ln) {
		return nil, true
	}
	o := x.obj(s, v.obj)
	switch o.ck {
	case cList:
		if !o.top && s.sys.entailsEQ(v.off) && s.sys.entailsEQ(v.ln.Sub(o.tot)) {
			return o.segs, true
		}
	case cConc:
		lo, n := s.sys.norm(v.off), s.sys.norm(v.ln)
		if lo.isConst() && n.isConst() {
			var out []Seg
			for i := lo.c; i < lo.c+n.c; i++ {
				p, ok := x.partsOf(s, o.el[i])
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			}
			return x.normSegs(s, out), true
		}
	case cRope:
		if !o.top && s.sys.entailsEQ(v.off) && s.sys.entailsEQ(v.ln.Sub(o.tot)) {
			var out []Seg
			for _, g := range o.segs {
				if g.k != segElem {
					return nil, false
				}
				p, ok := x.partsOf(s, g.v)
				if !ok {
					return nil, false
				}
				out = append(out, p...)
			}
			return x.normSegs(s, out), true
		}
	}
	return nil, false
}

func constKey(s *State, v Val) (string, bool) {
	switch v := v.(type) {
	case VStr:
		if v.k != nil {
			return fmt.Sprintf("%q", *v.k), true
		}
	case VInt:
		if l := s.sys.norm(v.e); l.isConst() {
			return fmt.Sprint(l.c), true
		}
	case VTerm:
		if strings.HasPrefix(v.key, "global ") {
			return v.key, true
		}
	}
	return "", false
}

func (x *Exec) lookup(s *State, ins *ssa.Lookup) []*State {
	k := x.val(s, ins.Index)
	var vt types.Type
	if str, ok := x.val(s, ins.X).(VStr); ok {
		i := k.(VInt).e
		if !x.oblige(s, ge(i), "index", ins, "negative index") || !x.oblige(s, ge(str.ln.Sub(i).AddK(-1)), "index", ins, "index beyond the end of the string") {
			return nil
		}
		if n := s.sys.norm(i); n.isConst() && str.k != nil {
			x.set(s, ins, VInt{K(int64((*str.k)[n.c]))})
		} else {
			x.set(s, ins, x.fresh(s, ins.Type(), "byte"))
		}
		return []*State{s}
	}
	vt = ins.X.Type().Underlying().(*types.Map).Elem()
	put := func(t *State, v Val, ok *Cond) {
		if ins.CommaOk {
			x.set(t, ins, VTuple{f: []Val{v, VBool{ok}}})
		} else {
			x.set(t, ins, v)
		}
	}
	switch m := x.val(s, ins.X).(type) {
	case VMap:
		if m.obj == 0 {
			put(s, x.zero(vt), condF)
			return []*State{s}
		}
		o := x.obj(s, m.obj)
		if key, ok := constKey(s, k); ok {
			if v, has := o.mk[key]; has {
				put(s, v, condT)
				return []*State{s}
			}
			if !o.mopen {
				put(s, x.zero(vt), condF)
				return []*State{s}
			}
		}
		if ki, isInt := k.(VInt); isInt && !o.mopen && len(o.mk) <= 24 {
			// one state per key
			var keys []string
			for key := range o.mk {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			var out []*State
			cur := s
			for _, key := range keys {
				var c int64
				fmt.Sscan(key, &c)
				t, f := x.split(cur, &Cond{k: cdEQ, l: ki.e.AddK(-c)})
				if t != nil {
					put(t, o.mk[key], condT)
					out = append(out, t)
				}
				cur = f
				if cur == nil {
					break
				}
			}
			if cur != nil {
				put(cur, x.zero(vt), condF)
				out = append(out, cur)
			}
			return out
		}
	}
	// an entry, or no entry: the zero value
	key := x.tkey("map", valKey(s, x.val(s, ins.X)), valKey(s, k))
	t, f := x.split(s, &Cond{k: cdAtom, atom: "has:" + key})
	var out []*State
	if t != nil {
		put(t, x.termVal(t, key, vt), condT)
		out = append(out, t)
	}
	if f != nil {
		put(f, x.zero(vt), condF)
		out = append(out, f)
	}
	return out
}

func (x *Exec) next(s *State, ins *ssa.Next) []*State {
	it := x.val(s, ins.Iter).(VIter)
	o := x.obj(s, it.obj)
	st := o.val.(VStruct)
	if ins.IsString {
		sl := st.f[0].(VSlice)
		pos := st.f[1].(VInt).e
		more, end := x.split(s, ge(sl.ln.Sub(pos).AddK(-1)))
		var out []*State
		if more != nil {
			r := x.elem(more, sl.obj, sl.off.Add(pos))
			idx := x.symLen(more, "idx")
			w := more.wsys()
			w.addGE(idx.Sub(pos))
			w.addGE(st.f[2].(VInt).e.Sub(idx).AddK(-1))
			x.wobj(more, it.obj).val = VStruct{f: []Val{sl, VInt{pos.AddK(1)}, st.f[2]}}
			x.set(more, ins, VTuple{f: []Val{VBool{condT}, VInt{idx}, r}})
			out = append(out, more)
		}
		if end != nil {
			x.set(end, ins, VTuple{f: []Val{VBool{condF}, VInt{K(0)}, VInt{K(0)}}})
			out = append(out, end)
		}
		return out
	}
	tt := ins.Type().(*types.Tuple)
	more := s.clone()
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	mt := ins.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if !isValid(kt) {
		kt = mt.Key()
	}
	if !isValid(vt) {
		vt = mt.Elem()
	}
	x.set(more, ins, VTuple{f: []Val{VBool{condT}, x.fresh(more, kt, "key"), x.fresh(more, vt, "entry")}})
	x.set(s, ins, VTuple{f: []Val{VBool{condF}, x.zero(kt), x.zero(vt)}})
	return []*State{more, s}
}

func isValid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return !ok || b.Kind() != types.Invalid
}

func (x *Exec) typeAssert(s *State, ins *ssa.TypeAssert) []*State {
	t := ins.AssertedType
	put := func(st *State, v Val, ok *Cond) {
		if ins.CommaOk {
			x.set(st, ins, VTuple{f: []Val{v, VBool{ok}}})
		} else {
			x.set(st, ins, v)
		}
	}
	switch v := x.val(s, ins.X).(type) {
	case VIface:
		ok := false
		if v.typ != nil {
			if it, isI := t.Underlying().(*types.Interface); isI {
				ok = types.Implements(v.typ, it)
			} else {
				ok = types.Identical(v.typ, t)
			}
		}
		if ok {
			if types.IsInterface(t) {
				put(s, v, condT)
			} else {
				put(s, v.v, condT)
			}
			return []*State{s}
		}
		if ins.CommaOk {
			put(s, x.zero(t), condF)
			return []*State{s}
		}
		x.oblige(s, condF, "type assertion", ins, "the value does not have type "+t.String())
		return nil
	case VTerm:
		c := &Cond{k: cdAtom, atom: "is:" + t.String() + ":" + v.key}
		if x.assertOK != nil && x.assertOK(x, s, v, t) {
			// the static type of what is stored there is known; nil does not satisfy any assertion
			c = x.isNil(s, v).not()
		}
		var r Val
		if types.IsInterface(t) {
			r = VTerm{key: v.key, typ: t, nn: 1}
		}
		if ins.CommaOk {
			a, b := x.split(s, c)
			var out []*State
			if a != nil {
				if r == nil {
					r = x.termVal(a, v.key+".("+t.String()+")", t)
				}
				put(a, r, condT)
				out = append(out, a)
			}
			if b != nil {
				put(b, x.zero(t), condF)
				out = append(out, b)
			}
			return out
		}
		if !x.oblige(s, c, "type assertion", ins, "the value may not have type "+t.String()) {
			return nil
		}
		if r == nil {
			r = x.termVal(s, v.key+".("+t.String()+")", t)
		}
		put(s, r, condT)
		return []*State{s}
	}
	panic(giveUp{"type assertion"})
}

// callee evaluates the called function value (or the receiver of an interface method).
func (x *Exec) callee(s *State, c *ssa.CallCommon, ins ssa.Instruction) Val {
	v := x.val(s, c.Value)
	if c.IsInvoke() {
		if !x.oblige(s, x.isNil(s, v).not(), "nil", ins, "method call on a nil interface") {
			return nil
		}
		return v
	}
	if f, ok := v.(VFunc); ok && f.isNil {
		x.oblige(s, condF, "nil", ins, "call of a nil function")
		return nil
	}
	return v
}

func (x *Exec) callVal(s *State, c *ssa.CallCommon, f Val, args []Val, site ssa.CallInstruction) []ret {
	if c.IsInvoke() {
		if v, ok := f.(VIface); ok {
			m := x.p.SSA.LookupMethod(v.typ, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				panic(giveUp{"method " + c.Method.Name()})
			}
			return x.callFunc(s, m, append([]Val{v.v}, args...), nil, site)
		}
		if x.invoke != nil {
			if r, ok := x.invoke(x, s, f, c.Method, args, site); ok {
				return r
			}
		}
		if t, ok := f.(VTerm); ok {
			if m := x.models["("+c.Value.Type().String()+")."+c.Method.Name()]; m != nil {
				return m(x, s, append([]Val{t}, args...), site)
			}
		}
		x.undecided(site, "method "+c.Method.FullName()+" of an unknown value")
		return []ret{{s, x.fresh(s, resultType(c.Signature()), c.Method.Name())}}
	}
	switch fv := f.(type) {
	case VFunc:
		if strings.HasPrefix(fv.id, "builtin ") {
			return x.builtin(s, strings.TrimPrefix(fv.id, "builtin "), c, args, site)
		}
		if fv.fn != nil {
			return x.callFunc(s, fv.fn, args, fv.bind, site)
		}
		if x.callFn != nil {
			if r, ok := x.callFn(x, s, fv, args, site); ok {
				return r
			}
		}
		// a predicate on an integer is taken as a function of its argument
		if len(args) == 1 && isBoolT(resultType(c.Signature())) {
			if a, ok := args[0].(VInt); ok {
				return []ret{{s, VBool{&Cond{k: cdAtom, atom: fv.id, args: []Lin{a.e}}}}}
			}
		}
		x.undecided(site, "call of an unknown function")
		return []ret{{s, x.fresh(s, resultType(c.Signature()), "call")}}
	}
	panic(giveUp{fmt.Sprintf("call of %T", f)})
}

func (x *Exec) callFunc(s *State, f *ssa.Function, args, bind []Val, site ssa.CallInstruction) []ret {
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if m := x.models[name]; m != nil {
		return m(x, s, args, site)
	}
	if x.override != nil {
		if r, ok := x.override(x, s, f, args, site); ok {
			return r
		}
	}
	if f.Name() == "init" && f.Synthetic != "" { // of an imported package
		return []ret{{s, VTuple{}}}
	}
	if x.coarse && f.Pkg != nil && f.Pkg.Pkg.Path() == "unicode/utf8" && f.Name() == "RuneLen" {
		k := "RuneLen(" + s.sys.norm(args[0].(VInt).e).key() + ")"
		v, ok := s.memoKey(k)
		if !ok {
			v = x.symInt(s, types.Typ[types.Int], k)
			x.assume(s, ge(v.(VInt).e.AddK(1)))
			x.assume(s, ge(K(4).Sub(v.(VInt).e)))
			s.setMemoKey(k, v)
		}
		return []ret{{s, v}}
	}
	if f.Blocks != nil && (x.p.InModule(f) || inlinable(f)) {
		if x.modular != nil && bind == nil && !x.constMode && x.modular(f) {
			if r, ok := x.summarised(s, f, args); ok {
				return r
			}
		}
		return x.call(s, f, args, bind, site)
	}
	if f.Blocks != nil && f.Synthetic != "" { // wrappers, thunks, bound methods
		return x.call(s, f, args, bind, site)
	}
	if m, ok := predModel(f); ok {
		return m(x, s, args, site)
	}
	if x.inInit {
		return []ret{{s, x.externResult(s, f, args, name)}}
	}
	if pureStd(f) {
		return []ret{{s, x.externResult(s, f, args, name)}}
	}
	x.undecided(site, "call of "+name+", which has no model")
	return []ret{{s, x.fresh(s, resultType(f.Signature), f.Name())}}
}

// externResult is the result of a pure external function: a function of its arguments.
func (x *Exec) externResult(s *State, f *ssa.Function, args []Val, name string) Val {
	var ks []string
	for _, a := range args {
		ks = append(ks, valKey(s, a))
	}
	key := x.tkey(name, ks...)
	t := resultType(f.Signature)
	mk := func(k string, t types.Type) Val {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map:
			nn := int8(0)
			if x.inInit {
				nn = 1
			}
			return VTerm{key: k, typ: t, nn: nn}
		case *types.Basic, *types.Struct, *types.Slice:
			if m, ok := s.memoKey(k); ok {
				return m
			}
			var v Val
			if isIntT(t) || isStringT(t) || isBoolT(t) {
				v = x.fresh(s, t, k)
			} else if _, isS := t.Underlying().(*types.Slice); isS {
				v = x.fresh(s, t, f.Name())
			} else {
				v = VTerm{key: k, typ: t}
			}
			s.setMemoKey(k, v)
			return v
		}
		return x.fresh(s, t, k)
	}
	if tt, ok := t.(*types.Tuple); ok {
		v := VTuple{}
		for i := 0; i < tt.Len(); i++ {
			v.f = append(v.f, mk(fmt.Sprintf("%s#%d", key, i), tt.At(i).Type()))
		}
		return v
	}
	return mk(key, t)
}

func (x *Exec) builtin(s *State, name string, c *ssa.CallCommon, args []Val, site ssa.CallInstruction) []ret {
	r := func(v Val) []ret { return []ret{{s, v}} }
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case VSlice:
			if name == "len" {
				return r(VInt{s.sys.norm(v.ln)})
			}
			return r(VInt{s.sys.norm(v.cp)})
		case VStr:
			return r(VInt{v.ln})
		case VStruct:
			return r(VInt{K(int64(len(v.f)))})
		case VMap:
			if v.obj == 0 {
				return r(VInt{K(0)})
			}
			if o := x.obj(s, v.obj); !o.mopen {
				return r(VInt{K(int64(len(o.mk)))})
			}
		case VPtr:
			if a, ok := arrayOf(c.Args[0].Type().Underlying().(*types.Pointer).Elem()); ok {
				return r(VInt{K(a.Len())})
			}
		}
		return r(VInt{x.symLen(s, "len")})
	case "append":
		dst := args[0].(VSlice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if str, ok := args[1].(VStr); ok {
			o := &Obj{arr: true, typ: et, n: str.ln, ck: cRope, segs: str.segs, tot: str.ln, top: !str.sok}
			args[1] = VSlice{obj: x.newObj(s, o), off: K(0), ln: str.ln, cp: str.ln}
		}
		src := args[1].(VSlice)
		elems, known := x.concElems(s, src)
		var res VSlice
		if known {
			if x.onAppend != nil {
				x.onAppend(x, s, dst, elems, nil, site)
			}
			res = x.appendTo(s, dst, et, elems, nil, site)
		} else {
			if x.onAppend != nil {
				x.onAppend(x, s, dst, nil, x.contentOf(s, src), site)
			}
			res = x.appendTo(s, dst, et, nil, &src, site)
			if dst.obj == 0 { // append(nil, x...) is nil when x is empty
				e, n := x.split(s, &Cond{k: cdEQ, l: src.ln})
				var out []ret
				if e != nil {
					out = append(out, ret{e, VSlice{}})
				}
				if n != nil {
					out = append(out, ret{n, res})
				}
				return out
			}
		}
		return r(res)
	case "copy":
		return x.copyBuiltin(s, args, c, site)
	case "delete":
		if m, ok := args[0].(VMap); ok && m.obj != 0 {
			o := x.wobj(s, m.obj)
			if key, ok := constKey(s, args[1]); ok && !o.mopen {
				delete(o.mk, key)
			} else {
				o.mk, o.mopen = map[string]Val{}, true
			}
		}
		return r(VTuple{})
	case "min", "max":
		cur := []ret{{s, args[0]}}
		for _, a := range args[1:] {
			var next []ret
			for _, q := range cur {
				ai, ok1 := q.v.(VInt)
				bi, ok2 := a.(VInt)
				if !ok1 || !ok2 {
					return r(VTerm{key: x.tkey(name, valKey(s, args[0]), valKey(s, a))})
				}
				d := bi.e.Sub(ai.e)
				if name == "max" {
					d = d.Neg()
				}
				t, f := x.split(q.s, ge(d)) // keep ai
				if t != nil {
					next = append(next, ret{t, ai})
				}
				if f != nil {
					next = append(next, ret{f, bi})
				}
			}
			cur = next
		}
		return cur
	case "print", "println", "ssa:wrapnilchk", "clear":
		if name == "ssa:wrapnilchk" {
			return r(args[0])
		}
		return r(VTuple{})
	}
	panic(giveUp{"builtin " + name})
}

// concElems lists the elements of a slice when they are known one by one.
func (x *Exec) concElems(s *State, v VSlice) ([]Val, bool) {
	n := s.sys.norm(v.ln)
	if !n.isConst() || n.c > 16 {
		return nil, false
	}
	if n.c == 0 || v.obj == 0 {
		return nil, true
	}
	o := x.obj(s, v.obj)
	lo := s.sys.norm(v.off)
	if !lo.isConst() {
		return nil, false
	}
	if o.ck == cRope && !o.top && int64(len(o.segs)) >= lo.c+n.c {
		var out []Val
		for _, g := range o.segs[:lo.c+n.c] {
			if g.k != segElem {
				return nil, false
			}
			out = append(out, g.v)
		}
		return out[lo.c:], true
	}
	if o.ck != cConc {
		return nil, false
	}
	return o.el[lo.c : lo.c+n.c : lo.c+n.c], true
}

func (x *Exec) copyBuiltin(s *State, args []Val, c *ssa.CallCommon, site ssa.Instruction) []ret {
	dst := args[0].(VSlice)
	var src VSlice
	if str, ok := args[1].(VStr); ok {
		o := &Obj{arr: true, typ: types.Typ[types.Byte], n: str.ln, ck: cRope, segs: str.segs, tot: str.ln, top: !str.sok}
		src = VSlice{obj: x.newObj(s, o), off: K(0), ln: str.ln, cp: str.ln}
	} else {
		src = args[1].(VSlice)
	}
	full, part := x.split(s, ge(dst.ln.Sub(src.ln)))
	var out []ret
	do := func(t *State, n Lin, all bool) {
		if dst.obj != 0 && !t.sys.entailsEQ(n) {
			if o := x.obj(t, dst.obj); o.ck == cList && !o.top && t.sys.entailsEQ(dst.off.Sub(o.tot)) {
				if segs, ok := x.listSegs(t, VSlice{obj: src.obj, off: src.off, ln: n, cp: src.cp}); ok {
					o = x.wobj(t, dst.obj)
					o.segs = x.normSegs(t, append(o.segs[:len(o.segs):len(o.segs)], segs...))
					o.tot = t.sys.norm(o.tot.Add(n))
					out = append(out, ret{t, VInt{t.sys.norm(n)}})
					return
				}
			}
			x.clobber(t, dst.obj, site)
			o := x.wobj(t, dst.obj)
			segs := x.contentOf(t, VSlice{obj: src.obj, off: src.off, ln: n, cp: src.cp})
			switch {
			case o.ck == cRope && !o.top && t.sys.entailsEQ(dst.off.Sub(o.tot)) && segsKnown(segs):
				o.segs = x.normSegs(t, append(o.segs[:len(o.segs):len(o.segs)], segs...))
				o.tot = t.sys.norm(o.tot.Add(n))
			case o.ck == cConc && t.sys.norm(n).isConst() && t.sys.norm(dst.off).isConst():
				k, at := t.sys.norm(n).c, t.sys.norm(dst.off).c
				for i := int64(0); i < k; i++ {
					o.el[at+i] = x.elem(t, src.obj, src.off.AddK(i))
				}
			case o.ck == cRope || o.ck == cList:
				o.segs, o.top = nil, true
			default:
				o.ck, o.el = cAny, nil
				t.dropElts(dst.obj)
			}
		}
		out = append(out, ret{t, VInt{t.sys.norm(n)}})
	}
	if full != nil {
		do(full, src.ln, true)
	}
	if part != nil {
		do(part, dst.ln, false)
	}
	return out
}
