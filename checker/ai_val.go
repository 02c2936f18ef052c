package main

// Abstract values, heap and states of the abstract interpreter.

import (
	"fmt"
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type (
	VInt  struct{ e Lin }
	VBool struct{ c *Cond }
	pel   struct { // element of an access path: a field, or an element of an array
		f   int
		idx *Lin
	}
	VPtr struct { // obj 0 is the nil pointer
		obj  int
		path []pel
	}
	VSlice struct { // obj 0 is the nil slice; nk, when set, is the atom that tells whether it is nil
		obj         int
		off, ln, cp Lin
		nk          string
	}
	VStr struct { // a string: a constant, or an opaque identity, with the sequences it encodes when known
		k    *string
		id   string
		ln   Lin
		segs []Seg
		sok  bool // segs are known
	}
	VIface struct { // typ nil: the nil interface
		typ types.Type
		v   Val
	}
	VFunc struct {
		fn    *ssa.Function
		bind  []Val
		id    string // opaque function value
		isNil bool
	}
	VStruct struct{ f []Val }
	VTuple  struct{ f []Val }
	VTerm   struct { // an opaque value, equal to the values with the same key
		key string
		nn  int8 // 1: not nil, -1: nil, 0: unknown
		typ types.Type
	}
	VMap  struct{ obj int }
	VLazy struct{} // a location not read yet: any value of its type
	VIter struct { // iterator of a range over a map or a string
		obj int
	}
)

type segKind uint8

const (
	segView segKind = iota // elements lo..hi of the source
	segEnc                 // UTF-8 encoding of the elements lo..hi of the source
	segElem                // one value
	segEncV                // UTF-8 encoding of one rune value
	segUnk
)

type Seg struct {
	k      segKind
	src    int
	lo, hi Lin
	v      Val
	cnst   string // segEnc of constant text
}

type contKind uint8

const (
	cAny  contKind = iota // any elements
	cConc                 // known elements
	cSrc                  // an unknown sequence, never written
	cRope                 // the concatenation of segs, then unknown
	cList                 // parts whose concatenation is segs
	cZero                 // zero values
)

type Obj struct {
	own   int64
	arr   bool
	typ   types.Type // type of the cell, or of the elements
	val   Val
	n     Lin // extent of an array
	ck    contKind
	el    []Val
	segs  []Seg
	tot   Lin  // elements in the rope or list
	top   bool // the segs of the rope or list are not known
	name  string
	mk    map[string]Val // entries of a map with constant keys
	mopen bool           // the map may hold other entries
	isMap bool
	kept  bool // the elements of a list refer to this array
	cur   bool // parts of the list are read: the boundary before part curI is at curP
	curI  Lin
	curP  Lin
}

type condKind uint8

const (
	cdTrue condKind = iota
	cdFalse
	cdGE
	cdEQ
	cdNE
	cdAtom
)

type Cond struct {
	k    condKind
	l    Lin
	atom string
	args []Lin
	neg  bool
}

var condT, condF = &Cond{k: cdTrue}, &Cond{k: cdFalse}

func (c *Cond) not() *Cond {
	switch c.k {
	case cdTrue:
		return condF
	case cdFalse:
		return condT
	case cdGE: // l >= 0  ->  -l-1 >= 0
		return &Cond{k: cdGE, l: c.l.Neg().AddK(-1)}
	case cdEQ:
		return &Cond{k: cdNE, l: c.l}
	case cdNE:
		return &Cond{k: cdEQ, l: c.l}
	}
	n := *c
	n.neg = !n.neg
	return &n
}

func condOf(b bool) *Cond {
	if b {
		return condT
	}
	return condF
}

// Fact is the known truth of an opaque predicate on its arguments.
type Fact struct {
	atom string
	args []Lin
	val  bool
}

// RFact: for all (or for some) j in [lo,hi), pred(src[j]) == val.
type RFact struct {
	pred   string
	src    int
	lo, hi Lin
	val    bool
	exists bool
}

type Elt struct {
	obj int
	idx Lin
	v   Val
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	vals   []Val
	defers []*deferred
	parent *Frame
	site   ssa.Instruction
	depth  int
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	ins  ssa.Instruction
}

type State struct {
	own   int64
	sys   *Sys
	heap  map[int]*Obj
	facts []Fact
	rf    []RFact
	elts  []Elt
	tobj  map[string]int // objects behind opaque pointers
	fr    *Frame
	mon   map[string]Val // ghosts of the property
	pred  *ssa.BasicBlock
	ret   Val
	it    Lin // iteration counter of the innermost abstract loop
}

var ownCounter atomic.Int64

func (x *Exec) newState() *State {
	return &State{own: ownCounter.Add(1), sys: newSys(), heap: map[int]*Obj{}, tobj: map[string]int{}, mon: map[string]Val{}}
}

func (s *State) clone() *State {
	own := ownCounter.Add(2)
	n := &State{own: own, sys: s.sys, heap: make(map[int]*Obj, len(s.heap)+2), tobj: s.tobj, mon: s.mon, pred: s.pred, ret: s.ret, it: s.it}
	s.own = own - 1
	s.sys.shared = true
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	s.facts = n.facts
	n.rf = s.rf[:len(s.rf):len(s.rf)]
	s.rf = n.rf
	n.elts = s.elts[:len(s.elts):len(s.elts)]
	s.elts = n.elts
	for k, v := range s.heap {
		n.heap[k] = v
	}
	if s.fr != nil {
		f := *s.fr
		f.vals = append([]Val(nil), s.fr.vals...)
		f.defers = s.fr.defers[:len(s.fr.defers):len(s.fr.defers)]
		s.fr.defers = f.defers
		n.fr = &f
	}
	return n
}

func (s *State) wsys() *Sys {
	if s.sys.shared {
		s.sys = s.sys.clone()
	}
	return s.sys
}

func (s *State) setMon(k string, v Val) {
	m := make(map[string]Val, len(s.mon)+1)
	for a, b := range s.mon {
		m[a] = b
	}
	m[k] = v
	s.mon = m
}

func (x *Exec) obj(s *State, id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return x.base[id]
}

// wobj returns the object for writing.
func (x *Exec) wobj(s *State, id int) *Obj {
	o := x.obj(s, id)
	if o == nil {
		panic(fmt.Sprintf("no object %d", id))
	}
	if o.own == s.own {
		return o
	}
	n := *o
	n.own = s.own
	if o.el != nil {
		n.el = append([]Val(nil), o.el...)
	}
	n.segs = o.segs[:len(o.segs):len(o.segs)]
	if o.mk != nil {
		n.mk = map[string]Val{}
		for k, v := range o.mk {
			n.mk[k] = v
		}
	}
	s.heap[id] = &n
	return &n
}

func (x *Exec) newObj(s *State, o *Obj) int {
	x.nobj++
	o.own = s.own
	s.heap[x.nobj] = o
	return x.nobj
}

func (x *Exec) newSym(name string) Sym {
	x.nsym++
	x.symName[x.nsym] = name
	return x.nsym
}

const maxLen = 1 << 40

// symInt introduces an integer of the given type.
func (x *Exec) symInt(s *State, t types.Type, name string) VInt {
	y := x.newSym(name)
	lo, hi := intRange(t)
	if lo > negInf || hi < posInf {
		s.wsys().setBound(y, lo, hi)
	}
	return VInt{S(y)}
}

func (x *Exec) symLen(s *State, name string) Lin {
	y := x.newSym(name)
	s.wsys().setBound(y, 0, maxLen)
	return S(y)
}

// intRange is the range of an integer type, with infinite ends for 64 bits.
func intRange(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return negInf, posInf
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -1 << 15, 1<<15 - 1
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 1<<16 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, posInf
	}
	return negInf, posInf
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fresh is any value of type t.
func (x *Exec) fresh(s *State, t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return x.symInt(s, t, name)
		case u.Info()&types.IsBoolean != 0:
			return VBool{&Cond{k: cdAtom, atom: x.uniq("b:" + name)}}
		case u.Info()&types.IsString != 0:
			return x.freshStr(s, name)
		}
		return VTerm{key: x.uniq(name), typ: t}
	case *types.Slice:
		return x.freshSlice(s, u.Elem(), name)
	case *types.Struct:
		v := VStruct{f: make([]Val, u.NumFields())}
		for i := range v.f {
			v.f[i] = x.fresh(s, u.Field(i).Type(), name+"."+u.Field(i).Name())
		}
		return v
	case *types.Array:
		if u.Len() <= 64 {
			v := VStruct{f: make([]Val, u.Len())}
			for i := range v.f {
				v.f[i] = x.fresh(s, u.Elem(), fmt.Sprintf("%s[%d]", name, i))
			}
			return v
		}
	case *types.Signature:
		return VFunc{id: x.uniq("func " + name)}
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.f = append(v.f, x.fresh(s, u.At(i).Type(), fmt.Sprintf("%s#%d", name, i)))
		}
		return v
	}
	return VTerm{key: x.uniq(name), typ: t}
}

func (x *Exec) uniq(name string) string {
	x.nuniq++
	if len(name) > 60 {
		name = name[:60]
	}
	return fmt.Sprintf("%s~%d", name, x.nuniq)
}

func (x *Exec) freshStr(s *State, name string) Val {
	return VStr{id: x.uniq(name), ln: x.symLen(s, "len("+name+")")}
}

// freshSlice is any slice: an unknown sequence of its own.
func (x *Exec) freshSlice(s *State, elem types.Type, name string) VSlice {
	n := x.symLen(s, "len("+name+")")
	c := x.symLen(s, "cap("+name+")")
	s.wsys().addGE(c.Sub(n))
	ck := cSrc
	if x.anyNums && numType(elem) {
		ck = cAny
	}
	id := x.newObj(s, &Obj{arr: true, typ: elem, n: c, ck: ck, name: name})
	nk := x.uniq("nil:" + name)
	x.nkLen[nk] = [2]Lin{n, c}
	return VSlice{obj: id, off: K(0), ln: n, cp: c, nk: nk}
}

// zero is the zero value of type t.
func (x *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return VInt{K(0)}
		case u.Info()&types.IsBoolean != 0:
			return VBool{condF}
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Kind() == types.UnsafePointer:
			return VPtr{}
		}
		return VTerm{key: "0", typ: t}
	case *types.Slice:
		return VSlice{}
	case *types.Pointer:
		return VPtr{}
	case *types.Interface:
		return VIface{}
	case *types.Map:
		return VMap{}
	case *types.Signature:
		return VFunc{isNil: true}
	case *types.Struct:
		v := VStruct{f: make([]Val, u.NumFields())}
		for i := range v.f {
			v.f[i] = x.zero(u.Field(i).Type())
		}
		return v
	case *types.Array:
		if u.Len() <= 4096 {
			v := VStruct{f: make([]Val, u.Len())}
			for i := range v.f {
				v.f[i] = x.zero(u.Elem())
			}
			return v
		}
	case *types.Tuple:
		v := VTuple{}
		for i := 0; i < u.Len(); i++ {
			v.f = append(v.f, x.zero(u.At(i).Type()))
		}
		return v
	}
	return VTerm{key: "zero:" + t.String(), nn: -1, typ: t}
}

func constStr(k string) VStr {
	v := VStr{k: &k, ln: K(int64(len(k))), sok: true}
	if k != "" {
		v.segs = []Seg{{k: segEnc, src: 0, cnst: k}}
	}
	return v
}

// decide tells whether c holds (1), does not (-1), or either (0).
func (x *Exec) decide(s *State, c *Cond) int {
	switch c.k {
	case cdTrue:
		return 1
	case cdFalse:
		return -1
	case cdGE:
		if s.sys.entails(c.l) {
			return 1
		}
		if s.sys.entails(c.l.Neg().AddK(-1)) {
			return -1
		}
		return 0
	case cdEQ, cdNE:
		r := 0
		l := s.sys.norm(c.l)
		if l.isConst() {
			r = -1
			if l.c == 0 {
				r = 1
			}
		} else if s.sys.entailsNE(l) {
			r = -1
		} else if s.sys.entailsEQ(l) {
			r = 1
		}
		if c.k == cdNE {
			return -r
		}
		return r
	case cdAtom:
		r := x.atomTruth(s, c.atom, c.args)
		if c.neg {
			return -r
		}
		return r
	}
	return 0
}

func (x *Exec) atomTruth(s *State, atom string, args []Lin) int {
	if len(args) == 1 {
		a := s.sys.norm(args[0])
		if f, ok := constPreds[atom]; ok && a.isConst() && a.c >= -1<<31 && a.c < 1<<31 {
			if f(rune(a.c)) {
				return 1
			}
			return -1
		}
		if d, ok := x.derived[atom]; ok {
			if t := d(x, s, a); t != 0 {
				return t
			}
		}
	}
	var miss []int
	for i := len(s.facts) - 1; i >= 0; i-- {
		f := &s.facts[i]
		if f.atom != atom || len(f.args) != len(args) {
			continue
		}
		same := true
		for j := range args {
			if !s.sys.norm(args[j]).eq(s.sys.norm(f.args[j])) {
				same = false
			}
		}
		if same {
			return tv(f.val)
		}
		miss = append(miss, i)
	}
	for _, i := range miss {
		f := &s.facts[i]
		same := true
		for j := range args {
			if !s.sys.entailsEQ(args[j].Sub(f.args[j])) {
				same = false
				break
			}
		}
		if same {
			return tv(f.val)
		}
	}
	return 0
}

func tv(b bool) int {
	if b {
		return 1
	}
	return -1
}

// assume adds the condition; false when the state becomes infeasible.
func (x *Exec) assume(s *State, c *Cond) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = true // nothing is assumed
		}
	}()
	switch c.k {
	case cdTrue:
		return true
	case cdFalse:
		return false
	case cdGE:
		w := s.wsys()
		return w.addGE(c.l) && w.feasible()
	case cdEQ:
		w := s.wsys()
		return w.addEQ(c.l) && w.feasible()
	case cdNE:
		w := s.wsys()
		return w.addNE(c.l) && w.feasible()
	case cdAtom:
		t := x.decide(s, c)
		if t != 0 {
			return t > 0
		}
		s.facts = append(s.facts, Fact{c.atom, c.args, !c.neg})
		if h := x.onFact[prefixOf(c.atom)]; h != nil {
			return h(x, s, c.atom, c.args, !c.neg)
		}
		return true
	}
	return true
}

func prefixOf(a string) string {
	if i := strings.IndexByte(a, ':'); i > 0 {
		return a[:i]
	}
	return ""
}

// isNil is the condition "v is nil".
func (x *Exec) isNil(s *State, v Val) *Cond {
	switch v := v.(type) {
	case VPtr:
		return condOf(v.obj == 0)
	case VSlice:
		if v.obj == 0 {
			return condT
		}
		if v.nk != "" {
			// a nil slice has no length and no capacity
			if s.sys.entails(v.cp.AddK(-1)) {
				return condF
			}
			return &Cond{k: cdAtom, atom: v.nk}
		}
		return condF
	case VIface:
		return condOf(v.typ == nil)
	case VFunc:
		if v.isNil {
			return condT
		}
		return condF
	case VMap:
		return condOf(v.obj == 0)
	case VTerm:
		switch v.nn {
		case 1:
			return condF
		case -1:
			return condT
		}
		return &Cond{k: cdAtom, atom: "isnil:" + v.key}
	}
	return &Cond{k: cdAtom, atom: x.uniq("isnil?")}
}
