package main

// Summaries: a function is analysed once, from an entry state that generalises
// the calls met so far, and its results are instantiated at each call.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type summary struct {
	busy, bad bool
	pre       []Lin // >= 0, over the symbols of the entry
	cells     []Sym
	objs      []int
	strs      []string
	out       []ret
}

// entry describes the arguments of a call: their shape, and what varies.
type entry struct {
	x      *Exec
	s      *State // of the call
	ns     *State // of the entry, when it is built
	shape  strings.Builder
	cells  []Lin    // actual values
	objs   []int    // actual objects
	off    []Lin    // start, in the actual arrays, of those of the entry
	strs   []string // actual keys
	seen   map[int]int
	syms   []Sym
	gobj   []int
	gstr   []string
	bad    bool
	consts bool // constants are part of the shape
}

func (e *entry) p(f string, a ...any) { fmt.Fprintf(&e.shape, f, a...) }

func (e *entry) cell(l Lin, t types.Type, name string) Lin {
	e.cells = append(e.cells, e.s.sys.norm(l))
	e.p("i")
	if e.ns == nil {
		return Lin{}
	}
	var g Lin
	if t == nil {
		g = e.x.symLen(e.ns, name)
	} else {
		g = e.x.symInt(e.ns, t, name).e
	}
	y, _ := g.single()
	e.syms = append(e.syms, y)
	return g
}

func (e *entry) str(k, name string) string {
	e.strs = append(e.strs, k)
	if e.ns == nil {
		return ""
	}
	g := e.x.uniq(name)
	e.gstr = append(e.gstr, g)
	return g
}

func (e *entry) val(v Val, t types.Type, name string) Val {
	x, s := e.x, e.s
	switch v := v.(type) {
	case nil:
		return nil
	case VInt:
		l := s.sys.norm(v.e)
		if _, named := t.(*types.Named); (named || e.consts) && l.isConst() {
			e.p("=%d", l.c)
			return VInt{l}
		}
		return VInt{e.cell(l, t, name)}
	case VBool:
		switch x.decide(s, v.c) {
		case 1:
			e.p("T")
			return VBool{condT}
		case -1:
			e.p("F")
			return VBool{condF}
		}
		e.p("b")
		return VBool{&Cond{k: cdAtom, atom: x.uniq("b:" + name)}}
	case VPtr:
		if v.obj == 0 {
			e.p("0")
			return v
		}
		if len(v.path) > 0 {
			e.bad = true
			return v
		}
		e.p("&")
		return VPtr{obj: e.visit(v.obj, Lin{}, name)}
	case VSlice:
		if v.obj == 0 {
			e.p("s0")
			return v
		}
		o, local := s.heap[v.obj]
		d := x.decide(s, x.isNil(s, v))
		e.p("s%d", d)
		r := VSlice{off: K(0)}
		if !local {
			e.p("#%d", v.obj)
			r.obj = v.obj
			r.off = e.cell(v.off, nil, name+".off")
		} else {
			if !o.arr || !x.plainArr(o) {
				e.bad = true
				return v
			}
			r.obj = e.visit(v.obj, s.sys.norm(v.off), name)
		}
		r.ln = e.cell(v.ln, nil, "len("+name+")")
		r.cp = e.cell(v.cp, nil, "cap("+name+")")
		if e.ns != nil {
			w := e.ns.wsys()
			w.addGE(r.cp.Sub(r.ln))
			if local {
				w.addGE(e.ns.heap[r.obj].n.Sub(r.cp))
			}
		}
		switch {
		case d == 0:
			r.nk = e.str(v.nk, "nil:"+name)
			x.nkLen[r.nk] = [2]Lin{r.ln, r.cp}
		case d > 0:
			e.bad = true
		}
		return r
	case VStr:
		if v.k != nil {
			e.p("%q", *v.k)
			return v
		}
		if v.sok || len(v.segs) > 0 {
			e.bad = true
			return v
		}
		e.p("str")
		return VStr{id: e.str(v.id, name), ln: e.cell(v.ln, nil, "len("+name+")")}
	case VIface:
		if v.typ == nil {
			e.p("nil")
			return v
		}
		e.p("%s(", v.typ)
		r := VIface{v.typ, e.val(v.v, v.typ, name)}
		e.p(")")
		return r
	case VFunc:
		if len(v.bind) > 0 {
			e.bad = true
		}
		if v.fn != nil {
			e.p("fn %s", v.fn)
		} else {
			e.p("fn %v%s", v.isNil, v.id)
		}
		return v
	case VStruct:
		e.p("{")
		r := VStruct{f: make([]Val, len(v.f))}
		for i, f := range v.f {
			r.f[i] = e.val(f, fieldType(t, i), fmt.Sprintf("%s.%d", name, i))
		}
		e.p("}")
		return r
	case VTerm:
		e.p("t%d", v.nn)
		return VTerm{key: e.str(v.key, name), nn: v.nn, typ: v.typ}
	case VMap:
		if v.obj != 0 {
			if _, local := s.heap[v.obj]; local {
				e.bad = true
			}
		}
		e.p("m%d", v.obj)
		return v
	}
	e.bad = true
	return v
}

// plainArr: arrays that are known by their elements, never changed, or not
// followed at all.
func (x *Exec) plainArr(o *Obj) bool {
	return o.ck == cSrc || o.ck == cAny && x.anyNums && numType(o.typ)
}

// visit gives the object of the entry that stands for an object of the call.
func (e *entry) visit(id int, off Lin, name string) int {
	if k, ok := e.seen[id]; ok {
		e.p("@%d", k)
		if !e.off[k].eq(off) {
			e.bad = true
		}
		if e.ns == nil {
			return 0
		}
		return e.gobj[k]
	}
	o, local := e.s.heap[id]
	if !local {
		e.p("#%d", id)
		return id
	}
	k := len(e.objs)
	e.seen[id] = k
	e.objs = append(e.objs, id)
	e.off = append(e.off, off)
	if o.isMap {
		e.bad = true
		return 0
	}
	if o.arr {
		if !e.x.plainArr(o) {
			e.bad = true
			return 0
		}
		e.p("S%d%s", o.ck, o.typ)
		n := e.cell(o.n.Sub(off), nil, "cap("+name+")")
		if e.ns == nil {
			return 0
		}
		g := e.x.newObj(e.ns, &Obj{arr: true, typ: o.typ, n: n, ck: o.ck, name: name})
		e.gobj = append(e.gobj, g)
		return g
	}
	e.p("C")
	if e.ns == nil {
		e.val(o.val, o.typ, name)
		return 0
	}
	g := e.x.newObj(e.ns, &Obj{typ: o.typ, name: o.name})
	e.gobj = append(e.gobj, g)
	v := e.val(o.val, o.typ, name)
	e.x.wobj(e.ns, g).val = v
	return g
}

func (x *Exec) entryOf(s *State, f *ssa.Function, args []Val, ns *State) (*entry, []Val) {
	e := &entry{x: x, s: s, ns: ns, seen: map[int]int{}, consts: len(x.info(f).loops) == 0}
	var vs []Val
	for i, a := range args {
		e.p("|")
		vs = append(vs, e.val(a, f.Params[i].Type(), f.Params[i].Name()))
	}
	return e, vs
}

// instPre is a constraint on the symbols of an entry, on the values of a call.
func instPre(l Lin, syms []Sym, cells []Lin) Lin {
	r := K(l.c)
	for _, t := range l.t {
		for i, y := range syms {
			if y == t.s {
				r = r.Add(cells[i].Mul(t.k))
			}
		}
	}
	return r
}

// summarised gives the results of a call from the summary of the function.
func (x *Exec) summarised(s *State, f *ssa.Function, args []Val) (res []ret, ok bool) {
	for id := range s.heap {
		if _, over := x.base[id]; over {
			return nil, false
		}
	}
	e, _ := x.entryOf(s, f, args, nil)
	if e.bad {
		if x.debug {
			fmt.Println("SUMMARY impossible", f, e.shape.String())
		}
		return nil, false
	}
	key := f.String() + e.shape.String()
	m := x.sums[key]
	if m == nil {
		m = &summary{}
		x.sums[key] = m
	}
	if m.bad || m.busy {
		return nil, false
	}
	var pre []Lin // over the indices of the cells
	if m.cells == nil {
		ys := make([]Sym, len(e.cells))
		for i := range ys {
			ys[i] = cs(i)
		}
		for i := range e.cells {
			for j := -1; j < len(e.cells); j++ {
				if i == j {
					continue
				}
				d, g := e.cells[i], S(ys[i])
				if j >= 0 {
					d, g = d.Sub(e.cells[j]), g.Sub(S(ys[j]))
				}
				if !s.sys.entails(d) {
					continue
				}
				if s.sys.entails(d.AddK(-1)) {
					g = g.AddK(-1)
				}
				pre = append(pre, g)
			}
		}
	} else {
		all := true
		for _, l := range m.pre {
			if s.sys.entails(instPre(l, m.cells, e.cells)) {
				pre = append(pre, l)
			} else if l = l.AddK(1); s.sys.entails(instPre(l, m.cells, e.cells)) {
				pre = append(pre, l)
				all = false
			} else {
				all = false
			}
		}
		if !all {
			for k := range pre { // over the indices of the cells
				ys := make([]Lin, len(m.cells))
				for i := range ys {
					ys[i] = S(cs(i))
				}
				pre[k] = instPre(pre[k], m.cells, ys)
			}
			m.cells = nil
		}
	}
	if m.cells == nil && !x.summarise(m, s, f, args, pre) {
		if x.debug {
			fmt.Println("SUMMARY bad", f, e.shape.String())
		}
		m.bad = true
		return nil, false
	}
	return x.instantiate(m, s, e), true
}

func (x *Exec) summarise(m *summary, s *State, f *ssa.Function, args []Val, pre []Lin) (ok bool) {
	ns := x.newState()
	e, gargs := x.entryOf(s, f, args, ns)
	ys := make([]Sym, len(e.syms))
	vals := make([]Lin, len(e.syms))
	for i := range ys {
		ys[i], vals[i] = cs(i), S(e.syms[i])
	}
	m.pre = nil
	for _, l := range pre {
		l = instPre(l, ys, vals)
		m.pre = append(m.pre, l)
		ns.wsys().addGE(l)
	}
	m.cells, m.objs, m.strs = e.syms, e.gobj, e.gstr
	if m.cells == nil {
		m.cells = []Sym{}
	}
	n := map[int]Lin{}
	for _, g := range m.objs {
		if o := ns.heap[g]; o.arr {
			n[g] = o.n
		}
	}
	roots, limits, nlog, partSegs := x.roots, x.limits, len(x.log), x.partSegs
	m.busy = true
	x.inSum++
	defer func() {
		m.busy = false
		x.inSum--
		x.roots, x.limits, x.partSegs = roots, limits, partSegs
		if len(x.log) > nlog {
			if x.debug {
				fmt.Printf("SUMMARY of %s refused: %v\n", f, x.log[nlog])
			}
			x.log = x.log[:nlog]
			ok = false
		}
	}()
	x.roots, x.limits = append([]int(nil), m.objs...), nil
	m.out = x.call(ns, f, gargs, nil, nil)
	if x.saturate != nil {
		for _, q := range m.out {
			x.saturate(x, q.s)
		}
	}
	if len(m.out) > x.joinAt {
		var in []*State
		for _, q := range m.out {
			q.s.ret = q.v
			q.s.fr = &Frame{fn: f, info: x.info(f), vals: make([]Val, len(x.info(f).idx))}
			in = append(in, q.s)
		}
		m.out = nil
		in = x.joinReturns(in)
		for _, q := range in {
			m.out = append(m.out, ret{q, q.ret})
			q.ret, q.fr = nil, nil
		}
	}
	for _, q := range m.out {
		for id := range q.s.heap {
			if _, over := x.base[id]; over {
				return false
			}
		}
		if len(q.s.tobj) > 0 {
			return false
		}
		for g, l := range n {
			if o := q.s.heap[g]; !x.plainArr(o) || !q.s.sys.norm(o.n).eq(q.s.sys.norm(l)) {
				return false
			}
		}
	}
	if x.debug {
		fmt.Printf("SUMMARY of %s: %d outcomes, pre %v\n", f, len(m.out), m.pre)
		for _, q := range m.out {
			fmt.Printf("  OUTCOME %v\n    FACTS %v\n    ELTS %v\n    RF %v\n    SYS %v\n", q.v, q.s.facts, q.s.elts, q.s.rf, q.s.sys)
		}
	}
	return true
}

// inst instantiates one outcome of a summary.
type inst1 struct {
	x    *Exec
	q, t *State
	sym  map[Sym]Lin
	obj  map[int]int
	off  map[int]Lin
	str  map[string]string
	suf  string
}

func (c *inst1) lin(l Lin) Lin {
	l = c.q.sys.norm(l)
	r := K(l.c)
	for _, t := range l.t {
		e, ok := c.sym[t.s]
		if !ok {
			e = S(c.x.newSym(c.x.symName[t.s]))
			c.sym[t.s] = e
		}
		r = r.Add(e.Mul(t.k))
	}
	return r
}

// key translates the name of an opaque value or predicate: names made of what
// varies are made specific to the call.
func (c *inst1) key(k string) string {
	if k == "" {
		return ""
	}
	if r, ok := c.str[k]; ok {
		return r
	}
	for _, p := range []string{"isnil:"} {
		if strings.HasPrefix(k, p) {
			return p + c.key(k[len(p):])
		}
	}
	if !strings.ContainsAny(k, "~([&{") {
		return k
	}
	if _, ok := constPreds[k]; ok {
		return k
	}
	for _, p := range c.x.trackP {
		if p == k {
			return k
		}
	}
	r := k + c.suf
	c.str[k] = r
	if l, ok := c.x.nkLen[k]; ok {
		c.x.nkLen[r] = [2]Lin{c.lin(l[0]), c.lin(l[1])}
	}
	return r
}

func (c *inst1) id(id int) int {
	if id == 0 {
		return 0
	}
	if r, ok := c.obj[id]; ok {
		return r
	}
	o, local := c.q.heap[id]
	if !local {
		return id
	}
	n := *o
	r := c.x.newObj(c.t, &n)
	c.obj[id] = r
	n.n, n.tot = c.lin(o.n), c.lin(o.tot)
	n.curI, n.curP = c.lin(o.curI), c.lin(o.curP)
	n.val = c.val(o.val)
	n.el = nil
	for _, v := range o.el {
		n.el = append(n.el, c.val(v))
	}
	n.segs = c.segs(o.segs)
	n.mk = map[string]Val{}
	for k, v := range o.mk {
		n.mk[k] = c.val(v)
	}
	n.own = c.t.own
	c.t.heap[r] = &n
	return r
}

func (c *inst1) at(id int, l Lin) Lin {
	l = c.lin(l)
	if o, ok := c.off[id]; ok {
		l = l.Add(o)
	}
	return l
}

func (c *inst1) segs(in []Seg) []Seg {
	var out []Seg
	for _, g := range in {
		if g.src != 0 {
			g.lo, g.hi = c.at(g.src, g.lo), c.at(g.src, g.hi)
			g.src = c.id(g.src)
		} else {
			g.lo, g.hi = c.lin(g.lo), c.lin(g.hi)
		}
		g.v = c.val(g.v)
		out = append(out, g)
	}
	return out
}

func (c *inst1) cond(d *Cond) *Cond {
	n := *d
	n.l = c.lin(d.l)
	n.atom = c.key(d.atom)
	n.args = nil
	for _, a := range d.args {
		n.args = append(n.args, c.lin(a))
	}
	return &n
}

func (c *inst1) val(v Val) Val {
	switch v := v.(type) {
	case VInt:
		return VInt{c.lin(v.e)}
	case VBool:
		return VBool{c.cond(v.c)}
	case VPtr:
		if v.obj == 0 {
			return v
		}
		r := VPtr{obj: c.id(v.obj)}
		for _, e := range v.path {
			if e.idx != nil {
				l := c.at(v.obj, *e.idx)
				e.idx = &l
			}
			r.path = append(r.path, e)
		}
		return r
	case VSlice:
		if v.obj == 0 {
			return v
		}
		return VSlice{obj: c.id(v.obj), off: c.at(v.obj, v.off), ln: c.lin(v.ln), cp: c.lin(v.cp), nk: c.key(v.nk)}
	case VStr:
		if v.k != nil {
			return v
		}
		return VStr{id: c.key(v.id), ln: c.lin(v.ln), segs: c.segs(v.segs), sok: v.sok}
	case VIface:
		if v.typ != nil {
			v.v = c.val(v.v)
		}
		return v
	case VFunc:
		b := v.bind
		v.bind = nil
		for _, w := range b {
			v.bind = append(v.bind, c.val(w))
		}
		if v.fn == nil {
			v.id = c.key(v.id)
		}
		return v
	case VStruct:
		r := VStruct{f: make([]Val, len(v.f))}
		for i, f := range v.f {
			r.f[i] = c.val(f)
		}
		return r
	case VTuple:
		r := VTuple{f: make([]Val, len(v.f))}
		for i, f := range v.f {
			r.f[i] = c.val(f)
		}
		return r
	case VTerm:
		v.key = c.key(v.key)
		return v
	case VMap:
		return VMap{c.id(v.obj)}
	case VIter:
		return VIter{c.id(v.obj)}
	}
	return v
}

func (x *Exec) instantiate(m *summary, s *State, e *entry) []ret {
	var res []ret
	for _, q := range m.out {
		t := s.clone()
		x.nuniq++
		c := &inst1{x: x, q: q.s, t: t, sym: map[Sym]Lin{}, obj: map[int]int{}, off: map[int]Lin{}, str: map[string]string{}, suf: fmt.Sprintf("~%d", x.nuniq)}
		for i, y := range m.cells {
			c.sym[y] = e.cells[i]
		}
		for i, g := range m.objs {
			c.obj[g] = e.objs[i]
			c.off[g] = e.off[i]
		}
		for i, g := range m.strs {
			c.str[g] = e.strs[i]
		}
		if v, ok := c.apply(q, m, e); ok {
			res = append(res, ret{t, v})
		}
	}
	return res
}

func (c *inst1) apply(q ret, m *summary, e *entry) (v Val, ok bool) {
	t, y := c.t, q.s.sys
	// values first: the symbols in use are those of the values and of the elements read
	for i, y := range m.cells { // symbols of the entry that were solved
		if _, solved := q.s.sys.eqs[y]; solved {
			c.constrain(func(w *Sys) bool { return w.addEQ(c.lin(S(y)).Sub(e.cells[i])) })
		}
	}
	v = c.val(q.v)
	for i, g := range m.objs {
		if o := q.s.heap[g]; o.arr && o.ck == cAny {
			t.dropElts(e.objs[i])
		} else if !o.arr {
			nv := c.val(o.val)
			c.x.wobj(t, e.objs[i]).val = nv
		}
	}
	var elts []Elt
	for _, l := range q.s.elts {
		if l.obj <= 0 {
			continue
		}
		if _, known := c.obj[l.obj]; !known {
			if _, local := q.s.heap[l.obj]; local {
				continue
			}
		}
		elts = append(elts, Elt{c.id(l.obj), c.at(l.obj, l.idx), c.val(l.v)})
	}
	facts := make([]*Cond, 0, len(q.s.facts))
	for _, f := range q.s.facts {
		if strings.HasPrefix(f.atom, "label:") { // its arguments are places in the only array
			n, off := 0, Lin{}
			for _, g := range m.objs {
				if q.s.heap[g].arr {
					n, off = n+1, c.off[g]
				}
			}
			if n == 1 {
				var a []Lin
				for _, l := range f.args {
					a = append(a, c.lin(l).Add(off))
				}
				facts = append(facts, &Cond{k: cdAtom, atom: f.atom, args: a, neg: !f.val})
			}
			continue
		}
		facts = append(facts, c.cond(&Cond{k: cdAtom, atom: f.atom, args: f.args, neg: !f.val}))
	}
	rf := t.rf[:len(t.rf):len(t.rf)]
	for _, f := range q.s.rf {
		if _, known := c.obj[f.src]; !known {
			continue
		}
		rf = append(rf, RFact{pred: f.pred, src: c.id(f.src), lo: c.at(f.src, f.lo), hi: c.at(f.src, f.hi), val: f.val, exists: f.exists})
	}
	used := func(l Lin) bool {
		for _, k := range y.norm(l).t {
			if _, ok := c.sym[k.s]; !ok {
				return false
			}
		}
		return true
	}
	var syms []int
	for k := range c.sym {
		syms = append(syms, int(k))
	}
	sort.Ints(syms)
	for _, k := range syms {
		if _, solved := y.eqs[Sym(k)]; solved {
			continue
		}
		if b, ok := y.bnd[Sym(k)]; ok {
			l := c.sym[Sym(k)]
			if b.lo > negInf {
				c.constrain(func(w *Sys) bool { return w.addGE(l.AddK(-b.lo)) })
			}
			if b.hi < posInf {
				c.constrain(func(w *Sys) bool { return w.addGE(K(b.hi).Sub(l)) })
			}
		}
	}
	for _, l := range y.cons {
		if used(l) {
			l = c.lin(l)
			c.constrain(func(w *Sys) bool { return w.addGE(l) })
		}
	}
	for _, l := range y.neqs {
		if used(l) {
			l = c.lin(l)
			c.constrain(func(w *Sys) bool { return w.addNE(l) })
		}
	}
	if t.sys.bad || !t.wsys().feasible() {
		return nil, false
	}
	for _, l := range elts {
		old, ok := t.memo(l.obj, l.idx)
		if !ok {
			t.setMemo(l.obj, l.idx, l.v)
			continue
		}
		a, ok1 := old.(VInt)
		b, ok2 := l.v.(VInt)
		if ok1 && ok2 {
			c.constrain(func(w *Sys) bool { return w.addEQ(a.e.Sub(b.e)) })
		}
	}
	if t.sys.bad || !t.wsys().feasible() {
		return nil, false
	}
	for _, f := range facts {
		if !c.x.assume(t, f) {
			return nil, false
		}
	}
	t.rf = rf
	if c.x.contradicts(t) {
		return nil, false
	}
	return v, true
}

// constrain adds a constraint, unless it overflows.
func (c *inst1) constrain(f func(w *Sys) bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
		}
	}()
	f(c.t.wsys())
}
