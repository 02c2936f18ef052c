package main

// Joins of states and loop invariants: states of the same shape are merged by
// keeping the linear relations, and the facts on ranges of elements, that hold
// in all of them (a template domain with trace partitioning by shape).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cellKind uint8

const (
	ckLin cellKind = iota
	ckTerm
	ckSegs
)

type cell struct {
	path string
	kind cellKind
	lin  Lin
	key  string
	segs []Seg
	top  bool
	fix  bool // index of an element valued cell
}

// walker traverses the part of a state that lives on: it prints its shape and
// lists (or replaces) its cells.
type walker struct {
	x      *Exec
	s      *State
	shape  strings.Builder
	coarse int // how much of the shape is given up: 1 signs and nil slices, 2 known elements
	cells  []cell
	sub    []cell // replacements, in the order of the cells
	n      int
	seen   map[int]int
	order  []int
	decs   []int // decisions taken while walking, replayed when values are replaced
	nd     int
}

// dec is a decision on the state that determines the shape.
func (w *walker) dec(f func() int) int {
	if w.sub != nil {
		w.nd++
		return w.decs[w.nd-1]
	}
	d := f()
	w.decs = append(w.decs, d)
	return d
}

func (w *walker) lin(path string, l Lin) Lin {
	l = w.s.sys.norm(l)
	w.cells = append(w.cells, cell{path: path, kind: ckLin, lin: l})
	if w.sub != nil {
		l = w.sub[w.n].lin
	}
	w.n++
	return l
}

func (w *walker) term(path string, k string) string {
	w.cells = append(w.cells, cell{path: path, kind: ckTerm, key: k})
	if w.sub != nil {
		k = w.sub[w.n].key
	}
	w.n++
	return k
}

func (w *walker) p(f string, a ...any) { fmt.Fprintf(&w.shape, f, a...) }

func (w *walker) val(path string, v Val, t types.Type) Val {
	x, s := w.x, w.s
	switch v := v.(type) {
	case nil:
		w.p("_")
		return nil
	case VInt:
		l := s.sys.norm(v.e)
		if t != nil && w.coarse < 2 {
			if _, named := t.(*types.Named); named && w.dec(func() int { return b2i(l.isConst()) }) == 1 {
				c := w.dec(func() int { return int(l.c) })
				w.p("=%d", c)
				return VInt{K(int64(c))}
			}
		}
		if w.coarse == 0 && w.sub == nil && s.sys.ival(l).hi < 0 {
			w.p("n")
		} else {
			w.p("i")
		}
		return VInt{w.lin(path, l)}
	case VBool:
		switch w.dec(func() int { return x.decide(s, v.c) }) {
		case 1:
			w.p("T")
			return VBool{condT}
		case -1:
			w.p("F")
			return VBool{condF}
		}
		w.p("b")
		k := w.term(path, valKey(s, v))
		if w.sub != nil && k != valKey(s, v) {
			return VBool{&Cond{k: cdAtom, atom: "b:" + k}}
		}
		return v
	case VPtr:
		if v.obj == 0 {
			w.p("0")
			return v
		}
		w.p("&")
		w.visit(v.obj)
		np := v.path
		for i, e := range v.path {
			if e.idx != nil {
				w.p("[]")
				l := w.lin(fmt.Sprintf("%s/%d", path, i), *e.idx)
				if w.sub != nil {
					np = append([]pel(nil), np...)
					np[i].idx = &l
				}
			} else {
				w.p(".%d", e.f)
			}
		}
		return VPtr{v.obj, np}
	case VSlice:
		if v.obj == 0 {
			w.p("s0")
			return v
		}
		d := w.dec(func() int {
			if w.coarse >= 1 {
				return 0
			}
			return x.decide(s, x.isNil(s, v))
		})
		w.p("s%d", d)
		w.visit(v.obj)
		r := VSlice{obj: v.obj}
		r.off = w.lin(path+"/off", v.off)
		r.ln = w.lin(path+"/len", v.ln)
		r.cp = w.lin(path+"/cap", v.cp)
		if d == 0 {
			r.nk = w.term(path+"/nil", v.nk)
			if w.sub != nil && r.nk != v.nk {
				x.nkLen[r.nk] = [2]Lin{r.ln, r.cp}
			}
		} else if d > 0 {
			r.nk = v.nk
		}
		return r
	case VStr:
		if v.k != nil {
			w.p("%q", *v.k)
			return v
		}
		w.p("str")
		k := w.term(path+"/id", v.id)
		ln := w.lin(path+"/len", v.ln)
		r := v
		r.ln = ln
		o := w.segs(path+"/segs", v.segs, !v.sok)
		if w.sub != nil {
			r.segs, r.sok = o.segs, !o.top
			if k != v.id {
				r.id = k
			}
		}
		return r
	case VIface:
		if v.typ == nil {
			w.p("nil")
			return v
		}
		w.p("%s(", v.typ)
		r := VIface{v.typ, w.val(path+".v", v.v, v.typ)}
		w.p(")")
		return r
	case VFunc:
		if v.isNil {
			w.p("f0")
			return v
		}
		if v.fn != nil {
			w.p("fn %s(", v.fn)
			r := v
			r.bind = nil
			for i, b := range v.bind {
				r.bind = append(r.bind, w.val(fmt.Sprintf("%s.b%d", path, i), b, nil))
			}
			w.p(")")
			return r
		}
		w.p("fn?")
		return VFunc{id: w.term(path, v.id)}
	case VStruct:
		w.p("{")
		r := VStruct{f: make([]Val, len(v.f))}
		for i, f := range v.f {
			r.f[i] = w.val(fmt.Sprintf("%s.%d", path, i), f, fieldType(t, i))
		}
		w.p("}")
		return r
	case VTuple:
		w.p("(")
		r := VTuple{f: make([]Val, len(v.f))}
		for i, f := range v.f {
			r.f[i] = w.val(fmt.Sprintf("%s#%d", path, i), f, fieldType(t, i))
		}
		w.p(")")
		return r
	case VTerm:
		d := 0
		if isNilable(v.typ) {
			d = w.dec(func() int {
				if w.coarse >= 2 {
					return 0
				}
				return x.decide(s, x.isNil(s, v))
			})
		}
		w.p("t%d", d)
		k := w.term(path, v.key)
		r := v
		if w.sub != nil && k != v.key {
			r.key = k
			r.nn = int8(-d)
		}
		return r
	case VMap:
		if v.obj == 0 {
			w.p("m0")
			return v
		}
		w.p("m")
		w.visit(v.obj)
		return v
	case VIter:
		w.p("it")
		w.visit(v.obj)
		return v
	case VLazy:
		w.p("z")
		return v
	}
	panic(giveUp{fmt.Sprintf("walk of %T", v)})
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Basic, *types.Struct:
		return false
	}
	return true
}

func fieldType(t types.Type, i int) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if i < u.NumFields() {
			return u.Field(i).Type()
		}
	case *types.Tuple:
		if i < u.Len() {
			return u.At(i).Type()
		}
	}
	return nil
}

func (w *walker) segs(path string, segs []Seg, top bool) cell {
	c := cell{path: path, kind: ckSegs, segs: segs, top: top}
	w.cells = append(w.cells, c)
	if w.sub != nil {
		c = w.sub[w.n]
	}
	w.n++
	return c
}

func (w *walker) visit(id int) {
	if k, ok := w.seen[id]; ok {
		w.p("@%d", k)
		return
	}
	w.seen[id] = len(w.seen)
	w.order = append(w.order, id)
	o, local := w.s.heap[id]
	if !local {
		w.p("#%d", id)
		return
	}
	path := fmt.Sprintf("o%d", w.seen[id])
	if o.arr {
		if o.kept {
			w.p("!")
		}
		if o.ck == cSrc {
			w.p("S")
			if w.dec(func() int { return b2i(w.s.sys.norm(o.n).isConst()) }) == 0 {
				n := w.lin(path+"/n", o.n)
				if w.sub != nil {
					w.x.wobj(w.s, id).n = n
				}
			}
			return
		}
		if w.coarse >= 2 {
			w.p("A")
			n := w.lin(path+"/n", o.n)
			if w.sub != nil {
				q := w.x.wobj(w.s, id)
				q.ck, q.el, q.segs, q.top, q.n = cAny, nil, nil, true, n
			}
			return
		}
		w.p("A%d", o.ck)
		n := w.lin(path+"/n", o.n)
		switch o.ck {
		case cConc:
			w.p("<%d:", len(o.el))
			var el []Val
			for i, v := range o.el {
				el = append(el, w.val(fmt.Sprintf("%s[%d]", path, i), v, o.typ))
			}
			w.p(">")
			if w.sub != nil {
				q := w.x.wobj(w.s, id)
				q.n, q.el = n, el
			}
		case cRope, cList:
			tot := w.lin(path+"/tot", o.tot)
			c := w.segs(path+"/segs", o.segs, o.top)
			if w.sub != nil {
				q := w.x.wobj(w.s, id)
				q.n, q.tot, q.segs, q.top = n, tot, c.segs, c.top
			}
			if o.cur {
				w.p("c")
				i := w.lin(path+"/index", o.curI)
				b := w.lin(path+"/boundary", o.curP)
				if w.sub != nil {
					q := w.x.wobj(w.s, id)
					q.curI, q.curP = i, b
				}
			}
		default:
			if w.sub != nil {
				w.x.wobj(w.s, id).n = n
			}
		}
		return
	}
	if o.isMap {
		w.p("M%v", o.mopen)
		var ks []string
		for k := range o.mk {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		nm := map[string]Val{}
		for _, k := range ks {
			w.p("%s:", k)
			nm[k] = w.val(path+"["+k+"]", o.mk[k], nil)
		}
		if w.sub != nil {
			w.x.wobj(w.s, id).mk = nm
		}
		return
	}
	v := w.val(path, o.val, o.typ)
	if w.sub != nil {
		w.x.wobj(w.s, id).val = v
	}
}

// walk traverses the state at block b (nil at a return).
func (w *walker) walk(b *ssa.BasicBlock) {
	w.seen = map[int]int{}
	s := w.s
	var frames []*Frame
	for f := s.fr.parent; f != nil; f = f.parent {
		frames = append(frames, f)
	}
	for i := len(frames) - 1; i >= 0; i-- {
		for _, v := range frames[i].vals {
			w.rootIDs(v)
		}
		for _, d := range frames[i].defers {
			w.rootIDs(d.fn)
			for _, a := range d.args {
				w.rootIDs(a)
			}
		}
	}
	for _, id := range w.x.roots {
		w.visit(id)
	}
	var ov []int
	for id := range s.heap {
		if _, ok := w.x.base[id]; ok {
			ov = append(ov, id)
		}
	}
	sort.Ints(ov)
	for _, id := range ov {
		w.p("base%d", id)
		w.visit(id)
	}
	var ks []string
	for k := range s.mon {
		if !strings.HasPrefix(k, "memo:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		w.p("|%s=", k)
		v := w.val("mon:"+k, s.mon[k], nil)
		if w.sub != nil {
			s.setMon(k, v)
		}
	}
	if b != nil {
		var vs []ssa.Value
		for v := range s.fr.info.live[b.Index] {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return s.fr.info.idx[vs[i]] < s.fr.info.idx[vs[j]] })
		for _, v := range vs {
			k := s.fr.info.idx[v]
			w.p("|%s:", v.Name())
			n := w.val(v.Name(), s.fr.vals[k], v.Type())
			if w.sub != nil {
				s.fr.vals[k] = n
			}
		}
		for i, d := range s.fr.defers {
			w.p("|defer %p", d.ins)
			fn := w.val(fmt.Sprintf("defer%d", i), d.fn, nil)
			nd := &deferred{call: d.call, fn: fn, ins: d.ins}
			for j, a := range d.args {
				nd.args = append(nd.args, w.val(fmt.Sprintf("defer%d.%d", i, j), a, nil))
			}
			if w.sub != nil {
				s.fr.defers = append([]*deferred(nil), s.fr.defers...)
				s.fr.defers[i] = nd
			}
		}
	} else {
		w.p("|ret:")
		v := w.val("ret", s.ret, resultType(s.fr.fn.Signature))
		if w.sub != nil {
			s.ret = v
		}
	}
}

// rootIDs visits the objects a value of a caller refers to; the value itself is fixed.
func (w *walker) rootIDs(v Val) {
	switch v := v.(type) {
	case VPtr:
		if v.obj != 0 {
			w.visit(v.obj)
		}
	case VSlice:
		if v.obj != 0 {
			w.visit(v.obj)
		}
	case VMap:
		if v.obj != 0 {
			w.visit(v.obj)
		}
	case VIter:
		w.visit(v.obj)
	case VIface:
		w.rootIDs(v.v)
	case VFunc:
		for _, b := range v.bind {
			w.rootIDs(b)
		}
	case VStruct:
		for _, f := range v.f {
			w.rootIDs(f)
		}
	case VTuple:
		for _, f := range v.f {
			w.rootIDs(f)
		}
	}
}

// concretise decides the boolean values of the frame, splitting the state.
func (x *Exec) concretise(in []*State, b *ssa.BasicBlock) []*State {
	var out []*State
	for _, s := range in {
		cur := []*State{s}
		if b == nil {
			n := 1
			if t, ok := s.ret.(VTuple); ok {
				n = len(t.f)
			}
			for i := 0; i < n; i++ {
				var next []*State
				for _, t := range cur {
					v := t.ret
					tup, isT := t.ret.(VTuple)
					if isT {
						v = tup.f[i]
					}
					bv, ok := v.(VBool)
					if !ok || bv.c.k == cdTrue || bv.c.k == cdFalse {
						next = append(next, t)
						continue
					}
					a, c := x.split(t, bv.c)
					setRet := func(st *State, r bool) {
						if isT {
							f := append([]Val(nil), tup.f...)
							f[i] = VBool{condOf(r)}
							st.ret = VTuple{f}
						} else {
							st.ret = VBool{condOf(r)}
						}
						next = append(next, st)
					}
					if a != nil {
						setRet(a, true)
					}
					if c != nil {
						setRet(c, false)
					}
				}
				cur = next
			}
			out = append(out, cur...)
			continue
		}
		for v := range s.fr.info.live[b.Index] {
			if !isBoolT(v.Type()) {
				continue
			}
			k := s.fr.info.idx[v]
			var next []*State
			for _, t := range cur {
				bv, ok := t.fr.vals[k].(VBool)
				if !ok || bv.c.k == cdTrue || bv.c.k == cdFalse {
					next = append(next, t)
					continue
				}
				a, c := x.split(t, bv.c)
				if a != nil {
					a.fr.vals[k] = VBool{condT}
					next = append(next, a)
				}
				if c != nil {
					c.fr.vals[k] = VBool{condF}
					next = append(next, c)
				}
			}
			cur = next
		}
		out = append(out, cur...)
	}
	return out
}

type tmpl struct {
	l  Lin // over shared symbols and cells (cell a is symbol -(a+1))
	eq bool
}

func (t tmpl) key() string { return fmt.Sprintf("%v%s", t.eq, t.l.key()) }

type rtmpl struct {
	pred   string
	src    int
	lo, hi Lin
	val    bool
	exists bool
}

func (t rtmpl) key() string {
	return fmt.Sprintf("%s/%d/%s/%s/%v/%v", t.pred, t.src, t.lo.key(), t.hi.key(), t.val, t.exists)
}

// head is a merged state, with the relations kept.
type head struct {
	s     *State
	shape string
	cells []cell
	gen   map[int]bool
	alias map[int]int // cells that differ from a generalised one by a constant
	tm    []tmpl
	rt    []rtmpl
	sig   string
}

type shaped struct {
	s     *State
	shape string
	cells []cell
	order []int
	decs  []int
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *Exec) shapeOf(s *State, b *ssa.BasicBlock, coarse int) shaped {
	w := &walker{x: x, s: s, coarse: max(coarse, x.minCoarse)}
	w.walk(b)
	return shaped{s, w.shape.String() + fmt.Sprint(" ", len(w.cells)), w.cells, w.order, w.decs}
}

// group merges the states of the same shape.
func (x *Exec) group(in []*State, b *ssa.BasicBlock, prev map[string]*head, restrict bool, coarse int) []*head {
	in = x.concretise(in, b)
	in = x.consistent(in)
	if x.partOf != nil {
		for _, s := range in {
			x.finishLists(s)
		}
	}
	if x.saturate != nil {
		for _, s := range in {
			x.saturate(x, s)
		}
	}
	var keys []string
	groups := map[string][]shaped{}
	for _, s := range in {
		sh := x.shapeOf(s, b, coarse)
		if _, ok := groups[sh.shape]; !ok {
			keys = append(keys, sh.shape)
		}
		groups[sh.shape] = append(groups[sh.shape], sh)
	}
	if len(keys) > x.maxShapes && coarse < 1 || len(keys) > max(10, x.maxShapes) && coarse < 2 {
		x.wentCoarse = coarse + 1
		return x.group(in, b, nil, false, coarse+1)
	}
	var out []*head
	for _, k := range keys {
		out = append(out, x.merge(groups[k], b, prev[k], restrict, coarse))
	}
	return out
}

// consistent drops the states in which an element is said to satisfy a
// predicate and not to satisfy it.
func (x *Exec) consistent(in []*State) []*State {
	if len(x.limits) == 0 {
		return in
	}
	var out []*State
	for _, s := range in {
		if !x.contradicts(s) {
			out = append(out, s)
		}
	}
	return out
}

func (x *Exec) contradicts(s *State) bool {
	for i := range s.elts {
		e := &s.elts[i]
		l, ok := x.limits[e.obj]
		if !ok {
			continue
		}
		for _, p := range x.trackP {
			t := x.eltPred(s, p, e.v)
			if t == 0 {
				continue
			}
			for j := range s.rf {
				f := &s.rf[j]
				if f.pred == p && f.src == e.obj && !f.exists && tv(f.val) != t && s.sys.entails(e.idx.Sub(f.lo)) && s.sys.entails(f.hi.Sub(e.idx).AddK(-1)) && s.sys.entails(l.Sub(e.idx).AddK(-1)) {
					return true
				}
			}
		}
	}
	return false
}

func cs(a int) Sym { return Sym(-(a + 1)) }

// inst replaces the cells of a template by their values in a state.
func inst(l Lin, cells []cell) Lin {
	r := K(l.c)
	for _, t := range l.t {
		if t.s < 0 {
			r = r.Add(cells[-t.s-1].lin.Mul(t.k))
		} else {
			r = r.Add(Lin{t: []term{t}})
		}
	}
	return r
}

func instSafe(l Lin, cells []cell) (r Lin, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = false
		}
	}()
	for _, t := range l.t {
		if int(-t.s-1) >= len(cells) {
			return l, false
		}
	}
	return inst(l, cells), true
}

func (x *Exec) merge(g []shaped, b *ssa.BasicBlock, prev *head, restrict bool, coarse int) *head {
	h := &head{shape: g[0].shape, gen: map[int]bool{}, alias: map[int]int{}}
	n := len(g[0].cells)
	idmap := make([]map[int]int, len(g)) // objects of state i -> objects of state 0
	for i := range g {
		idmap[i] = map[int]int{}
		for k, id := range g[i].order {
			idmap[i][id] = g[0].order[k]
		}
	}
	cells := make([][]cell, len(g))
	for i := range g {
		cells[i] = append([]cell(nil), g[i].cells...)
	}
	var sigParts []string
	// contents: join of the descriptions
	repl := make([]cell, n)
	type segJoin struct {
		cellIdx int
		segs    []Seg // with lo/hi to be taken from extra cells
		ext     []int
	}
	var joins []segJoin
	addCell := func(path string, ls []Lin) int {
		for i := range cells {
			cells[i] = append(cells[i], cell{path: path, kind: ckLin, lin: ls[i], fix: true})
		}
		return len(cells[0]) - 1
	}
	for a := 0; a < n; a++ {
		if g[0].cells[a].kind != ckSegs {
			continue
		}
		c := g[0].cells[a]
		j, ok := x.joinSegs(g, a, idmap)
		if !ok {
			repl[a] = cell{path: c.path, kind: ckSegs, top: true}
			sigParts = append(sigParts, fmt.Sprintf("top%d", a))
			continue
		}
		sj := segJoin{cellIdx: a, segs: j[0]}
		for k, sg := range j[0] {
			if (sg.k == segView || sg.k == segEnc) && sg.cnst == "" {
				var lo, hi []Lin
				for i := range g {
					l := g[i].s.sys.norm(j[i][k].lo)
					if len(l.t) > 0 && g[i].s.sys.entailsEQ(l) {
						l = K(0)
					}
					lo = append(lo, l)
					hi = append(hi, g[i].s.sys.norm(j[i][k].hi))
				}
				sj.ext = append(sj.ext, addCell(fmt.Sprintf("%s.%d.lo", c.path, k), lo), addCell(fmt.Sprintf("%s.%d.hi", c.path, k), hi))
			}
			if sg.k == segElem || sg.k == segEncV {
				if v, ok := sg.v.(VInt); ok {
					_ = v
					var ls []Lin
					for i := range g {
						ls = append(ls, g[i].s.sys.norm(j[i][k].v.(VInt).e))
					}
					sj.ext = append(sj.ext, addCell(fmt.Sprintf("%s.%d.v", c.path, k), ls))
				}
			}
		}
		sigParts = append(sigParts, fmt.Sprintf("segs%d:%s", a, segShape(j[0])))
		joins = append(joins, sj)
	}
	// element valued cells: relate their index
	type eltCell struct{ a, idx, src int }
	var ecs []eltCell
	for a := 0; a < n; a++ {
		if g[0].cells[a].kind != ckLin {
			continue
		}
		same := true
		for i := range g {
			if !cells[i][a].lin.eq(cells[0][a].lin) {
				same = false
			}
		}
		if same {
			continue
		}
		var idx []Lin
		src := 0
		ok := true
		for i := range g {
			o, ix, is := g[i].s.eltOf(cells[i][a].lin)
			if !is {
				ok = false
				break
			}
			if m, has := idmap[i][o]; has {
				o = m
			}
			if i == 0 {
				src = o
			} else if src != o {
				ok = false
				break
			}
			idx = append(idx, g[i].s.sys.norm(ix))
		}
		if ok {
			t := addCell(g[0].cells[a].path+"@", idx)
			ecs = append(ecs, eltCell{a, t, src})
			sigParts = append(sigParts, fmt.Sprintf("elt%d:%d", a, src))
		}
	}
	// generalised cells
	N := len(cells[0])
	val := make([]Lin, N) // value of the cell in the merged state
	var G []int
	for a := 0; a < N; a++ {
		if cells[0][a].kind != ckLin {
			continue
		}
		same := true
		for i := range g {
			if !cells[i][a].lin.eq(cells[0][a].lin) {
				same = false
				break
			}
		}
		var common *Lin
		if !same {
			// the same value, known as a constant in some of the states
			for i := range g {
				l := cells[i][a].lin
				if l.isConst() {
					continue
				}
				same = true
				for j := range g {
					if !cells[j][a].lin.eq(l) && !g[j].s.sys.norm(l).eq(cells[j][a].lin) {
						same = false
						break
					}
				}
				if same {
					common = &l
				}
				break
			}
		}
		if prev != nil {
			if _, was := prev.alias[a]; was || prev.gen[a] {
				same = false
			}
		}
		if same {
			val[a] = cells[0][a].lin
			if common != nil {
				val[a] = *common
			}
			sigParts = append(sigParts, fmt.Sprintf("c%d=%s", a, val[a].key()))
			continue
		}
		if x.alias && (prev == nil || !prev.gen[a]) {
			// the value of another cell, but for a constant
			if b, d, ok := aliasOf(cells, G, a); ok {
				h.alias[a] = b
				val[a] = val[b].AddK(d)
				sigParts = append(sigParts, fmt.Sprintf("c%d=c%d%+d", a, b, d))
				continue
			}
		}
		h.gen[a] = true
		G = append(G, a)
		val[a] = S(x.newSym("~" + cells[0][a].path))
	}
	// symbols of the merged state: those of state 0
	ns := g[0].s.clone()
	ns.sys = newSys()
	x.sharedCons(ns.sys, g)
	newG := prev == nil
	if prev != nil && len(prev.cells) != N {
		// what was known through cells that are gone must be said anew
		newG, restrict = true, false
	}
	for _, a := range G {
		if prev != nil && !prev.gen[a] {
			newG = true
		}
	}
	if len(G) > 0 {
		var cand []tmpl
		if prev != nil {
			cand = append(cand, prev.tm...)
		}
		for _, l := range affineHull(cells, G) {
			if x.loopSym > 0 && prev != nil && restrict && l.newer(x.loopSym) { // not the same the next time
				continue
			}
			cand = append(cand, tmpl{l, true})
		}
		if !restrict || prev == nil {
			cand = append(cand, x.candidates(cells, g, G, prev, val)...)
		} else if newG { // only about the cells that vary from now on
			for _, t := range x.candidates(cells, g, G, prev, val) {
				for _, y := range t.l.t {
					if y.s < 0 && h.gen[int(-y.s-1)] && !prev.gen[int(-y.s-1)] {
						cand = append(cand, t)
						break
					}
				}
			}
		}
		holds := func(t tmpl) bool {
			for i := range g {
				l, ok := instSafe(t.l, cells[i])
				if !ok || t.eq && !g[i].s.sys.entailsEQ(l) || !t.eq && !g[i].s.sys.entails(l) {
					return false
				}
			}
			return true
		}
		if prev != nil && restrict {
			// equalities that followed from those that are lost now, and what
			// was only said of one of the cells that were equal
			for _, a := range G {
				for _, b := range G {
					if a == b || !prev.gen[a] || !prev.gen[b] {
						continue
					}
					d, ok := x.constDiff(prev, a, b)
					if !ok {
						continue
					}
					eq := tmpl{S(cs(a)).Sub(S(cs(b))).AddK(-d), true}
					if holds(eq) {
						if a < b {
							cand = append(cand, eq)
						}
						continue
					}
					for _, t := range prev.tm {
						for _, y := range t.l.t {
							if y.s == cs(a) {
								l := t.l.Sub(S(cs(a)).Mul(y.k)).Add(S(cs(b)).AddK(d).Mul(y.k))
								cand = append(cand, tmpl{l, t.eq})
							}
						}
					}
				}
			}
		}
		// what is said of the cell a cell was an alias of
		if prev != nil {
			for _, a := range G {
				b, was := prev.alias[a]
				if !was {
					continue
				}
				d, ok := x.constDiff(prev, b, a)
				if !ok {
					continue
				}
				for _, t := range prev.tm {
					for _, y := range t.l.t {
						if y.s == cs(b) {
							l := t.l.Sub(S(cs(b)).Mul(y.k)).Add(S(cs(a)).AddK(d).Mul(y.k))
							cand = append(cand, tmpl{l, t.eq})
						}
					}
				}
			}
		}
		// what followed from relations that are lost now
		if prev != nil && restrict && !newG && x.implied && x.round < 8 {
			some := false
			for _, t := range prev.tm {
				if !t.eq && len(t.l.t) == 1 && !holds(t) {
					some = true
					break
				}
			}
			if some {
				for _, t := range x.candidates(cells, g, G, prev, val) {
					if l, ok := instSafe(t.l, prev.cells); ok && !t.eq && len(t.l.t) > 1 && -1 <= t.l.c && t.l.c <= 1 && prev.s.sys.entails(l) {
						cand = append(cand, t)
					}
				}
			}
		}
		// a bound that keeps being weakened is dropped
		lost := map[string]bool{}
		if prev != nil && x.round >= 5 {
			for _, t := range prev.tm {
				if !t.eq && !holds(t) {
					lost[t.l.AddK(-t.l.c).key()] = true
				}
			}
		}
		had := map[string]bool{}
		if prev != nil {
			for _, t := range prev.tm {
				had[t.key()] = true
			}
		}
		seen := map[string]bool{}
		for pass := 0; pass < 2; pass++ {
			for _, t := range cand {
				if t.eq != (pass == 0) {
					continue
				}
				k := t.key()
				if seen[k] || !t.eq && (t.l.c > 1 || t.l.c < -1) && lost[t.l.AddK(-t.l.c).key()] {
					continue
				}
				seen[k] = true
				nl, ok := instNew(t.l, val)
				if !ok {
					continue
				}
				if t.eq && ns.sys.entailsEQ(nl) || !t.eq && ns.sys.entails(nl) {
					if !had[k] {
						continue
					}
				}
				if !holds(t) {
					continue
				}
				h.tm = append(h.tm, t)
				if t.eq {
					ns.sys.addEQ(nl)
				} else {
					ns.sys.addGE(nl)
				}
			}
		}
	}
	// what holds of any slice
	for a := 1; a < n; a++ {
		l, ok := strings.CutSuffix(g[0].cells[a].path, "/cap")
		if !ok || g[0].cells[a-1].path != l+"/len" || g[0].cells[a].kind != ckLin || g[0].cells[a-1].kind != ckLin {
			continue
		}
		if d := val[a].Sub(val[a-1]); !ns.sys.entails(d) {
			ns.sys.addGE(d)
		}
	}
	// facts
	varies := h.gen
	if len(h.alias) > 0 {
		varies = map[int]bool{}
		for a := range h.gen {
			varies[a] = true
		}
		for a := range h.alias {
			varies[a] = true
		}
	}
	labels := x.mergeLabels(g, cells, val, varies)
	x.mergeFacts(ns, g, idmap)
	ns.facts = append(ns.facts, labels...)
	h.rt = x.mergeRanges(ns, g, cells, val, idmap, prev, varies, restrict && !newG)
	for a := 0; a < n; a++ {
		c := g[0].cells[a]
		switch c.kind {
		case ckLin:
			repl[a] = cell{kind: ckLin, lin: ns.sys.norm(val[a])}
		case ckTerm:
			k := c.key
			for i := range g {
				if g[i].cells[a].key != k {
					k = ""
				}
			}
			if k == "" || prev != nil && prev.gen[a] {
				k = x.uniq("~" + c.path)
				h.gen[a] = true
				if strings.HasSuffix(c.path, "/nil") {
					k = "nil:" + k
				}
			}
			repl[a] = cell{kind: ckTerm, key: k}
		}
	}
	for _, j := range joins {
		segs := append([]Seg(nil), j.segs...)
		e := 0
		for k := range segs {
			if (segs[k].k == segView || segs[k].k == segEnc) && segs[k].cnst == "" {
				segs[k].lo, segs[k].hi = ns.sys.norm(val[j.ext[e]]), ns.sys.norm(val[j.ext[e+1]])
				e += 2
			}
			if segs[k].k == segElem || segs[k].k == segEncV {
				if _, ok := segs[k].v.(VInt); ok {
					segs[k].v = VInt{ns.sys.norm(val[j.ext[e]])}
					e++
				}
			}
		}
		repl[j.cellIdx] = cell{kind: ckSegs, segs: segs}
	}
	w := &walker{x: x, s: ns, sub: repl, coarse: max(coarse, x.minCoarse), decs: g[0].decs}
	// objects not reached any more are dropped
	w.walk(b)
	keep := map[int]bool{}
	for _, id := range w.order {
		keep[id] = true
	}
	x.keepSrc(ns, keep)
	for id := range ns.heap {
		if !keep[id] {
			delete(ns.heap, id)
		}
	}
	for _, e := range ecs {
		ns.setMemo(e.src, val[e.idx], VInt{val[e.a]})
		x.applyRange(ns, e.src, val[e.idx], val[e.a])
	}
	h.s = ns
	h.cells = make([]cell, N)
	for a := range h.cells {
		h.cells[a] = cells[0][a]
		h.cells[a].lin = val[a]
	}
	var tk []string
	for _, t := range h.tm {
		tk = append(tk, t.key())
	}
	for _, t := range h.rt {
		tk = append(tk, t.key())
	}
	var gk []string
	for a := range h.gen {
		gk = append(gk, fmt.Sprint(a))
	}
	sort.Strings(tk)
	sort.Strings(gk)
	h.sig = h.shape + "\n" + strings.Join(gk, ",") + "\n" + strings.Join(sigParts, ";") + "\n" + strings.Join(tk, "\n")
	if x.debug && b != nil {
		fmt.Printf("MERGE %s b%d: %d states, %d cells, gen %v\n", shortFn(ns.fr.fn), b.Index, len(g), N, gk)
		for a := 0; a < N; a++ {
			fmt.Printf("   %s = %s in %s :", cells[0][a].path, val[a].key(), ns.sys.norm(val[a]).key())
			for i := range g {
				fmt.Printf(" %s", cells[i][a].lin.key())
			}
			fmt.Println()
		}
		for _, t := range h.rt {
			fmt.Println("   R", t.key())
		}
		fmt.Println("   FACTS", ns.facts, "\n   SYS", ns.sys)
	}
	return h
}

// aliasOf finds a generalised cell that differs from a by the same constant in
// all states.
func aliasOf(cells [][]cell, G []int, a int) (b int, d int64, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = false
		}
	}()
next:
	for _, b := range G {
		for i := range cells {
			c := cells[i][a].lin.Sub(cells[i][b].lin)
			if !c.isConst() || i > 0 && c.c != d {
				continue next
			}
			d = c.c
		}
		return b, d, true
	}
	return 0, 0, false
}

// constDiff tells whether two cells of a merged state differ by a constant.
func (x *Exec) constDiff(h *head, a, b int) (c int64, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = false
		}
	}()
	if a >= len(h.cells) || b >= len(h.cells) {
		return 0, false
	}
	d := h.s.sys.norm(h.cells[a].lin.Sub(h.cells[b].lin))

	return d.c, d.isConst()
}

func instNew(l Lin, val []Lin) (r Lin, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = false
		}
	}()
	r = K(l.c)
	for _, t := range l.t {
		if t.s < 0 {
			if int(-t.s-1) >= len(val) {
				return r, false
			}
			r = r.Add(val[-t.s-1].Mul(t.k))
		} else {
			r = r.Add(Lin{t: []term{t}})
		}
	}
	return r, true
}

// keepSrc keeps the sources of the segments and memos.
func (x *Exec) keepSrc(s *State, keep map[int]bool) {
	for id := range keep {
		if o := x.obj(s, id); o != nil {
			for _, g := range o.segs {
				keep[g.src] = true
			}
		}
	}
	for _, v := range s.mon {
		keepVal(v, keep)
	}
	for _, id := range s.tobj {
		keep[id] = true
		if o := x.obj(s, id); o != nil {
			keepVal(o.val, keep)
		}
	}
	for _, e := range s.elts {
		if keep[e.obj] {
			keepVal(e.v, keep)
		}
	}
	for _, f := range []Val{s.ret} {
		keepVal(f, keep)
	}
	for _, v := range s.fr.vals {
		if st, ok := v.(VStr); ok {
			keepVal(st, keep)
		}
	}
}

func keepVal(v Val, keep map[int]bool) {
	switch v := v.(type) {
	case VSlice:
		keep[v.obj] = true
	case VPtr:
		keep[v.obj] = true
	case VStr:
		for _, g := range v.segs {
			keep[g.src] = true
		}
	case VStruct:
		for _, f := range v.f {
			keepVal(f, keep)
		}
	case VTuple:
		for _, f := range v.f {
			keepVal(f, keep)
		}
	}
}

func segShape(segs []Seg) string {
	var b strings.Builder
	for _, s := range segs {
		fmt.Fprintf(&b, "%d:%d:%s,", s.k, s.src, s.cnst)
	}
	return b.String()
}

// joinSegs aligns the contents of cell a in all states; result per state.
func (x *Exec) joinSegs(g []shaped, a int, idmap []map[int]int) ([][]Seg, bool) {
	out := make([][]Seg, len(g))
	model := -1
	for i := range g {
		c := g[i].cells[a]
		if c.top {
			return nil, false
		}
		segs := x.normSegs(g[i].s, c.segs)
		out[i] = make([]Seg, len(segs))
		for k, s := range segs {
			if m, ok := idmap[i][s.src]; ok {
				s.src = m
			}
			out[i][k] = s
		}
		if model < 0 || len(segs) > len(out[model]) {
			model = i
		}
	}
	m := out[model]
	for i := range out {
		if len(out[i]) == len(m) {
			for k := range m {
				if out[i][k].k != m[k].k || out[i][k].src != m[k].src || out[i][k].cnst != m[k].cnst || m[k].k == segUnk {
					return nil, false
				}
				if m[k].k == segElem || m[k].k == segEncV {
					_, ok1 := m[k].v.(VInt)
					_, ok2 := out[i][k].v.(VInt)
					if ok1 != ok2 || !ok1 && valKey(g[i].s, m[k].v) != valKey(g[i].s, out[i][k].v) {
						return nil, false
					}
				}
			}
			continue
		}
		if len(m) == 1 && len(out[i]) == 0 && (m[0].k == segView || m[0].k == segEnc) && m[0].cnst == "" {
			// nothing is an empty range at the place where the others start
			e := m[0]
			e.lo = x.emptyAt(g, out, i, e.lo)
			e.hi = e.lo
			out[i] = []Seg{e}
			continue
		}
		return nil, false
	}
	return out, true
}

// sharedCons keeps the constraints of state 0 that hold in all states.
// emptyAt chooses where an empty range stands in state i: at the value of a
// variable that marks the end of the range in the other states.
func (x *Exec) emptyAt(g []shaped, out [][]Seg, i int, lo Lin) Lin {
	for b, c := range g[i].cells {
		if c.kind != ckLin || !g[i].s.sys.entails(c.lin) {
			continue
		}
		ok, used := true, false
		for j := range g {
			if len(out[j]) != 1 || len(g[j].cells[b].lin.t)+len(out[j][0].hi.t) == 0 {
				continue
			}
			if out[j][0].lo.eq(out[j][0].hi) {
				continue
			}
			used = true
			if !g[j].s.sys.entailsEQ(g[j].cells[b].lin.Sub(out[j][0].hi)) {
				ok = false
				break
			}
		}
		if ok && used {
			return c.lin
		}
	}
	return lo
}

func (x *Exec) sharedCons(y *Sys, g []shaped) {
	s0 := g[0].s.sys
	rest := g[1:]
	var syms []Sym
	for s := range s0.eqs {
		syms = append(syms, s)
	}
	sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
	for _, s := range syms {
		e := s0.eqs[s]
		l := S(s).Sub(e)
		all := true
		for _, o := range rest {
			if oe, ok := o.s.sys.eqs[s]; ok && oe.eq(e) {
				continue
			}
			if !o.s.sys.entailsEQ(l) {
				all = false
				break
			}
		}
		if all {
			y.addEQ(l)
		}
	}
	// the state with the most relations may hold what the others have
	// in another form
	gen := s0
	for _, o := range rest {
		if len(o.s.sys.cons) > len(gen.cons) {
			gen = o.s.sys
		}
	}
	bound := func(z *Sys, s Sym) (ivl, bool) {
		if e, has := z.eqs[s]; has {
			return z.ival(z.norm(e)), true
		}
		b, ok := z.bnd[s]
		return b, ok
	}
	bounds := func(s Sym) {
		lo, hi := int64(posInf), int64(negInf)
		for _, o := range g {
			b, ok := bound(o.s.sys, s)
			if !ok {
				return
			}
			lo, hi = min(lo, b.lo), max(hi, b.hi)
		}
		if _, solved := y.eqs[s]; !solved && (lo > negInf || hi < posInf) {
			y.setBound(s, lo, hi)
		}
	}
	for s := range s0.bnd {
		bounds(s)
	}
	cons := func(z *Sys) {
		for _, c := range z.cons {
			k := c.key()
			if y.keys[k] {
				continue
			}
			all := true
			for _, o := range g {
				if o.s.sys != z && !o.s.sys.keys[k] && !o.s.sys.entails(c) {
					all = false
					break
				}
			}
			if all {
				y.addGE(c)
			}
		}
	}
	cons(s0)
	if gen != s0 {
		for s := range gen.bnd {
			if _, ok := s0.bnd[s]; !ok {
				bounds(s)
			}
		}
		cons(gen)
	}
	for _, c := range s0.neqs {
		all := true
		for _, o := range rest {
			if !o.s.sys.entailsNE(c) {
				all = false
				break
			}
		}
		if all {
			y.addNE(c)
		}
	}
}

// candidates proposes relations between the generalised cells.
func (x *Exec) candidates(cells [][]cell, g []shaped, G []int, prev *head, val []Lin) []tmpl {
	var out []tmpl
	defer func() {}()
	add := func(l Lin, eq bool) {
		out = append(out, tmpl{l, eq})
	}
	try := func(f func()) {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(linOverflow); !is {
					panic(e)
				}
			}
		}()
		f()
	}
	last := len(cells) - 1
	inG := map[int]bool{}
	for _, a := range G {
		inG[a] = true
	}
	// affine in the iteration counter
	itc := -1
	for a, c := range cells[0] {
		if strings.HasPrefix(c.path, "mon:it:") && inG[a] {
			itc = a
		}
	}
	if itc >= 0 {
		for _, a := range G {
			if a == itc {
				continue
			}
			for i := 1; i <= last; i++ {
				try(func() {
					d := cells[i][a].lin
					var before, itb Lin
					if prev != nil && a < len(prev.cells) && itc < len(prev.cells) {
						before, itb = prev.cells[a].lin, prev.cells[itc].lin
					} else {
						before, itb = cells[0][a].lin, cells[0][itc].lin
					}
					d = g[i].s.sys.norm(d.Sub(before))
					di := g[i].s.sys.norm(cells[i][itc].lin.Sub(itb))
					if d.isConst() && di.isConst() && di.c == 1 && d.c != 0 {
						l := S(cs(a)).Sub(S(cs(itc)).Mul(d.c))
						add(l.Sub(cells[0][a].lin).Add(cells[0][itc].lin.Mul(d.c)), true)
					}
					if iv := g[i].s.sys.ival(d); !d.isConst() && di.isConst() && di.c == 1 && iv.lo >= -16 && iv.hi <= 16 && (iv.lo > 1 || iv.lo < -1 || iv.hi > 1 || iv.hi < -1) {
						// between so much and so much every time
						for _, k := range []int64{iv.hi, iv.lo} {
							l := S(cs(itc)).Mul(k).Sub(S(cs(a)))
							v0 := g[0].s.sys.ival(cells[0][itc].lin.Mul(k).Sub(cells[0][a].lin))
							if k == iv.hi && v0.lo > negInf {
								add(l.AddK(-v0.lo), false)
							}
							if k == iv.lo && v0.hi < posInf {
								add(K(v0.hi).Sub(l), false)
							}
						}
					}
				})
			}
		}
	}
	// integers that index slices
	if x.implied {
		for _, a := range G {
			if strings.ContainsAny(cells[0][a].path, "/:") {
				continue
			}
			for b, c := range cells[0] {
				if a != b && strings.HasSuffix(c.path, "/len") {
					d := S(cs(b))
					if !inG[b] {
						d = c.lin
					}
					try(func() { add(d.Sub(S(cs(a))), false) })
				}
			}
		}
	}
	pick := []int{0}
	if last > 0 {
		pick = append(pick, last)
	}
	for ai, a := range G {
		for _, b := range G[ai+1:] {
			for _, i := range pick {
				try(func() {
					add(S(cs(a)).Sub(S(cs(b))).Sub(cells[i][a].lin.Sub(cells[i][b].lin)), true)
					add(S(cs(a)).Add(S(cs(b))).Sub(cells[i][a].lin.Add(cells[i][b].lin)), true)
				})
			}
		}
	}
	// constraints of each state, rewritten over the cells
	for i := range cells {
		if i > 3 && i < last-3 {
			continue
		}
		m := map[Sym][]term{} // symbol -> cell (s) and shift (k)
		var ms []Sym
		for _, a := range G {
			l := cells[i][a].lin
			if len(l.t) == 1 && l.t[0].k == 1 {
				if m[l.t[0].s] == nil {
					ms = append(ms, l.t[0].s)
				}
				m[l.t[0].s] = append(m[l.t[0].s], term{cs(a), l.c})
			}
		}
		rew := func(c Lin, eq bool) {
			hit := 0
			var one []term
			for _, t := range c.t {
				if m[t.s] != nil {
					hit++
					one = m[t.s]
				}
			}
			if hit == 0 {
				return
			}
			if hit == 1 && len(one) > 2 && len(c.t) > 1 {
				for _, p := range one[1 : len(one)-1] {
					try(func() {
						r := K(c.c)
						for _, t := range c.t {
							if m[t.s] != nil {
								r = r.Add(S(p.s).AddK(-p.k).Mul(t.k))
							} else {
								r = r.Add(Lin{t: []term{t}})
							}
						}
						add(r, eq)
					})
				}
			}
			for v := 0; v < 3; v++ {
				try(func() {
					r := K(c.c)
					for _, t := range c.t {
						if e := m[t.s]; e != nil {
							p := e[0]
							if v == 2 {
								p = e[len(e)-1]
							}
							sh := -p.k
							if v == 1 {
								sh = 0
							}
							r = r.Add(S(p.s).AddK(sh).Mul(t.k))
						} else {
							r = r.Add(Lin{t: []term{t}})
						}
					}
					add(r, eq)
				})
			}
		}
		sy := g[i].s.sys
		for _, s := range ms {
			b := sy.bound(s)
			if b.lo > negInf {
				rew(S(s).AddK(-b.lo), false)
			}
			if b.hi < posInf {
				rew(K(b.hi).Sub(S(s)), false)
			}
		}
		for _, c := range sy.cons {
			rew(c, false)
			// a constant term may be the value of a cell
			if c.c != 0 && len(c.t) > 1 {
				for _, a := range G {
					if l := cells[i][a].lin; l.isConst() && (l.c == c.c || l.c == -c.c) {
						try(func() { add(c.AddK(-c.c).Add(S(cs(a)).Mul(c.c/l.c)), false) })
					}
				}
			}
		}
		var es []Sym
		for s := range sy.eqs {
			es = append(es, s)
		}
		sort.Slice(es, func(i, j int) bool { return es[i] < es[j] })
		for _, s := range es {
			rew(S(s).Sub(sy.eqs[s]), true)
		}
	}
	// bounds
	for _, a := range G {
		lo, hi := int64(posInf), int64(negInf)
		for i := range cells {
			iv := g[i].s.sys.ival(cells[i][a].lin)
			if iv.lo < lo {
				lo = iv.lo
			}
			if iv.hi > hi {
				hi = iv.hi
			}
		}
		if lo > negInf {
			add(S(cs(a)).AddK(-lo), false)
		}
		if hi < posInf {
			add(K(hi).Sub(S(cs(a))), false)
		}
		for _, c := range []int64{-1, 0, 1} {
			add(S(cs(a)).AddK(-c), false)
		}
	}
	for ai, a := range G {
		for _, b := range G[ai+1:] {
			d := S(cs(a)).Sub(S(cs(b)))
			for _, c := range []int64{-1, 0, 1} { // tightest first
				add(d.AddK(c), false)
				add(d.Neg().AddK(c), false)
			}
		}
	}
	seenE := map[string]bool{}
	for _, a := range G {
		for _, i := range pick {
			try(func() {
				l := cells[i][a].lin
				if !l.isConst() {
					add(S(cs(a)).Sub(l), false)
					add(l.Sub(S(cs(a))), false)
				}
			})
		}
		for b, c := range cells[0] {
			if c.kind != ckLin || inG[b] || val[b].isConst() {
				continue
			}
			k := fmt.Sprint(a) + val[b].key()
			if seenE[k] {
				continue
			}
			seenE[k] = true
			try(func() {
				add(val[b].Sub(S(cs(a))).AddK(-1), false)
				add(val[b].Sub(S(cs(a))), false)
				add(S(cs(a)).Sub(val[b]), false)
			})
		}
	}
	return out
}

// mergeFacts keeps what is known in all states.
func (x *Exec) mergeFacts(ns *State, g []shaped, idmap []map[int]int) {
	s0 := g[0].s
	ns.facts, ns.elts, ns.rf = nil, nil, nil
	for _, f := range s0.facts {
		all := !strings.HasPrefix(f.atom, "label:")
		for _, o := range g[1:] {
			if !hasFact(o.s, f) && x.atomTruth(o.s, f.atom, f.args) != tv(f.val) {
				all = false
				break
			}
		}
		if all {
			ns.facts = append(ns.facts, f)
		}
	}
	for _, e := range s0.elts {
		all := true
		for _, o := range g[1:] {
			found := false
			for j := len(o.s.elts) - 1; j >= 0; j-- {
				q := &o.s.elts[j]
				if q.obj == e.obj && valKey(o.s, q.v) == valKey(o.s, e.v) && o.s.sys.norm(q.idx).eq(o.s.sys.norm(e.idx)) {
					found = true
					break
				}
			}
			if !found {
				all = false
				break
			}
		}
		if all {
			ns.elts = append(ns.elts, e)
		}
	}
	mon := map[string]Val{}
	for k, v := range s0.mon {
		if strings.HasPrefix(k, "memo:") {
			all := true
			for _, o := range g[1:] {
				if q, ok := o.s.mon[k]; !ok || valKey(o.s, q) != valKey(s0, v) {
					all = false
				}
			}
			if !all {
				continue
			}
		}
		mon[k] = v
	}
	ns.mon = mon
	tob := map[string]int{}
	for k, id := range s0.tobj {
		all := true
		for _, o := range g[1:] {
			if q, ok := o.s.tobj[k]; !ok || q != id || o.s.heap[id] == nil || s0.heap[id] == nil || valKey(o.s, o.s.heap[id].val) != valKey(s0, s0.heap[id].val) {
				all = false
			}
		}
		if all {
			tob[k] = id
		}
	}
	ns.tobj = tob
}

// mergeLabels keeps the labels (facts whose arguments are values of cells) that
// hold of all states.
func (x *Exec) mergeLabels(g []shaped, cells [][]cell, val []Lin, gen map[int]bool) []Fact {
	var out []Fact
	seen := map[string]bool{}
	type option struct {
		cell int
		l    Lin // the shift from the cell, or the argument
	}
	for _, f := range g[0].s.facts {
		if !strings.HasPrefix(f.atom, "label:") {
			continue
		}
		opts := make([][]option, len(f.args))
		for j, a := range f.args {
			a = g[0].s.sys.norm(a)
			opts[j] = append(opts[j], option{-1, a})
			for b, c := range cells[0] {
				if c.kind != ckLin || val[b].isConst() {
					continue
				}
				if d := a.Sub(c.lin); d.isConst() && absI(d.c) <= 2 && len(opts[j]) < 8 {
					opts[j] = append(opts[j], option{b, d})
				}
			}
		}
		pick := make([]option, len(f.args))
		var rec func(j int)
		rec = func(j int) {
			if j < len(opts) {
				for _, o := range opts[j] {
					pick[j] = o
					rec(j + 1)
				}
				return
			}
			n := Fact{atom: f.atom, val: f.val}
			k := f.atom
			for _, o := range pick {
				l := o.l
				if o.cell >= 0 {
					l = val[o.cell].Add(o.l)
				}
				n.args = append(n.args, l)
				k += "," + l.key()
			}
			if seen[k] {
				return
			}
			seen[k] = true
			for i := 1; i < len(g); i++ {
				var args []Lin
				for _, o := range pick {
					l := o.l
					if o.cell >= 0 {
						l = cells[i][o.cell].lin.Add(o.l)
					}
					args = append(args, l)
				}
				if x.atomTruth(g[i].s, f.atom, args) != tv(f.val) {
					return
				}
			}
			out = append(out, n)
		}
		rec(0)
	}
	return out
}

func hasFact(s *State, f Fact) bool {
	for i := len(s.facts) - 1; i >= 0; i-- {
		q := &s.facts[i]
		if q.atom != f.atom || q.val != f.val || len(q.args) != len(f.args) {
			continue
		}
		same := true
		for j := range q.args {
			if !q.args[j].eq(f.args[j]) {
				same = false
			}
		}
		if same {
			return true
		}
	}
	return false
}

// eltPred is the truth of a tracked predicate on the value of an element.
func (x *Exec) eltPred(s *State, pred string, v Val) int {
	if pred == "nil" {
		return x.decide(s, x.isNil(s, v))
	}
	if vi, ok := v.(VInt); ok {
		return x.atomTruth(s, pred, []Lin{vi.e})
	}
	return 0
}

func (x *Exec) applyRange(s *State, src int, idx Lin, e Lin) {
	if l, ok := x.limits[src]; ok && !s.sys.entails(l.Sub(idx).AddK(-1)) {
		return
	}
	for _, f := range s.rf {
		if f.src == src && !f.exists && s.sys.entails(idx.Sub(f.lo)) && s.sys.entails(f.hi.Sub(idx).AddK(-1)) {
			s.facts = append(s.facts, Fact{f.pred, []Lin{e}, f.val})
		}
	}
}

func (x *Exec) applyRangeNil(s *State, src int, idx Lin, c *Cond) {
	for _, f := range s.rf {
		if f.src == src && f.pred == "nil" && !f.exists && s.sys.entails(idx.Sub(f.lo)) && s.sys.entails(f.hi.Sub(idx).AddK(-1)) {
			s.facts = append(s.facts, Fact{c.atom, c.args, f.val})
		}
	}
}

// holdsAll decides that pred is val for all elements of src in [lo,hi).
func (x *Exec) holdsAll(s *State, pred string, src int, lo, hi Lin, val bool) (ok, used bool) {
	cur := s.sys.norm(lo)
	hi = s.sys.norm(hi)
	end := hi
	if l, ok := x.limits[src]; ok {
		end = s.sys.norm(l)
	}
	// all places that can be reached from lo over elements known to be val
	todo := []Lin{cur}
	seen := map[string]bool{cur.key(): true}
	for n := 0; n < len(todo) && n < 24; n++ {
		cur := todo[n]
		if s.sys.entails(cur.Sub(hi)) {
			return true, n > 0
		}
		if s.sys.entails(cur.Sub(end)) {
			return true, true
		}
		push := func(l Lin) {
			l = s.sys.norm(l)
			if k := l.key(); !seen[k] {
				seen[k] = true
				todo = append(todo, l)
			}
		}
		for i := len(s.rf) - 1; i >= 0; i-- {
			f := &s.rf[i]
			if f.pred != pred || f.src != src || f.val != val || f.exists || !s.sys.entails(cur.Sub(f.lo)) {
				continue
			}
			if s.sys.entails(f.hi.Sub(hi)) {
				return true, true
			}
			// (a range that may be empty)
			if s.sys.entails(f.hi.Sub(cur)) {
				push(f.hi)
			}
		}
		if v, has := s.memo(src, cur); has && x.eltPred(s, pred, v) == tv(val) {
			push(cur.AddK(1))
		}
		for _, e := range s.elts {
			if e.obj == src && s.sys.entails(cur.Sub(e.idx)) && s.sys.entails(e.idx.AddK(1).Sub(cur)) && x.eltPred(s, pred, e.v) == tv(val) {
				push(e.idx.AddK(1))
			}
		}
	}
	return false, false
}

// holdsSome decides that pred is val for some element of src in [lo,hi).
func (x *Exec) holdsSome(s *State, pred string, src int, lo, hi Lin, val bool) bool {
	in := func(a, b Lin) bool {
		return s.sys.entails(a.Sub(lo)) && s.sys.entails(hi.Sub(b))
	}
	for i := len(s.rf) - 1; i >= 0; i-- {
		f := &s.rf[i]
		if f.pred != pred || f.src != src || f.val != val || !in(f.lo, f.hi) {
			continue
		}
		if f.exists {
			return true
		}
		// (a range may reach beyond the limit)
		if l, ok := x.limits[src]; s.sys.entails(f.hi.Sub(f.lo).AddK(-1)) && (!ok || s.sys.entails(l.Sub(f.lo).AddK(-1))) {
			return true
		}
	}
	for i := len(s.elts) - 1; i >= 0; i-- {
		e := &s.elts[i]
		if e.obj == src && x.eltPred(s, pred, e.v) == tv(val) && in(e.idx, e.idx.AddK(1)) {
			return true
		}
	}
	return false
}

func (x *Exec) mergeRanges(ns *State, g []shaped, cells [][]cell, val []Lin, idmap []map[int]int, prev *head, gen map[int]bool, restrict bool) []rtmpl {
	if len(x.trackP) == 0 {
		return nil
	}
	type pk struct {
		pred   string
		src    int
		val    bool
		exists bool
	}
	rev := make([]map[int]int, len(g))
	var known [][]RFact
	for i := range g {
		known = append(known, g[i].s.rf)
		x.tidyRanges(g[i].s)
		rev[i] = map[int]int{}
		for a, b := range idmap[i] {
			rev[i][b] = a
		}
	}
	srcOf := func(i, src int) int {
		if m, ok := rev[i][src]; ok {
			return m
		}
		return src
	}
	var cand []rtmpl
	everywhere := func(t rtmpl) bool { // (what holds of all elements is kept as such)
		l, ok := x.limits[t.src]
		return ok && !t.exists && t.lo.eq(K(0)) && t.hi.eq(l)
	}
	if prev != nil {
		cand = append(cand, prev.rt...)
	}
	if !restrict {
		kinds := map[pk]bool{}
		for i := range g {
			for _, f := range g[i].s.rf {
				if !x.tracked(mapID(idmap[i], f.src)) {
					continue
				}
				kinds[pk{f.pred, mapID(idmap[i], f.src), f.val, f.exists}] = true
			}
			for _, e := range g[i].s.elts {
				if e.obj <= 0 || !x.tracked(mapID(idmap[i], e.obj)) {
					continue
				}
				for _, p := range x.trackP {
					if t := x.eltPred(g[i].s, p, e.v); t != 0 {
						kinds[pk{p, mapID(idmap[i], e.obj), t > 0, false}] = true
						if !x.noExists {
							kinds[pk{p, mapID(idmap[i], e.obj), t > 0, true}] = true
						}
					}
				}
			}
		}
		// there is nothing else to know about what holds everywhere
		type ps struct {
			pred string
			src  int
		}
		settled := map[ps]bool{}
		var all []pk
		for k := range kinds {
			all = append(all, k)
		}
		sort.Slice(all, func(i, j int) bool { return fmt.Sprint(all[i]) < fmt.Sprint(all[j]) })
		for _, k := range all {
			l, ok := x.limits[k.src]
			if !ok || k.exists {
				continue
			}
			all := true
			for i := range g {
				if all {
					all, _ = x.holdsAll(g[i].s, k.pred, srcOf(i, k.src), K(0), l, k.val)
				}
			}
			if all {
				settled[ps{k.pred, k.src}] = true
				cand = append(cand, rtmpl{k.pred, k.src, K(0), l, k.val, false})
			}
		}
		var ks []pk
		for _, k := range all {
			if !settled[ps{k.pred, k.src}] {
				ks = append(ks, k)
			}
		}
		// end points
		var pts []Lin
		have := map[string]bool{}
		addPt := func(l Lin) {
			if k := l.key(); !have[k] {
				have[k] = true
				pts = append(pts, l)
			}
		}
		addPt(K(0))
		for a, c := range cells[0] {
			if c.kind != ckLin || strings.HasSuffix(c.path, "/cap") || strings.HasSuffix(c.path, "/n") || strings.HasPrefix(c.path, "mon:it:") || strings.HasSuffix(c.path, "/tot") || x.noEnd != nil && x.noEnd(c.path) {
				continue
			}
			same := true
			for i := range cells {
				if !cells[i][a].lin.eq(cells[0][a].lin) {
					same = false
				}
			}
			if !same || prev != nil && prev.gen[a] || c.lin.isConst() && prev == nil {
				// (a constant may well vary from the next round on)
				addPt(S(cs(a)))
				addPt(S(cs(a)).AddK(1))
			} else if !c.lin.isConst() {
				addPt(S(cs(a)))
				addPt(S(cs(a)).AddK(1))
			}
		}
		for i := range g {
			for _, f := range known[i] {
				if len(pts) < 40 {
					addPt(f.lo)
					addPt(f.hi)
				}
			}
		}
		for _, k := range ks {
			for _, p := range pts {
				for _, q := range pts {
					if !p.eq(q) {
						cand = append(cand, rtmpl{k.pred, k.src, p, q, k.val, k.exists})
					}
				}
			}
		}
	}
	var out []rtmpl
	seen := map[string]bool{}
	for _, t := range cand {
		k := t.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		nlo, ok1 := instNew(t.lo, val)
		nhi, ok2 := instNew(t.hi, val)
		if !ok1 || !ok2 {
			continue
		}
		nlo, nhi = ns.sys.norm(nlo), ns.sys.norm(nhi)
		if !t.exists {
			if ns.sys.entails(nlo.Sub(nhi)) {
				continue // empty in all states
			}
			if l, ok := x.limits[t.src]; ok && ns.sys.entails(nlo.Sub(l)) {
				continue // outside
			}
			if d := nhi.Sub(nlo); d.isConst() && d.c > 1 && !everywhere(t) {
				continue
			}
		}
		all, any := true, false
		for i := range g {
			lo, ok1 := instSafe(t.lo, cells[i])
			hi, ok2 := instSafe(t.hi, cells[i])
			if !ok1 || !ok2 {
				all = false
				break
			}
			if t.exists {
				if !x.holdsSome(g[i].s, t.pred, srcOf(i, t.src), lo, hi, t.val) {
					all = false
					break
				}
				any = true
				continue
			}
			ok, used := x.holdsAll(g[i].s, t.pred, srcOf(i, t.src), lo, hi, t.val)
			if !ok {
				all = false
				break
			}
			any = any || used
		}
		if !all || !any {
			continue
		}
		// skip what the ranges kept already say
		if t.exists {
			if x.holdsSome(ns, t.pred, t.src, nlo, nhi, t.val) && (prev == nil || !hasRT(prev.rt, k)) {
				continue
			}
		} else if !everywhere(t) && (prev == nil || !hasRT(prev.rt, k)) {
			varies := false
			for _, y := range append(append([]term(nil), t.lo.t...), t.hi.t...) {
				varies = varies || y.s < 0 && gen[int(-y.s-1)]
			}
			if varies { // (what a bound implies now may not be so in the next round)
				dup := false
				for _, f := range ns.rf {
					dup = dup || f.pred == t.pred && f.src == t.src && f.val == t.val && !f.exists && f.lo.eq(nlo) && f.hi.eq(nhi)
				}
				if dup {
					continue
				}
			} else if ok, _ := x.holdsAll(ns, t.pred, t.src, nlo, nhi, t.val); ok {
				continue
			}
		}
		out = append(out, t)
		ns.rf = append(ns.rf, RFact{t.pred, t.src, nlo, nhi, t.val, t.exists})
	}
	return out
}

// tidyRanges drops the facts on ranges that are empty or part of others.
func (x *Exec) tidyRanges(s *State) {
	var out []RFact
	for _, f := range s.rf {
		if f.exists {
			out = append(out, f)
			continue
		}
		if l, ok := x.limits[f.src]; ok {
			if s.sys.entails(f.lo.Sub(l)) {
				continue
			}
			if s.sys.entails(f.hi.Sub(l)) {
				f.hi = l // (written alike in all states)
			}
		}
		in := func(f, o RFact) bool {
			return f.pred == o.pred && f.src == o.src && f.val == o.val && !o.exists && s.sys.entails(f.lo.Sub(o.lo)) && s.sys.entails(o.hi.Sub(f.hi))
		}
		part := false
		for _, o := range out {
			if in(f, o) {
				part = true
				break
			}
		}
		if part {
			continue
		}
		keep := out[:0]
		for _, o := range out {
			if o.exists || !in(o, f) {
				keep = append(keep, o)
			}
		}
		out = append(keep, f)
	}
	s.rf = out
}

// tracked tells whether facts on the elements of an array are of interest.
func (x *Exec) tracked(obj int) bool {
	if x.limits == nil {
		return true
	}
	_, ok := x.limits[obj]
	return ok
}

func hasRT(ts []rtmpl, k string) bool {
	for _, t := range ts {
		if t.key() == k {
			return true
		}
	}
	return false
}

func mapID(m map[int]int, id int) int {
	if n, ok := m[id]; ok {
		return n
	}
	return id
}

// join merges the states that meet at b.
func (x *Exec) join(in []*State, b *ssa.BasicBlock) []*State {
	var out []*State
	for _, h := range x.group(in, b, nil, false, 0) {
		h.s.pred = nil
		out = append(out, h.s)
	}
	return out
}

func (x *Exec) joinReturns(in []*State) []*State {
	var out []*State
	for _, h := range x.group(in, nil, nil, false, 0) {
		out = append(out, h.s)
	}
	return out
}

// loop executes the loop and returns its exit edges.
// shortLoop: the loop counts up to a small number that is known when it is entered.
func (x *Exec) shortLoop(l *loopInfo, entries []*State) bool {
	for b := range l.body {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.BinOp)
			if !ok || !isBoolT(c.Type()) || !isIntT(c.X.Type()) {
				continue
			}
			lim := c.Y
			if !countsFrom(c.X, l.head) {
				if lim = c.X; !countsFrom(c.Y, l.head) {
					continue
				}
			}
			d, ok := lim.(ssa.Instruction)
			if !ok && !isParam(lim) || ok && l.body[d.Block()] {
				continue
			}
			known := len(entries) > 0
			for _, e := range entries {
				v, ok := x.val(e, lim).(VInt)
				if !ok {
					known = false
					break
				}
				n := e.sys.norm(v.e)
				if !n.isConst() || n.c < 0 || n.c > int64(x.unroll) {
					known = false
					break
				}
			}
			if known {
				return true
			}
		}
	}
	return false
}

func isParam(v ssa.Value) bool { _, ok := v.(*ssa.Parameter); return ok }

// countsFrom: v is a phi of the head, or one plus it.
func countsFrom(v ssa.Value, h *ssa.BasicBlock) bool {
	if phiOf(v, h) {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && (phiOf(b.X, h) && isConstInt(b.Y) || phiOf(b.Y, h) && isConstInt(b.X))
}

func (x *Exec) loop(l *loopInfo, entries []*State, info *fnInfo) []edgeOut {
	where := fmt.Sprintf("%s b%d", shortFn(info.fn), l.head.Index)
	if x.constMode {
		var exits []edgeOut
		cur := entries
		for n := 0; len(cur) > 0; n++ {
			if n > 1<<21 {
				panic(giveUp{"the loop at " + where + " does not end"})
			}
			outs := x.region(l, l.head, cur, info)
			cur = nil
			for _, o := range outs {
				if o.to == l.head {
					cur = append(cur, o.s)
				} else {
					exits = append(exits, o)
				}
			}
		}
		return exits
	}
	if x.havocNum && x.numericLoop(l) {
		return x.havocLoop(l, entries, info)
	}
	mark, obl := len(x.log), x.nobl
	if l.counted || x.shortLoop(l, entries) {
		var exits []edgeOut
		var cur []*State
		for _, e := range entries {
			cur = append(cur, e.clone())
		}
		for n := 0; n <= x.unroll && len(cur) > 0 && len(cur) < 12; n++ {
			outs := x.region(l, l.head, cur, info)
			cur = nil
			for _, o := range outs {
				if o.to == l.head {
					cur = append(cur, o.s)
				} else {
					exits = append(exits, o)
				}
			}
		}
		if len(cur) == 0 {
			x.loopsSeen[where] = "unrolled: bounded by constants"
			return exits
		}
		x.log, x.nobl = x.log[:mark], obl
	}
	itk := "it:" + where
	if x.peel != nil && x.peel(l, info) {
		var exits []edgeOut
		var cur []*State
		for _, o := range x.region(l, l.head, entries, info) {
			if o.to == l.head {
				cur = append(cur, o.s)
			} else {
				exits = append(exits, o)
			}
		}
		if len(cur) == 0 {
			return exits
		}
		old := x.peel
		x.peel = func(m *loopInfo, info *fnInfo) bool { return m != l && old(m, info) }
		defer func() { x.peel = old }()
		return append(exits, x.loop(l, cur, info)...)
	}
	for _, e := range entries {
		e.setMon(itk, VInt{K(0)})
	}
	x.wentCoarse = 0
	oldest := x.nsym
	// relations that held for the loop when it was last met are tried first
	heads := x.group(entries, l.head, x.seeds[l.head], false, 0)
	coarse := x.wentCoarse
	var exits []edgeOut
	for round := 0; ; round++ {
		if round > 24 {
			panic(giveUp{"no invariant found for the loop at " + where})
		}
		x.log, x.nobl = x.log[:mark], obl
		byShape := map[string]*head{}
		var in []*State
		for _, h := range heads {
			byShape[h.shape] = h
			in = append(in, h.s.clone())
		}
		outs := x.region(l, l.head, in, info)
		exits = nil
		var backs []*State
		for _, o := range outs {
			if o.to == l.head {
				it := o.s.mon[itk].(VInt)
				o.s.setMon(itk, VInt{it.e.AddK(1)})
				backs = append(backs, o.s)
			} else {
				m := map[string]Val{}
				for k, v := range o.s.mon {
					if k != itk {
						m[k] = v
					}
				}
				o.s.mon = m
				exits = append(exits, o)
			}
		}
		collect := func() (all []*State) {
			for _, e := range entries {
				all = append(all, e.clone())
			}
			for _, b := range backs {
				all = append(all, b.clone())
			}
			if round >= 8 { // from now on the heads only grow
				for _, h := range heads {
					all = append(all, h.s.clone())
				}
			}
			return all
		}
		all := collect()
		if round > 14 {
			coarse = 2
		}
		x.round = round
		x.wentCoarse = 0
		x.loopSym = oldest
		next := x.group(all, l.head, byShape, round >= 3, coarse)
		if round >= 1 && round < 8 && x.partOf != nil {
			// heads that come from one path only are named anew each time
			var again []*State
			for _, h := range next {
				if p := byShape[h.shape]; p != nil && p.sig != h.sig && len(p.gen) == 0 && len(h.gen) == 0 {
					again = append(again, p.s.clone())
				}
			}
			if len(again) > 0 {
				next = x.group(append(collect(), again...), l.head, byShape, round >= 3, coarse)
			}
		}
		x.round, x.loopSym = 0, 0
		coarse = max(coarse, x.wentCoarse)
		stable := len(next) == len(heads)
		for _, h := range next {
			if p := byShape[h.shape]; p == nil || p.sig != h.sig {
				stable = false
			}
		}
		if stable {
			if x.terminates {
				x.ranking(l, heads, backs, where, info)
			}
			sd := map[string]*head{}
			for _, h := range heads {
				sd[h.shape] = h
			}
			x.seeds[l.head] = sd
			if x.loopsSeen[where] == "" {
				x.loopsSeen[where] = fmt.Sprintf("invariant found in %d rounds, %d partitions", round+1, len(heads))
			}
			return exits
		}
		if x.debug {
			for _, h := range next {
				if p := byShape[h.shape]; p == nil {
					fmt.Printf("NEWSHAPE %s\n", h.shape)
				} else if p.sig != h.sig {
					a, b := strings.Split(p.sig, "\n"), strings.Split(h.sig, "\n")
					for i := range b {
						if i < len(a) && a[i] != b[i] {
							var ng []int
							for k := range h.gen {
								if !p.gen[k] {
									ng = append(ng, k)
								}
							}
							fmt.Printf("NG %v %d %d restrict %v\n", ng, len(h.cells), len(p.cells), round >= 3)
							fmt.Printf("SIGDIFF %d\n- %s\n+ %s\n", i, a[i], b[i])
							break
						}
					}
				}
			}
			fmt.Printf("LOOP %s round %d: %d heads, %d backs\n", where, round, len(next), len(backs))
		}
		heads = next
	}
}

// ranking requires a (lexicographic) ranking function of the loop.
func (x *Exec) ranking(l *loopInfo, heads []*head, backs []*State, where string, info *fnInfo) {
	x.nobl++
	// a range over a map or string ends
	for _, i := range l.head.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return
		}
	}
	type trans struct {
		s             *State
		before, after map[string]Lin
	}
	var ts []trans
	add := func(b *State, from *head) {
		before, after := map[string]Lin{}, map[string]Lin{}
		for _, c := range x.shapeOf(b, l.head, 0).cells {
			if c.kind == ckLin {
				after[c.path] = c.lin
			}
		}
		for _, c := range x.shapeOf(from.s, l.head, 0).cells {
			if c.kind == ckLin {
				before[c.path] = c.lin
			}
		}
		ts = append(ts, trans{b, before, after})
	}
	known := true
	for _, b := range x.concretise(backs, l.head) {
		// the head it comes from: the one whose counter symbol it extends
		var from *head
		for k, v := range b.mon {
			if !strings.HasPrefix(k, "it:"+where) {
				continue
			}
			it := v.(VInt).e.AddK(-1)
			for _, h := range heads {
				if hv, ok := h.s.mon[k].(VInt); ok && b.sys.entailsEQ(hv.e.Sub(it)) && (from == nil || !hv.e.isConst()) {
					from = h
				}
			}
		}
		if from == nil {
			known = false
			break
		}
		add(b, from)
	}
	if !known {
		// states of several heads were merged: the body is executed from each
		// head alone
		ts = nil
		mark, obl := len(x.log), x.nobl
		itk := "it:" + where
		for _, h := range heads {
			var bs []*State
			for _, o := range x.region(l, l.head, []*State{h.s.clone()}, info) {
				if o.to == l.head {
					o.s.setMon(itk, VInt{o.s.mon[itk].(VInt).e.AddK(1)})
					bs = append(bs, o.s)
				}
			}
			for _, b := range x.concretise(bs, l.head) {
				add(b, h)
			}
		}
		x.log, x.nobl = x.log[:mark], obl
	}
	if len(ts) == 0 {
		return
	}
	var paths []string
	for p := range ts[0].before {
		ok := true
		for _, t := range ts {
			if _, has := t.before[p]; !has {
				ok = false
			}
			if _, has := t.after[p]; !has {
				ok = false
			}
		}
		if ok && !strings.HasPrefix(p, "mon:it:") {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	type fn struct {
		name string
		get  func(m map[string]Lin) Lin
	}
	var fs []fn
	for _, p := range paths {
		p := p
		fs = append(fs, fn{p, func(m map[string]Lin) Lin { return m[p] }})
		for _, q := range paths {
			q := q
			if p != q {
				fs = append(fs, fn{q + "-" + p, func(m map[string]Lin) Lin { return m[q].Sub(m[p]) }})
			}
		}
	}
	for _, p := range paths {
		p := p
		for _, c := range []int64{256, 1 << 21} {
			c := c
			fs = append(fs, fn{fmt.Sprintf("%d-%s", c, p), func(m map[string]Lin) Lin { return K(c).Sub(m[p]) }})
		}
	}
	left := ts
	var used []string
	for len(left) > 0 {
		progress := false
		for _, f := range fs {
			var rest []trans
			ok := true
			for _, t := range left {
				b, a := f.get(t.before), f.get(t.after)
				if t.s.sys.entails(b.Sub(a).AddK(-1)) && t.s.sys.entails(b.AddK(4)) {
					continue
				}
				if t.s.sys.entails(b.Sub(a)) {
					rest = append(rest, t)
					continue
				}
				ok = false
				break
			}
			if ok && len(rest) < len(left) {
				left, progress = rest, true
				used = append(used, f.name)
				break
			}
		}
		if !progress {
			if x.debug {
				fmt.Println("RANKING", where, paths, used)
				for _, t := range left {
					fmt.Println("  BACK", t.s.sys)
					for _, p := range paths {
						fmt.Println("   ", p, x.linString(t.before[p]), "->", x.linString(t.after[p]))
					}
				}
			}
			x.fail("termination", l.head.Instrs[0], "no ranking function found for the loop")
			return
		}
	}
	x.loopsSeen[where] = "terminates: decreasing " + strings.Join(used, " then ")
}
