package main

// C22: tokens are broken into nodes without losing text.

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const breakPkg = "linebreak"

func init() {
	register("C22", "other", aiTrusted+": what the nodes returned render, one after the other, is proved to be the text of the token, for any split of it by the punctuator and the hyphenator; each width is proved to come from the measurer given the same piece", checkC22)
}

// nodeModel describes the nodes of the line breaker.
type nodeModel struct {
	p      *Program
	r      *Report
	node   *types.Named
	fields int
	width  int // path of the width: the first float of the first embedded struct, or a field
	wpath  []int
	render *ssa.Function
	shapes map[string]string
	prog   map[*ssa.Function]bool
}

var measured = regexp.MustCompile(`measured~\d+`)

func newNodeModel(p *Program, r *Report) *nodeModel {
	sp := p.SSAPkgs[breakPkg]
	if sp == nil || sp.Type("LineBreaker") == nil || sp.Type("nodeT") == nil {
		r.Fail("undecided", breakPkg, "-", "the types LineBreaker and nodeT are expected")
		return nil
	}
	m := &nodeModel{p: p, r: r, shapes: map[string]string{}}
	m.node, _ = sp.Type("nodeT").Type().(*types.Named)
	st, ok := m.node.Underlying().(*types.Struct)
	if !ok {
		r.Fail("undecided", breakPkg, "-", "a node is expected to be a struct")
		return nil
	}
	m.fields = st.NumFields()
	f, err := p.Method(breakPkg, "nodeT", "Render")
	if err != nil {
		r.Fail("undecided", breakPkg, "-", err.Error())
		return nil
	}
	m.render = f
	// the field named width
	var find func(st *types.Struct, at []int) []int
	find = func(st *types.Struct, at []int) []int {
		for i := 0; i < st.NumFields(); i++ {
			q := append(at[:len(at):len(at)], i)
			if st.Field(i).Name() == "width" {
				return q
			}
			if s2, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Anonymous() {
				if w := find(s2, q); w != nil {
					return w
				}
			}
		}
		return nil
	}
	m.wpath = find(st, nil)
	if m.wpath == nil {
		r.Fail("undecided", breakPkg, "-", "a node has no width")
		return nil
	}
	return m
}

// written is what rendering the node writes, the sequences of its attribute apart.
func (m *nodeModel) written(x *Exec, s *State, v VStruct) (segs []Seg, ok bool) {
	t := s.clone()
	w := VTerm{key: "box writer", nn: 1, typ: m.render.Signature.Params().At(0).Type()}
	rs := x.call(t, m.render, []Val{v, w}, nil, nil)
	if x.debug {
		fmt.Println("NODE", v, len(rs))
	}
	if len(rs) != 1 {
		return nil, false
	}
	q := rs[0].s
	for i := 0; ; i++ {
		p, is := q.mon[fmt.Sprintf("box written %d", i)].(VSlice)
		if !is {
			break
		}
		segs = append(segs, x.contentOf(q, p)...)
	}
	return segs, true
}

// measure requires the width of a node that renders something to come from the
// measure of what it renders, always by the same formula.
func (m *nodeModel) measure(x *Exec, s *State, v VStruct, segs []Seg) {
	if len(segs) == 0 {
		return
	}
	var w Val = v
	for _, i := range m.wpath {
		st, ok := w.(VStruct)
		if !ok || i >= len(st.f) {
			w = nil
			break
		}
		w = st.f[i]
	}
	t, ok := w.(VTerm)
	if x.debug {
		fmt.Println("WIDTH", w)
	}
	d := "a box is not as wide as the measurer says"
	if ok {
		of := measured.FindAllString(t.key, -1)
		ok = len(of) > 0
		for _, k := range of {
			a, known := s.memoKey(k)
			sl, is := a.(VSlice)
			ok = ok && known && is && x.segsEq(s, x.contentOf(s, sl), segs)
		}
		if !ok {
			d = "a box is not as wide as the text it renders: " + t.key
		}
		shape := measured.ReplaceAllString(t.key, "measured")
		if old, seen := m.shapes["box"]; !seen {
			m.shapes["box"] = shape
		} else if old != shape {
			ok, d = false, "the widths of two boxes are not computed alike: "+old+" and "+shape
		}
	}
	x.nobl++
	if !ok {
		x.fail("measured", x.curIns, d)
	}
}

func (m *nodeModel) install(x *Exec) {
	m.shapes = map[string]string{}
	x.alias, x.looseLen, x.minCoarse = true, true, 1
	rt := types.NewSlice(types.Typ[types.Rune])
	x.partSegs = func(x *Exec, s *State, v Val) ([]Seg, bool) {
		st, ok := v.(VStruct)
		if !ok || len(st.f) != m.fields {
			return nil, false
		}
		at := x.curIns
		segs, ok := m.written(x, s, st)
		x.curIns = at
		if !ok {
			return nil, false
		}
		m.measure(x, s, st, segs)
		return segs, true
	}
	x.partOf = func(x *Exec, s *State, t types.Type, src int, lo, hi Lin) (Val, bool) {
		part := func() VSlice {
			if src == 0 {
				return VSlice{}
			}
			ln := s.sys.norm(hi.Sub(lo)) // nothing is appended to it: see onAppend
			return VSlice{obj: src, off: lo, ln: ln, cp: ln}
		}
		switch {
		case types.Identical(t, rt):
			return part(), true
		case isStringT(t):
			id := x.uniq("token")
			s.setMemoKey("runes:"+id, part())
			return VStr{id: id, ln: x.symLen(s, "len")}, true
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		v := x.fresh(s, t, "stripped").(VStruct)
		v.f = append([]Val(nil), v.f...)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Text" {
				v.f[i] = part()
			} else if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				n := x.symLen(s, st.Field(i).Name())
				id := x.newObj(s, &Obj{arr: true, typ: types.Typ[types.Rune], n: n, ck: cSrc, name: st.Field(i).Name()})
				v.f[i] = VSlice{obj: id, ln: n, cp: n}
			}
		}
		return v, true
	}
	x.onAppend = func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction) {
		o := x.obj(s, dst.obj)
		if dst.obj != 0 && o != nil && (o.ck == cSrc || o.cur) {
			x.nobl++
			x.fail("kept", ins, "elements may be appended in place to a part of the token, or to a list of parts")
		}
	}
	x.callFn = func(x *Exec, s *State, fn VFunc, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		if len(args) != 1 {
			return nil, false
		}
		a, ok := args[0].(VSlice)
		if !ok {
			return nil, false
		}
		switch {
		case strings.HasPrefix(fn.id, "splits "):
			// (none, of an empty text, or some)
			var rs []ret
			if t := s.clone(); x.assume(t, &Cond{k: cdEQ, l: a.ln}) {
				rs = append(rs, ret{t, VSlice{}})
			}
			some := m.listOf(x, s, rt, a, fn.id)
			if x.assume(s, &Cond{k: cdGE, l: some.ln.AddK(-1)}) {
				rs = append(rs, ret{s, some})
			}
			return rs, true
		case strings.HasPrefix(fn.id, "measures "):
			k := x.uniq("measured")
			s.setMemoKey(k, a)
			return []ret{{s, VTerm{key: k, typ: types.Typ[types.Float64]}}}, true
		}
		return nil, false
	}
	x.invoke = func(x *Exec, s *State, recv Val, g *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		t, ok := recv.(VTerm)
		if !ok || t.key != "box writer" || g.Name() != "WriteRunes" || len(args) != 1 {
			return nil, false
		}
		m.write(s, args[0])
		return []ret{{s, x.fresh(s, g.Type().(*types.Signature).Results(), "written")}}, true
	}
	x.override = func(x *Exec, s *State, f *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		if f.Object() == nil || f.Object().Pkg() == m.node.Obj().Pkg() {
			return nil, false
		}
		void := func() ([]ret, bool) { return []ret{{s, x.fresh(s, f.Signature.Results(), f.Name())}}, true }
		switch rel := relPkg(m.p, f); {
		case rel == attrPkg && f.Name() == "Render" && recvNamed(f) == "Attribute":
			at, ok := args[0].(VStruct)
			if t, is := args[0].(VTerm); is {
				text, known := s.memoKey("text of " + t.key)
				if !known {
					return nil, false
				}
				m.write(s, text)
				return []ret{{s, VTuple{}}}, true
			}
			if p, is := args[0].(VPtr); is && p.obj != 0 && len(p.path) == 0 {
				at, ok = x.obj(s, p.obj).val.(VStruct)
			}
			if !ok {
				return nil, false
			}
			st := m.p.SSAPkgs[attrPkg].Type("Attribute").Type().Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Text" {
					m.write(s, at.f[i])
				}
			}
			return []ret{{s, VTuple{}}}, true
		case rel == attrPkg && f.Name() == "New":
			k := x.uniq("attribute")
			s.setMemoKey("text of "+k, args[0])
			return []ret{{s, VTerm{key: k, nn: 1, typ: f.Signature.Results().At(0).Type()}}}, true
		case rel == attrPkg && (f.Name() == "Push" || f.Name() == "SetStop" || f.Name() == "SetStart"):
			return void()
		case rel == ansiPkg && f.Name() == "StripToken":
			a, ok := args[0].(VSlice)
			text, known := s.mon["text"].(VSlice)
			tok, _ := s.mon["token"].(VSlice)
			if !ok || !known || !x.segsEq(s, x.contentOf(s, a), view(tok)) {
				return nil, false
			}
			return []ret{{s, m.listOf(x, s, f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), text, "pieces")}}, true
		case rel == "wordbreak/hyphenator" && f.Name() == "SplitWord":
			a, ok := args[0].(VSlice)
			if !ok {
				return nil, false
			}
			return []ret{{s, m.listOf(x, s, rt, a, "split word")}}, true
		case f.Signature.Results().Len() == 1 && isBoolT(f.Signature.Results().At(0).Type()) && len(args) == 1:
			if a, ok := args[0].(VSlice); ok {
				return []ret{{s, VBool{&Cond{k: cdAtom, atom: "is " + f.Name(), args: []Lin{a.off, a.ln}}}}}, true
			}
		}
		return nil, false
	}
}

func (m *nodeModel) write(s *State, v Val) {
	for i := 0; ; i++ {
		k := fmt.Sprintf("box written %d", i)
		if s.mon[k] == nil {
			s.setMon(k, v)
			return
		}
	}
}

// listOf is any list of parts of a slice that lose nothing.
func (m *nodeModel) listOf(x *Exec, s *State, elem types.Type, a VSlice, name string) VSlice {
	n := x.symLen(s, "parts")
	id := x.newObj(s, &Obj{arr: true, typ: elem, ck: cList, segs: x.contentOf(s, a), tot: n, n: n, name: name, cur: true, curP: a.off})
	return VSlice{obj: id, ln: n, cp: n}
}

// receiver is any line breaker.
func (m *nodeModel) receiver(x *Exec, s *State, f *ssa.Function, config map[string]bool) VPtr {
	var cell func(t types.Type, name string) VPtr
	var val func(t types.Type, name string) Val
	val = func(t types.Type, name string) Val {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			v := VStruct{}
			for i := 0; i < u.NumFields(); i++ {
				v.f = append(v.f, val(u.Field(i).Type(), u.Field(i).Name()))
			}
			return v
		case *types.Pointer:
			n, ok := u.Elem().(*types.Named)
			if _, is := u.Elem().Underlying().(*types.Struct); ok && is && n.Obj().Pkg() == m.node.Obj().Pkg() {
				return cell(u.Elem(), name)
			}
			return VTerm{key: x.uniq(name), typ: t, nn: 1}
		case *types.Basic:
			if b, ok := config[name]; ok && isBoolT(t) {
				return VBool{condOf(b)}
			}
		case *types.Signature:
			if u.Results().Len() == 1 {
				switch u.Results().At(0).Type().Underlying().(type) {
				case *types.Slice:
					return VFunc{id: "splits " + name}
				case *types.Basic:
					return VFunc{id: "measures " + name}
				}
			}
		}
		return x.fresh(s, t, name)
	}
	cell = func(t types.Type, name string) VPtr {
		id := x.newCell(s, t, val(t, name), name)
		x.roots = append(x.roots, id)
		return VPtr{obj: id}
	}
	return cell(f.Params[0].Type().Underlying().(*types.Pointer).Elem(), "line breaker")
}

func checkC22(p *Program, r *Report) {
	r.Rule("what the nodes of a token render is the text of the token, in order; each box is as wide as the measurer says of its text")
	r.Rule("the nodes of a paragraph are those of its tokens, in order")
	m := newNodeModel(p, r)
	if m == nil {
		return
	}
	f, err := p.Method(breakPkg, "LineBreaker", "boxNodes")
	if err != nil {
		r.Fail("undecided", "boxNodes", "-", err.Error())
		return
	}
	g, err := p.Method(breakPkg, "LineBreaker", "leftAlignedNodes")
	if err != nil {
		r.Fail("undecided", "leftAlignedNodes", "-", err.Error())
		return
	}
	configs := m.configs(f)
	parallel(r, len(configs)+1, func(i int, r *Report) {
		m := *m
		m.r = r
		if i < len(configs) {
			c := configs[i]
			analyse(p, r, "boxNodes", nil, func(x *Exec) {
				m.install(x)
				s := x.newState()
				tok := x.input(s, types.Typ[types.Rune], "token")
				text := x.input(s, types.Typ[types.Rune], "text")
				x.roots = []int{tok.obj, text.obj}
				s.setMon("token", tok)
				s.setMon("text", text)
				rs := x.call(s, f, []Val{m.receiver(x, s, f, c), tok}, nil, nil)
				x.require(len(rs) > 0, "returns", f, "the function never returns")
				for _, q := range rs {
					r.Count("outcomes", fmt.Sprint("boxNodes ", c))
					m.result(x, q, f, q.s.mon["text"].(VSlice))
				}
			})
			return
		}
		analyse(p, r, "leftAlignedNodes", nil, func(x *Exec) {
			m.install(x)
			m.assumeBox(x, f)
			s := x.newState()
			text := x.input(s, types.Typ[types.Rune], "text")
			x.roots = []int{text.obj}
			s.setMon("text", text)
			tokens := m.listOf(x, s, types.Typ[types.String], text, "tokens")
			rs := x.call(s, g, []Val{m.receiver(x, s, g, nil), tokens}, nil, nil)
			x.require(len(rs) > 0, "returns", g, "the function never returns")
			for _, q := range rs {
				r.Count("outcomes", "leftAlignedNodes")
				m.result(x, q, g, q.s.mon["text"].(VSlice))
			}
		})
	})
	r.AtLeast("outcomes", 2)
}

// assumeBox replaces boxNodes with what is proved of it: the nodes it returns
// render its token.
func (m *nodeModel) assumeBox(x *Exec, f *ssa.Function) {
	lib := x.override
	x.override = func(x *Exec, s *State, h *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		if h != f {
			return lib(x, s, h, args, site)
		}
		a, ok := args[1].(VSlice)
		if !ok {
			return nil, false
		}
		n := x.symLen(s, "nodes")
		id := x.newObj(s, &Obj{arr: true, typ: m.node, ck: cList, segs: x.contentOf(s, a), tot: n, n: n, name: "nodes"})
		return []ret{{s, VSlice{obj: id, ln: n, cp: n}}}, true
	}
}

func (m *nodeModel) result(x *Exec, q ret, f *ssa.Function, text VSlice) {
	x.finishLists(q.s)
	sl, ok := q.v.(VSlice)
	var segs []Seg
	if ok {
		segs, ok = x.listSegs(q.s, sl)
	}
	d := "the nodes are not known to render the text, in order"
	if ok {
		d = "the nodes render " + x.segsString(q.s, segs) + ", not the text"
	}
	x.require(ok && x.segsEq(q.s, segs, view(text)), "lossless", f, d)
}

// relPkg is the path of the package of f within the module.
func relPkg(p *Program, f *ssa.Function) string {
	for rel, sp := range p.SSAPkgs {
		if f.Object() != nil && sp.Pkg == f.Object().Pkg() {
			return rel
		}
	}
	return ""
}

// configs enumerates the boolean options of a line breaker.
func (m *nodeModel) configs(f *ssa.Function) []map[string]bool {
	var names []string
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		st, is := t.Underlying().(*types.Struct)
		if !is || ok && n.Obj().Pkg() != m.node.Obj().Pkg() || seen[t] {
			return
		}
		seen[t] = true
		for i := 0; i < st.NumFields(); i++ {
			if isBoolT(st.Field(i).Type()) {
				names = append(names, st.Field(i).Name())
			}
			walk(st.Field(i).Type())
		}
	}
	walk(f.Params[0].Type())
	if len(names) > 4 {
		return []map[string]bool{{}}
	}
	var out []map[string]bool
	for k := 0; k < 1<<len(names); k++ {
		c := map[string]bool{}
		for i, n := range names {
			c[n] = k>>i&1 == 1
		}
		out = append(out, c)
	}
	return out
}
