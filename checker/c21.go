package main

// C21: hyphens that are not in the text are rendered at the end of a line only,
// at a break within a word, when they are wanted.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C21", "other", aiTrusted+": the writes of anything but the text of the nodes and spaces are found by a backward dataflow analysis, and proved to occur only if enabled, for the last node of a line, when a mark of this node is set; the nodes with this mark are proved to stand between two parts returned by the hyphenator", checkC21)
}

var writes = regexp.MustCompile(`^(Write|Fprint|Print|Append)`)

// origins tells what the runes written may come from.
type origins struct {
	p     *Program
	pkg   *ssa.Package
	node  *types.Named
	funcs []*ssa.Function
}

// blank tells whether the value is made of text of nodes and of spaces only.
func (o *origins) blank(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return true
		}
		switch v.Value.Kind() {
		case constant.String:
			return strings.Trim(constant.StringVal(v.Value), " ") == ""
		case constant.Int:
			return v.Int64() == ' '
		}
		return false
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !o.blank(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Convert:
		return o.blank(v.X, seen)
	case *ssa.ChangeType:
		return o.blank(v.X, seen)
	case *ssa.MakeInterface:
		return o.blank(v.X, seen)
	case *ssa.Slice:
		return o.blank(v.X, seen)
	case *ssa.MakeSlice, *ssa.Alloc:
		return o.stored(v, seen)
	case *ssa.Field:
		return o.isNode(v.X.Type())
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			return o.isNode(a.X.Type().Underlying().(*types.Pointer).Elem())
		case *ssa.Alloc:
			return o.stored(a, seen)
		case *ssa.IndexAddr:
			return o.blank(a.X, seen)
		case *ssa.Global:
			if a.Pkg != o.pkg || a.Object() == nil || a.Object().Exported() {
				return false
			}
			for _, f := range o.funcs {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(nil) {
							if *op != a {
								continue
							}
							if st, ok := ins.(*ssa.Store); ok && st.Addr == a && o.blank(st.Val, seen) {
								continue
							}
							if ld, ok := ins.(*ssa.UnOp); ok && ld.Op == token.MUL {
								continue
							}
							return false
						}
					}
				}
			}
			return true
		}
		return false
	case *ssa.Parameter:
		f := v.Parent()
		k := -1
		for i, q := range f.Params {
			if q == v {
				k = i
			}
		}
		found := false
		for _, g := range o.funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op != f {
							continue
						}
						c, ok := ins.(ssa.CallInstruction)
						if !ok || c.Common().StaticCallee() != f || k >= len(c.Common().Args) || !o.blank(c.Common().Args[k], seen) {
							return false
						}
						found = true
					}
				}
			}
		}
		return found
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" {
				return false
			}
			return o.blank(v.Call.Args[0], seen) && o.blank(v.Call.Args[1], seen)
		}
		f := v.Call.StaticCallee()
		if f == nil {
			return false
		}
		if f.Pkg == o.pkg && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !o.blank(r.Results[0], seen) {
					return false
				}
			}
			return true
		}
		if f.Pkg != nil && f.Name() == "Repeat" {
			switch f.Pkg.Pkg.Path() {
			case "strings", "bytes", "slices":
				return o.blank(v.Call.Args[0], seen)
			}
		}
	}
	return false
}

// stored tells whether what is stored at the elements of the array is blank.
func (o *origins) stored(v ssa.Value, seen map[ssa.Value]bool) bool {
	for _, ref := range *v.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != v || !o.blank(r.Val, seen) {
				return false
			}
		case *ssa.IndexAddr:
			seen[r] = true
			if !o.stored(r, seen) {
				return false
			}
		case *ssa.Slice:
			if !seen[r] {
				seen[r] = true
				if !o.stored(r, seen) {
					return false
				}
			}
		case *ssa.Phi:
			if !seen[r] {
				seen[r] = true
				if !o.stored(r, seen) {
					return false
				}
			}
		}
	}
	return true
}

func (o *origins) isNode(t types.Type) bool { return types.Identical(t, o.node) }

// checkC21 is in three parts: where hyphens are written, which nodes ask for
// it, and who else sets the mark of these nodes.
func checkC21(p *Program, r *Report) {
	r.Rule("what render writes is the text of the nodes, spaces, and hyphens: these only when enabled, for the last node of a line, if a mark of that node is set")
	r.Rule("the nodes so marked stand between two parts returned by the hyphenator, within a word")
	r.Rule("the mark is set on nodes under construction only")
	m := newNodeModel(p, r)
	if m == nil {
		return
	}
	f, err := p.Method(breakPkg, "LineBreaker", "render")
	if err != nil {
		r.Fail("undecided", "render", "-", err.Error())
		return
	}
	all, err := p.Method(breakPkg, "LineBreaker", "LeftAlignUniform")
	if err != nil {
		r.Fail("undecided", "LeftAlignUniform", "-", err.Error())
		return
	}
	box, err := p.Method(breakPkg, "LineBreaker", "boxNodes")
	if err != nil {
		r.Fail("undecided", "boxNodes", "-", err.Error())
		return
	}
	tokens, err := p.Method(breakPkg, "LineBreaker", "leftAlignedNodes")
	if err != nil {
		r.Fail("undecided", "leftAlignedNodes", "-", err.Error())
		return
	}
	h := &hyphens{m: m, p: p, r: r, sites: map[ssa.Instruction]bool{}, marks: map[int]int{}}
	h.find(all, f)
	h.freeze(h.reach(f))
	if len(r.Findings) > 0 {
		return
	}
	option := h.option(all.Pkg)
	configs := m.configs(f)
	runs := make([]*hyphens, len(configs))
	parallel(r, len(configs), func(i int, r *Report) {
		own, model := *h, *m
		model.r = r
		own.m, own.r, own.marks = &model, r, map[int]int{}
		runs[i] = &own
		own.rendering(f, configs[i])
	})
	for i, q := range runs {
		if q.hits == 0 {
			continue
		}
		h.hits += q.hits
		for k, n := range q.marks {
			h.marks[k] += n
		}
		r.Count("settings in which hyphens are rendered", fmt.Sprint(configs[i]))
		if !configs[i][option] {
			r.Fail("enabled", shortFn(f), p.PosOfFunc(f), "hyphens are rendered although they are not enabled")
		}
	}
	if h.hits == 0 {
		r.Count("hyphens are never rendered", "render")
		return
	}
	var mark []int
	for k, n := range h.marks {
		if n == h.hits {
			mark = append(mark, k)
		}
	}
	sort.Ints(mark)
	if len(mark) == 0 {
		r.Fail("mark", shortFn(f), p.PosOfFunc(f), "no mark of the last node of the line decides whether a hyphen is rendered")
		return
	}
	st := m.node.Underlying().(*types.Struct)
	var best *Report
	for _, k := range mark {
		q := newReport(r.Prop)
		r.Count("marks", st.Field(k).Name())
		h.r = q
		parallel(q, 2, func(i int, r *Report) {
			own := *h
			own.r = r
			own.marking([]*ssa.Function{box, tokens}[i], box, k)
		})
		h.stores(all, k)
		h.nodes(tokens)
		if best == nil || len(q.Findings) < len(best.Findings) {
			best = q
		}
		if len(q.Findings) == 0 {
			break
		}
	}
	r.add(best)
}

type hyphens struct {
	m     *nodeModel
	p     *Program
	r     *Report
	sites map[ssa.Instruction]bool
	// the types of elements of arrays that are set by append only, when rendering
	frozen map[types.Type]bool
	marks  map[int]int // field -> times it was known to be set when a hyphen was written
	hits   int
}

func (h *hyphens) funcs(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, f := range append([]*ssa.Function{pkg.Func("init")}, h.p.Funcs...) {
		if f != nil && f.Pkg == pkg && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// option is the name of the option set by WithRenderHyphens.
func (h *hyphens) option(pkg *ssa.Package) string {
	f := pkg.Func("WithRenderHyphens")
	if f == nil {
		return ""
	}
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && isBoolT(st.Val.Type()) {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
					}
				}
			}
		}
	}
	return ""
}

// reach lists the functions of the package called from f.
func (h *hyphens) reach(f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || g.Pkg != f.Pkg {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	visit(f)
	return out
}

// find looks for what may write anything else than text and spaces.
func (h *hyphens) find(all, render *ssa.Function) {
	o := &origins{p: h.p, pkg: all.Pkg, node: h.m.node, funcs: h.funcs(all.Pkg)}
	in := map[*ssa.Function]bool{}
	for _, f := range h.reach(render) {
		in[f] = true
	}
	for _, f := range h.reach(all) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if op, ok := ins.(*ssa.BinOp); ok && op.Op == token.ADD && isStringT(op.Type()) {
					h.r.Fail("undecided", shortFn(f), h.p.PosOf(ins), "strings are concatenated, where writers are expected")
					continue
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cm := c.Common()
				name := ""
				if cm.IsInvoke() {
					name = cm.Method.Name()
				} else if g := cm.StaticCallee(); g != nil && g.Pkg != all.Pkg {
					name = g.Name()
				}
				if !writes.MatchString(name) {
					continue
				}
				args := cm.Args
				if !cm.IsInvoke() && len(args) > 0 {
					args = args[1:]
				}
				text := true
				for _, a := range args {
					text = text && o.blank(a, map[ssa.Value]bool{})
				}
				h.r.Count("writes", shortFn(f)+" "+h.p.PosOf(ins))
				if text {
					continue
				}
				if !in[f] {
					h.r.Fail("text", shortFn(f), h.p.PosOf(ins), "something else than the text is written, not when rendering lines")
				}
				h.sites[ins] = true
				h.r.Count("writes of something else than text", shortFn(f)+" "+h.p.PosOf(ins))
			}
		}
	}
}

// rendering analyses the writes of hyphens.
func (h *hyphens) rendering(f *ssa.Function, config map[string]bool) {
	m := h.m
	st := m.node.Underlying().(*types.Struct)
	analyse(h.p, h.r, "render", nil, func(x *Exec) {
		atom := func(i int, at Lin) Val {
			return VBool{&Cond{k: cdAtom, atom: "node." + st.Field(i).Name(), args: []Lin{at}}}
		}
		x.onIndex = func(x *Exec, s *State, v VSlice, at Lin) {
			if o := x.obj(s, v.obj); o != nil && types.Identical(o.typ, m.node) {
				s.setMon("node at", VInt{at})
				s.setMon("node end", VInt{s.sys.norm(v.off.Add(v.ln))})
			}
		}
		x.onLoad = func(x *Exec, s *State, ptr VPtr, t types.Type, ins ssa.Instruction) (Val, bool) {
			o := x.obj(s, ptr.obj)
			if o == nil || !o.arr || !types.Identical(o.typ, m.node) || len(ptr.path) == 0 || ptr.path[0].idx == nil {
				return nil, false
			}
			at := *ptr.path[0].idx
			switch len(ptr.path) {
			case 1:
				v := x.fresh(s, t, "node").(VStruct)
				v.f = append([]Val(nil), v.f...)
				for i := range v.f {
					if isBoolT(st.Field(i).Type()) {
						v.f[i] = atom(i, at)
					}
				}
				return v, true
			case 2:
				if i := ptr.path[1].f; ptr.path[1].idx == nil && isBoolT(st.Field(i).Type()) {
					return atom(i, at), true
				}
			}
			return nil, false
		}
		check := func(s *State, site ssa.CallInstruction) {
			if !h.sites[site] {
				return
			}
			h.hits++
			at, ok1 := s.mon["node at"].(VInt)
			end, ok2 := s.mon["node end"].(VInt)
			x.nobl++
			if !ok1 || !ok2 || !s.sys.entailsEQ(end.e.Sub(at.e).AddK(-1)) {
				x.fail("end of line", site, "what is not text may be written elsewhere than after the last node of a line")
				return
			}
			for i := 0; i < st.NumFields(); i++ {
				if isBoolT(st.Field(i).Type()) && x.decide(s, atom(i, at.e).(VBool).c) > 0 {
					h.marks[i]++
				}
			}
		}
		x.invoke = func(x *Exec, s *State, recv Val, g *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
			check(s, site)
			return []ret{{s, x.fresh(s, g.Type().(*types.Signature).Results(), g.Name())}}, true
		}
		x.override = func(x *Exec, s *State, g *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
			if g.Pkg == f.Pkg {
				return nil, false
			}
			check(s, site)
			res := g.Signature.Results()
			if res.Len() == 1 {
				if _, ok := res.At(0).Type().Underlying().(*types.Interface); ok {
					return []ret{{s, VTerm{key: x.uniq(g.Name()), nn: 1, typ: res.At(0).Type()}}}, true
				}
			}
			return []ret{{s, x.fresh(s, res, g.Name())}}, true
		}
		x.frozen = func(t types.Type) bool { return h.frozen[t] }
		x.onAppend = func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction) {
			if o := x.obj(s, dst.obj); o != nil && o.ck != cSrc {
				s.dropElts(dst.obj)
			}
		}
		s := x.newState()
		s.setMon("node at", VInt{K(0)})
		s.setMon("node end", VInt{K(0)})
		args := []Val{m.receiver(x, s, f, config)}
		for _, q := range f.Params[1:] {
			args = append(args, x.fresh(s, q.Type(), q.Name()))
		}
		rs := x.call(s, f, args, nil, nil)
		x.require(len(rs) > 0, "returns", f, "the function never returns")
	})
}

// freeze finds the types of structs declared by the package, such that no
// element of a slice of them is ever set, or handed to code that is not
// analysed, when rendering.
func (h *hyphens) freeze(funcs []*ssa.Function) {
	h.frozen = map[types.Type]bool{}
	if len(funcs) == 0 {
		return
	}
	scope := funcs[0].Pkg.Pkg.Scope()
	elem := func(t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return a.Elem()
			}
			return u.Elem()
		}
		return nil
	}
	for _, name := range scope.Names() {
		tn, ok := scope.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, ok := t.Underlying().(*types.Struct); !ok || types.Identical(t, h.m.node) {
			continue
		}
		is := func(u types.Type) bool { return u != nil && types.Identical(u, t) }
		var inside func(a ssa.Value) bool
		inside = func(a ssa.Value) bool {
			for {
				if is(elem(a.Type())) && !local(a) {
					return true
				}
				switch b := a.(type) {
				case *ssa.FieldAddr:
					a = b.X
				case *ssa.IndexAddr:
					if _, ok := b.X.Type().Underlying().(*types.Pointer); !ok {
						return is(elem(b.X.Type()))
					}
					if local(b) {
						return false
					}
					a = b.X
				default:
					return false
				}
			}
		}
		good := true
		for _, f := range funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					switch ins := ins.(type) {
					case *ssa.Store:
						good = good && !inside(ins.Addr)
					case *ssa.MakeInterface:
						good = good && !is(elem(ins.X.Type()))
					case *ssa.Convert:
						good = good && !is(elem(ins.X.Type()))
					case ssa.CallInstruction:
						cm := ins.Common()
						g := cm.StaticCallee()
						name := ""
						if b, ok := cm.Value.(*ssa.Builtin); ok {
							name = b.Name()
						}
						if name == "append" || name == "len" || name == "cap" || g != nil && g.Pkg == f.Pkg {
							continue
						}
						for _, a := range cm.Args {
							good = good && !is(elem(a.Type())) && !inside(a)
						}
					}
				}
			}
		}
		if good {
			h.frozen[t] = true
			h.r.Count("types whose elements are set by append only", name)
		}
	}
}

// marking analyses where marked nodes are appended: by boxNodes, or by
// leftAlignedNodes apart from what boxNodes returns.
func (h *hyphens) marking(f, box *ssa.Function, mark int) {
	m := h.m
	var configs []map[string]bool
	for _, c := range m.configs(f) {
		if c[h.option(f.Pkg)] { // (the mark is of no consequence otherwise)
			configs = append(configs, c)
		}
	}
	parallel(h.r, len(configs), func(i int, r *Report) {
		c, own, model := configs[i], *h, *m
		h, m := &own, &model
		h.r, m.r, h.m = r, r, m
		analyse(h.p, r, f.Name(), nil, func(x *Exec) {
			pending := 0
			m.install(x)
			if f != box {
				m.assumeBox(x, box)
			}
			soft := func(s *State, v Val) bool {
				st, ok := v.(VStruct)
				if !ok || len(st.f) != m.fields {
					return true
				}
				b, ok := st.f[mark].(VBool)
				return !ok || x.decide(s, b.c) >= 0
			}
			old := x.partSegs
			x.partSegs = func(x *Exec, s *State, v Val) ([]Seg, bool) {
				if pending > 0 {
					pending--
				} else if soft(s, v) {
					x.nobl++
					x.fail("within a word", x.curIns, "a node that may be rendered as a hyphen is added to the nodes in a way that is not followed")
				}
				return old(x, s, v)
			}
			x.onAppend = func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction) {
				pending = 0
				if !types.Identical(ins.Common().Args[0].Type().Underlying().(*types.Slice).Elem(), m.node) {
					return
				}
				pending = len(elems)
				for _, v := range elems {
					if _, ok := v.(VStruct); !ok || !soft(s, v) {
						continue
					}
					h.r.Count("times marked nodes are appended", shortFn(ins.Parent()))
					x.nobl++
					if !h.within(x, s, dst) {
						x.fail("within a word", ins, "a node that may be rendered as a hyphen is not known to stand between two parts of a word")
					}
				}
			}
			s := x.newState()
			text := x.input(s, types.Typ[types.Rune], "text")
			x.roots = []int{text.obj}
			s.setMon("text", text)
			var arg Val
			if f == box {
				tok := x.input(s, types.Typ[types.Rune], "token")
				x.roots = append(x.roots, tok.obj)
				s.setMon("token", tok)
				arg = tok
			} else {
				arg = m.listOf(x, s, types.Typ[types.String], text, "tokens")
			}
			rs := x.call(s, f, []Val{m.receiver(x, s, f, c), arg}, nil, nil)
			x.require(len(rs) > 0, "returns", f, "the function never returns")
		})
	})
}

// within tells whether the text of the nodes ends between two parts returned
// by the hyphenator.
func (h *hyphens) within(x *Exec, s *State, dst VSlice) bool {
	segs, ok := x.listSegs(s, dst)
	if !ok {
		return false
	}
	segs = x.normSegs(s, segs)
	if len(segs) == 0 || segs[len(segs)-1].k != segView {
		return false
	}
	end := segs[len(segs)-1]
	for id, o := range s.heap {
		if !o.arr || o.ck != cList || !o.cur || o.top || o.name != "splits hyphenator" || len(o.segs) != 1 || o.segs[0].src != end.src {
			continue
		}
		inside := func(idx, at Lin) bool {
			return s.sys.entails(idx.AddK(-1)) && s.sys.entails(o.tot.Sub(idx).AddK(-1)) && s.sys.entailsEQ(end.hi.Sub(at))
		}
		if inside(o.curI, o.curP) {
			return true
		}
		for _, e := range s.elts {
			if v, ok := e.v.(VInt); ok && e.obj == -id && inside(e.idx, v.e) {
				return true
			}
		}
	}
	return false
}

// nodes looks for who sets the nodes of the paragraph.
func (h *hyphens) nodes(f *ssa.Function) {
	for _, g := range h.funcs(f.Pkg) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				sl, ok := st.Val.Type().Underlying().(*types.Slice)
				if !ok || !types.Identical(sl.Elem(), h.m.node) || recvNamedType(fa.X.Type()) != "LineBreaker" {
					continue
				}
				c, is := st.Val.(*ssa.Call)
				k, isc := st.Val.(*ssa.Const)
				h.r.Oblige(is && c.Call.StaticCallee() == f || isc && k.IsNil(), "mark", shortFn(g), h.p.PosOf(ins), "the nodes of the paragraph are not those of its tokens")
			}
		}
	}
}

func recvNamedType(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// stores looks for what sets the mark of a node that is a node of the paragraph already.
func (h *hyphens) stores(f *ssa.Function, mark int) {
	for _, g := range h.funcs(f.Pkg) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				a := st.Addr
				if fa, is := a.(*ssa.FieldAddr); is && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), h.m.node) {
					if fa.Field != mark {
						continue
					}
					a = fa.X
				} else if !types.Identical(st.Val.Type(), h.m.node) {
					continue
				}
				h.r.Obligations++
				h.r.Count("stores of the mark", shortFn(g)+" "+h.p.PosOf(ins))
				if !local(a) {
					h.r.Fail("mark", shortFn(g), h.p.PosOf(ins), "the node of a paragraph may be marked once it has been added")
				} else {
					h.r.Discharged++
				}
			}
		}
	}
}

// local tells whether the address is that of a variable, or of an element of
// an array literal.
func local(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.IndexAddr:
		_, ok := a.X.(*ssa.Alloc)
		return ok
	case *ssa.Phi:
		for _, e := range a.Edges {
			if !local(e) {
				return false
			}
		}
		return true
	}
	return false
}
