package main

// C18: attributes.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const attrPkg = "attributes"

func init() {
	register("C18", "other", aiTrusted+": the runes given to the writer, one call after the other, are proved to be the sequences of the attribute; the elements a collection calls are proved to be its non-nil elements in order; each list operation of a State is an event of a typestate, and its iterators walk over the list from the front, element by element", checkC18)
}

// methodOn finds the method of a pointer to the named type.
func (p *Program) methodOn(pkg, typ, name string) (*ssa.Function, error) {
	f, err := p.Method(pkg, typ, name)
	if err != nil {
		return nil, err
	}
	t := p.SSAPkgs[pkg].Type(typ).Type()
	if m := p.SSA.LookupMethod(types.NewPointer(t), p.SSAPkgs[pkg].Pkg, name); m != nil {
		return m, nil
	}
	return f, nil
}

func checkC18(p *Program, r *Report) {
	sp := p.SSAPkgs[attrPkg]
	if sp == nil || sp.Type("Attribute") == nil || sp.Type("Renderers") == nil || sp.Type("Renderer") == nil || sp.Type("State") == nil {
		r.Fail("undecided", "attributes", "-", "the types Attribute, Renderer, Renderers and State are expected")
		return
	}
	r.Rule("an Attribute writes the runes of its start sequence, text and stop sequence, in order")
	r.Rule("HasStart and HasStop tell whether a sequence is not empty")
	r.Rule("Renderers call the same method of each non-nil element, in order")
	r.Rule("Push appends a non-nil renderer, and no other function changes the list")
	r.Rule("iterators walk over the elements of the list, from its front, one by one")
	checkAttribute(p, r, sp)
	checkRenderers(p, r, sp)
	checkState(p, r, sp)
	r.AtLeast("methods", 11)
	r.AtLeast("outcomes", 11)
}

// writerOf is an unknown writer of runes. What is written to it is recorded.
func writerOf(x *Exec, s *State, f *ssa.Function) (VTerm, func(s *State) []Seg) {
	w := VTerm{key: "writer", nn: 1, typ: f.Signature.Params().At(0).Type()}
	rt := types.NewSlice(types.Typ[types.Rune])
	id := x.newCell(s, rt, VSlice{}, "written")
	s.setMon("written", VPtr{obj: id})
	x.roots = append(x.roots, id)
	next := x.invoke
	x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		t, ok := recv.(VTerm)
		if !ok || t.key != w.key {
			if next != nil {
				return next(x, s, recv, m, args, site)
			}
			return nil, false
		}
		old := x.obj(s, id).val.(VSlice)
		switch {
		case m.Name() == "WriteRunes" && len(args) == 1:
			a := args[0].(VSlice)
			x.nobl++
			if !s.sys.entails(a.ln.AddK(-1)) {
				x.fail("nothing for an empty sequence", site, "an empty sequence may be written")
			}
			x.wobj(s, id).val = x.appendTo(s, old, types.Typ[types.Rune], nil, &a, site)
		case m.Name() == "WriteRune" && len(args) == 1:
			x.wobj(s, id).val = x.appendTo(s, old, types.Typ[types.Rune], []Val{args[0]}, nil, site)
		default:
			return nil, false
		}
		n := x.symInt(s, types.Typ[types.Int], "written")
		e := VTerm{key: x.uniq("error of the writer"), typ: types.Universe.Lookup("error").Type()}
		return []ret{{s, VTuple{f: []Val{n, e}}}}, true
	}
	return w, func(s *State) []Seg { return x.contentOf(s, x.obj(s, id).val.(VSlice)) }
}

func checkAttribute(p *Program, r *Report, sp *ssa.Package) {
	named := sp.Type("Attribute").Type()
	st, ok := named.Underlying().(*types.Struct)
	if !ok {
		r.Fail("undecided", "Attribute", "-", "an Attribute is expected to be a struct")
		return
	}
	at := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		at[st.Field(i).Name()] = i
	}
	parts := []string{"StartSequence", "Text", "StopSequence"}
	for _, n := range parts {
		if _, ok := at[n]; !ok {
			r.Fail("undecided", "Attribute", "-", "an Attribute has no field "+n)
			return
		}
	}
	run := func(name string, f func(x *Exec, s *State, m *ssa.Function, self VPtr, in map[string]VSlice)) {
		m, err := p.methodOn(attrPkg, "Attribute", name)
		if err != nil {
			r.Fail("undecided", "Attribute."+name, "-", err.Error())
			return
		}
		r.Count("methods", "Attribute."+name)
		analyse(p, r, "Attribute."+name, nil, func(x *Exec) {
			s := x.newState()
			in := map[string]VSlice{}
			v := x.fresh(s, named, "attribute").(VStruct)
			v.f = append([]Val(nil), v.f...)
			for _, n := range parts {
				sl := x.input(s, types.Typ[types.Rune], n)
				v.f[at[n]] = sl
				in[n] = sl
				x.roots = append(x.roots, sl.obj)
				s.setMon("in "+n, sl)
			}
			self := VPtr{obj: x.newCell(s, named, v, "attribute")}
			x.roots = append(x.roots, self.obj)
			f(x, s, m, self, in)
		})
	}
	for name, want := range map[string][]string{"Start": parts[:1], "Stop": parts[2:], "Render": parts} {
		want := want
		run(name, func(x *Exec, s *State, m *ssa.Function, self VPtr, in map[string]VSlice) {
			w, written := writerOf(x, s, m)
			for _, q := range x.call(s, m, []Val{self, w}, nil, nil) {
				r.Count("outcomes", "Attribute."+m.Name())
				var exp []Seg
				for _, n := range want {
					exp = append(exp, view(q.s.mon["in "+n].(VSlice))...)
				}
				got := written(q.s)
				x.require(x.segsEq(q.s, got, exp), "written", m, "what is written is "+x.segsString(q.s, got)+" instead of "+x.segsString(q.s, exp))
			}
		})
	}
	for name, of := range map[string]string{"HasStart": "StartSequence", "HasStop": "StopSequence"} {
		of := of
		run(name, func(x *Exec, s *State, m *ssa.Function, self VPtr, in map[string]VSlice) {
			for _, q := range x.call(s, m, []Val{self}, nil, nil) {
				r.Count("outcomes", "Attribute."+m.Name())
				b, ok := q.v.(VBool)
				full, empty := x.split(q.s.clone(), ge(q.s.mon["in "+of].(VSlice).ln.AddK(-1)))
				x.require(ok && (full == nil || x.decide(full, b.c) == 1), "result", m, "the result may be false when there is a sequence")
				x.require(ok && (empty == nil || x.decide(empty, b.c) == -1), "result", m, "the result may be true when there is no sequence")
			}
		})
	}
	run("Runes", func(x *Exec, s *State, m *ssa.Function, self VPtr, in map[string]VSlice) {
		for _, q := range x.call(s, m, []Val{self}, nil, nil) {
			r.Count("outcomes", "Attribute."+m.Name())
			sl, ok := q.v.(VSlice)
			x.require(ok && x.segsEq(q.s, x.contentOf(q.s, sl), view(q.s.mon["in Text"].(VSlice))), "result", m, "the result is not the text")
		}
	})
	// what New is given
	f, err := p.Func(attrPkg, "New")
	if err != nil {
		r.Fail("undecided", "New", "-", err.Error())
		return
	}
	r.Count("methods", "New")
	analyse(p, r, "New", nil, func(x *Exec) {
		s := x.newState()
		var args []Val
		for _, n := range []string{"Text", "StartSequence", "StopSequence"} {
			sl := x.input(s, types.Typ[types.Rune], n)
			x.roots = append(x.roots, sl.obj)
			s.setMon("in "+n, sl)
			args = append(args, sl)
		}
		for _, q := range x.call(s, f, args, nil, nil) {
			r.Count("outcomes", "New")
			ptr, ok := q.v.(VPtr)
			var v VStruct
			if ok && ptr.obj != 0 && len(ptr.path) == 0 {
				v, ok = x.obj(q.s, ptr.obj).val.(VStruct)
			}
			x.require(ok && v.f != nil, "result", f, "no attribute is returned")
			if v.f == nil {
				continue
			}
			for _, n := range parts {
				sl, ok := v.f[at[n]].(VSlice)
				x.require(ok && x.segsEq(q.s, x.contentOf(q.s, sl), view(q.s.mon["in "+n].(VSlice))), "result", f, n+" is not the argument")
			}
		}
	})
}

// checkRenderers: a collection is a list of parts of a sequence, in which
// exactly the nil elements are empty. What is called makes up the sequence.
func checkRenderers(p *Program, r *Report, sp *ssa.Package) {
	elem := sp.Type("Renderer").Type()
	for _, name := range []string{"Start", "Stop", "Render"} {
		m, err := p.Method(attrPkg, "Renderers", name)
		if err != nil {
			r.Fail("undecided", "Renderers."+name, "-", err.Error())
			continue
		}
		name := name
		r.Count("methods", "Renderers."+name)
		analyse(p, r, "Renderers."+name, nil, func(x *Exec) {
			s := x.newState()
			all := x.input(s, types.Typ[types.Rune], "elements")
			n := x.symLen(s, "number of elements")
			cp := x.symLen(s, "cap")
			s.wsys().addGE(cp.Sub(n))
			list := x.newObj(s, &Obj{arr: true, typ: elem, ck: cList, segs: view(all), tot: n, n: cp, name: "collection", cur: true, curP: all.off})
			x.roots = []int{all.obj, list}
			s.setMon("all", all)
			x.partOf = func(x *Exec, s *State, t types.Type, src int, lo, hi Lin) (Val, bool) {
				if !types.Identical(t, elem) {
					return nil, false
				}
				return VTerm{key: x.uniq("element"), typ: t}, true
			}
			bounds := func(s *State, key string) (lo, hi Lin, ok bool) {
				for _, e := range s.elts {
					if t, is := e.v.(VTerm); is && e.obj == list && t.key == key {
						o := x.obj(s, list)
						seg := o.segs[0]
						return x.boundary(s, list, e.idx, o, seg.lo, seg.hi), x.boundary(s, list, e.idx.AddK(1), o, seg.lo, seg.hi), true
					}
				}
				return
			}
			x.onFact["isnil"] = func(x *Exec, s *State, atom string, args []Lin, val bool) bool {
				lo, hi, ok := bounds(s, strings.TrimPrefix(atom, "isnil:"))
				if !ok || !val {
					return true
				}
				w := s.wsys()
				return w.addEQ(hi.Sub(lo)) && w.feasible()
			}
			x.invoke = func(x *Exec, s *State, recv Val, g *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				t, ok := recv.(VTerm)
				if !ok {
					return nil, false
				}
				lo, hi, ok := bounds(s, t.key)
				if !ok {
					return nil, false
				}
				switch g.Name() {
				case "Level", "HasStart", "HasStop", "Runes": // render nothing
					return []ret{{s, x.fresh(s, resultType(g.Type().(*types.Signature)), g.Name())}}, true
				case name:
				default:
					x.nobl++
					x.fail("same method", site, name+" of a collection calls "+g.Name()+" of its elements")
					return nil, true
				}
				r.Count("calls of elements", x.p.PosOf(site))
				x.nobl++
				if a, ok := args[0].(VTerm); !ok || a.key != "writer" {
					x.fail("same method", site, "another writer is given to the element")
				}
				id := s.mon["written"].(VPtr).obj
				part := VSlice{obj: all.obj, off: lo, ln: hi.Sub(lo), cp: hi.Sub(lo)}
				x.wobj(s, id).val = x.appendTo(s, x.obj(s, id).val.(VSlice), types.Typ[types.Rune], nil, &part, site)
				return []ret{{s, VTuple{}}}, true
			}
			s.setMon("n", VInt{n})
			w, written := writerOf(x, s, m)
			for _, q := range x.call(s, m, []Val{VSlice{obj: list, ln: n, cp: cp}, w}, nil, nil) {
				r.Count("outcomes", "Renderers."+name)
				x.finishLists(q.s)
				got := written(q.s)
				x.require(x.segsEq(q.s, got, view(q.s.mon["all"].(VSlice))), "elements", m, "the elements called are not known to be the non-nil elements of the collection, in order, once: "+x.segsString(q.s, got)+" of "+x.segsString(q.s, view(q.s.mon["all"].(VSlice))))
			}
		})
	}
	r.AtLeast("calls of elements", 3)
}

var listMutators = map[string]bool{
	"PushBack": true, "PushFront": true, "PushBackList": true, "PushFrontList": true, "InsertBefore": true, "InsertAfter": true,
	"Remove": true, "MoveToFront": true, "MoveToBack": true, "MoveBefore": true, "MoveAfter": true, "Init": true,
}

func checkState(p *Program, r *Report, sp *ssa.Package) {
	named := sp.Type("State").Type()
	isList := func(t types.Type) bool {
		pt, ok := t.Underlying().(*types.Pointer)
		return ok && pt.Elem().String() == "container/list.List"
	}
	fl, ok := structField(named, isList)
	if !ok {
		r.Fail("undecided", "State", "-", "a State is expected to hold a container/list")
		return
	}
	elemType := func(x *Exec) types.Type {
		return types.NewPointer(x.p.SSA.ImportedPackage("container/list").Type("Element").Type())
	}
	// the operations on the list
	models := func(x *Exec) {
		x.assertOK = func(x *Exec, s *State, v VTerm, t types.Type) bool { return strings.HasSuffix(v.key, ".Value") }
		m := func(name string, f model) {
			x.models["(*container/list.List)."+name] = f
		}
		ver := func(s *State) string { return s.mon["version"].(VTerm).key }
		at := func(what string) model {
			return func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				l, ok := args[0].(VTerm)
				if !ok {
					panic(giveUp{"list"})
				}
				return []ret{{s, VTerm{key: what + " of " + l.key + ver(s), typ: elemType(x)}}}
			}
		}
		m("Front", at("front"))
		m("Back", at("back"))
		m("Len", func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
			return []ret{{s, x.symInt(s, types.Typ[types.Int], "Len")}}
		})
		for name := range listMutators {
			name := name
			m(name, func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				r.Count("changes of the list", x.p.PosOf(site))
				x.nobl++
				l, isTerm := args[0].(VTerm)
				if n := s.mon["pushed"]; n != nil {
					x.fail("push", site, "the list may be changed more than once")
				}
				if name != "PushBack" {
					x.fail("push", site, "the list is changed by "+name)
				} else if a, ok := args[1].(VTerm); !ok || a.key != "renderer" || !isTerm || l.key != "list" {
					x.fail("push", site, "what is appended is not the renderer, or not to the list of the State")
				}
				s.setMon("pushed", VBool{condT})
				s.setMon("version", VTerm{key: x.uniq(" v")})
				return []ret{{s, VTerm{key: x.uniq("element"), nn: 1, typ: elemType(x)}}}
			})
		}
		for _, dir := range []string{"Next", "Prev"} {
			dir := dir
			x.models["(*container/list.Element)."+dir] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				e, ok := args[0].(VTerm)
				if !ok {
					panic(giveUp{"element of a list"})
				}
				if !x.oblige(s, x.isNil(s, e).not(), "nil", site, "the element may be nil") {
					return nil
				}
				return []ret{{s, VTerm{key: dir + "(" + e.key + ")" + ver(s), typ: elemType(x)}}}
			}
		}
		x.onLoad = func(x *Exec, s *State, ptr VPtr, t types.Type, ins ssa.Instruction) (Val, bool) {
			if len(ptr.path) != 1 || !types.IsInterface(t) {
				return nil, false
			}
			o := x.obj(s, ptr.obj)
			if o == nil || !strings.HasSuffix(o.typ.String(), "container/list.Element") {
				return nil, false
			}
			return VTerm{key: o.name + ".Value", typ: t, nn: 1}, true // renderers are pushed when not nil
		}
		x.invoke = func(x *Exec, s *State, recv Val, g *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
			if t, ok := recv.(VTerm); ok && (t.key == "renderer" || strings.HasSuffix(t.key, ".Value")) {
				return []ret{{s, x.fresh(s, resultType(g.Type().(*types.Signature)), g.Name())}}, true
			}
			return nil, false
		}
	}
	newState := func(x *Exec) (*State, VPtr) {
		models(x)
		s := x.newState()
		v := x.zero(named).(VStruct)
		v.f = append([]Val(nil), v.f...)
		v.f[fl] = VTerm{key: "list", nn: 1, typ: named.Underlying().(*types.Struct).Field(fl).Type()}
		self := VPtr{obj: x.newCell(s, named, v, "state")}
		x.roots = []int{self.obj}
		s.setMon("version", VTerm{key: ""})
		return s, self
	}
	keeps := func(x *Exec, s *State, f *ssa.Function, self VPtr) {
		v, ok := x.obj(s, self.obj).val.(VStruct)
		var t VTerm
		if ok {
			t, ok = v.f[fl].(VTerm)
		}
		x.require(ok && t.key == "list", "list", f, "the list of the State is replaced")
	}
	push, err := p.methodOn(attrPkg, "State", "Push")
	if err != nil {
		r.Fail("undecided", "State.Push", "-", err.Error())
		return
	}
	r.Count("methods", "State.Push")
	for _, isNil := range []bool{false, true} {
		isNil := isNil
		analyse(p, r, "State.Push", nil, func(x *Exec) {
			s, self := newState(x)
			a := VTerm{key: "renderer", nn: 1, typ: push.Signature.Params().At(0).Type()}
			if isNil {
				a.nn = -1
			}
			var arg Val = a
			if isNil {
				arg = VIface{}
			}
			rs := x.call(s, push, []Val{self, arg}, nil, nil)
			x.require(len(rs) > 0, "returns", push, "Push never returns")
			for _, q := range rs {
				r.Count("outcomes", "State.Push")
				keeps(x, q.s, push, self)
				done := q.s.mon["pushed"] != nil
				if isNil {
					x.require(!done, "push", push, "a nil renderer may be appended")
				} else {
					x.require(done, "push", push, "a renderer may not be appended")
				}
			}
		})
	}
	// iterators
	next, err1 := p.methodOn(attrPkg, "StateIterator", "Next")
	item, err2 := p.methodOn(attrPkg, "StateIterator", "Item")
	if err1 != nil || err2 != nil {
		r.Fail("undecided", "StateIterator", "-", "methods Next and Item are expected")
		return
	}
	r.Count("methods", "StateIterator.Next")
	r.Count("methods", "StateIterator.Item")
	for _, name := range []string{"Iterator", "First"} {
		mk, err := p.methodOn(attrPkg, "State", name)
		if err != nil {
			r.Fail("undecided", "State."+name, "-", err.Error())
			continue
		}
		name := name
		r.Count("methods", "State."+name)
		analyse(p, r, "State."+name, nil, func(x *Exec) {
			s, self := newState(x)
			front := VTerm{key: "front of list", typ: elemType(x)}
			// at: the iterator is at element e: Item is its value; nil at the end
			at := func(s *State, it VPtr, e VTerm) {
				some, none := x.split(s.clone(), x.isNil(s, e).not())
				if some != nil {
					for _, q := range x.call(some, item, []Val{it}, nil, nil) {
						r.Count("outcomes", "StateIterator.Item")
						t, ok := q.v.(VTerm)
						x.require(ok && t.key == e.key+".Value", "iterator", item, "the item is not the value of the element the iterator is at")
						_, unchanged := x.sameCell(s, q.s, it)
						x.require(unchanged, "iterator", item, "Item moves the iterator")
					}
				}
				if none != nil {
					for _, q := range x.call(none, item, []Val{it}, nil, nil) {
						r.Count("outcomes", "StateIterator.Item")
						x.require(x.decide(q.s, x.isNil(q.s, q.v)) == 1, "iterator", item, "an item is returned past the last element")
					}
				}
			}
			// move: the iterator moves to element e
			move := func(s *State, it VPtr, e VTerm) []*State {
				var out []*State
				for _, q := range x.call(s, next, []Val{it}, nil, nil) {
					r.Count("outcomes", "StateIterator.Next")
					b, ok := q.v.(VBool)
					some, none := x.split(q.s.clone(), x.isNil(q.s, e).not())
					x.require(ok && (some == nil || x.decide(some, b.c) == 1), "iterator", next, "Next may be false when there is an element")
					x.require(ok && (none == nil || x.decide(none, b.c) == -1), "iterator", next, "Next may be true when there is no element")
					for _, n := range []*State{some, none} {
						if n != nil {
							at(n, it, e)
						}
					}
					if some != nil {
						out = append(out, some)
					}
				}
				return out
			}
			for _, q := range x.call(s, mk, []Val{self}, nil, nil) {
				r.Count("outcomes", "State."+name)
				keeps(x, q.s, mk, self)
				it, ok := q.v.(VPtr)
				x.require(ok && it.obj != 0, "iterator", mk, "no iterator is returned")
				if !ok || it.obj == 0 {
					continue
				}
				first := []*State{q.s}
				if name == "Iterator" {
					first = move(q.s, it, front)
				} else {
					some, none := x.split(q.s.clone(), x.isNil(q.s, front).not())
					first = nil
					if some != nil {
						at(some, it, front)
						first = append(first, some)
					}
					if none != nil {
						at(none, it, front)
						move(none, it, VTerm{key: "none", nn: -1, typ: front.typ})
					}
				}
				for _, s := range first {
					// once at an element, the iterator moves to the next one, and is then in the same
					// state, but for the element: so it does for all those that follow
					a := x.cellString(s, it, front.key)
					e := VTerm{key: "Next(" + front.key + ")", typ: front.typ}
					for _, s := range move(s, it, e) {
						b := x.cellString(s, it, e.key)
						x.require(a == b, "iterator", next, "the iterator is not in the same state at the first and the second elements: "+a+", then "+b)
					}
				}
			}
		})
	}
	// other changes of the list
	allowed := newCallGraph(p).Reachable(push)
	var fns []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == sp || f.Parent() != nil && f.Parent().Pkg == sp {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if callee := c.Common().StaticCallee(); callee != nil && callee.Pkg != nil && callee.Pkg.Pkg.Path() == "container/list" && listMutators[callee.Name()] {
						r.Obligations++
						if allowed[f] {
							r.Discharged++
						} else {
							r.Fail("push", shortFn(f), p.PosOf(ins), "a list is changed by "+callee.Name()+" in a function that Push does not call")
						}
					}
				}
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.Field == fl && types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), named) {
						r.Obligations++
						if _, local := fa.X.(*ssa.Alloc); local {
							r.Discharged++
						} else {
							r.Fail("list", shortFn(f), p.PosOf(ins), "the list of an existing State is replaced")
						}
					}
				}
			}
		}
	}
	r.AtLeast("changes of the list", 1)
}

// cellString describes the cell, with the value named key left out.
func (x *Exec) cellString(s *State, p VPtr, key string) string {
	v, ok := x.obj(s, p.obj).val.(VStruct)
	if !ok {
		return "?"
	}
	var out []string
	for _, f := range v.f {
		switch f := f.(type) {
		case VTerm:
			if f.key == key {
				out = append(out, "element")
			} else {
				out = append(out, f.key)
			}
		case VBool:
			switch x.decide(s, f.c) {
			case 1:
				out = append(out, "true")
			case -1:
				out = append(out, "false")
			default:
				out = append(out, "?")
			}
		case VInt:
			out = append(out, x.linString(s.sys.norm(f.e)))
		case VPtr:
			out = append(out, fmt.Sprintf("pointer %d", f.obj))
		default:
			out = append(out, valKey(s, f))
		}
	}
	return strings.Join(out, ", ")
}

// sameCell tells whether the cell holds the same in both states.
func (x *Exec) sameCell(a, b *State, p VPtr) (string, bool) {
	u, v := x.cellString(a, p, ""), x.cellString(b, p, "")
	return v, u == v
}
