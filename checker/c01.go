package main

// C01: the text primitives neither panic nor loop for ever.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "other", aiTrusted+": every index, slice, dereference, assertion, division and conversion reached is proved not to panic, and every loop gets a ranking function (or a constant bound)", checkC01)
}

// optionModel: an option given by the user sets what it is given to any value.
func optionModel(x *Exec) {
	x.callFn = func(x *Exec, s *State, fn VFunc, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		if resultType(site.Common().Signature()) != nil && site.Common().Signature().Results().Len() > 0 {
			return nil, false
		}
		for i, a := range args {
			v, ok := a.(VPtr)
			pt, isPtr := site.Common().Signature().Params().At(i).Type().Underlying().(*types.Pointer)
			if !ok || !isPtr || v.obj == 0 || len(v.path) > 0 {
				return nil, false
			}
			x.wobj(s, v.obj).val = x.freshDeep(s, pt.Elem(), "option")
		}
		return []ret{{s, VTuple{}}}, true
	}
}

// freshDeep is any value of a type; structs have any fields.
func (x *Exec) freshDeep(s *State, t types.Type, name string) Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return x.fresh(s, t, name)
	}
	v := VStruct{}
	for i := 0; i < st.NumFields(); i++ {
		v.f = append(v.f, x.freshDeep(s, st.Field(i).Type(), name+"."+st.Field(i).Name()))
	}
	return v
}

func checkC01(p *Program, r *Report) {
	r.Rule("no construct reached panics; every loop reached ends")
	sites := map[*ssa.Function]int{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					sites[c.Common().StaticCallee()]++
				}
			}
		}
	}
	strict := func(x *Exec) { x.panics, x.terminates = true, true }
	// total analyses f on any arguments, from a given receiver.
	total := func(f *ssa.Function, recv func(x *Exec, s *State) Val, setup func(x *Exec)) {
		name := shortFn(f)
		r.Count("entry points", name)
		analyse(p, r, name, strict, func(x *Exec) {
			s := x.newState()
			var args []Val
			for i, q := range f.Params {
				t := q.Type()
				switch {
				case i == 0 && f.Signature.Recv() != nil && recv != nil:
					args = append(args, recv(x, s))
				case i == 0 && f.Signature.Recv() != nil:
					e := t.(*types.Pointer).Elem()
					args = append(args, VPtr{obj: x.newCell(s, e, x.zero(e), "receiver")})
				default:
					switch u := t.Underlying().(type) {
					case *types.Slice:
						v := x.input(s, u.Elem(), q.Name())
						args = append(args, v)
						x.roots = append(x.roots, v.obj)
						if x.limits == nil {
							x.limits = map[int]Lin{}
						}
						x.limits[v.obj] = v.off.Add(v.ln)
					case *types.Signature:
						args = append(args, VFunc{id: "function " + q.Name()})
					default:
						args = append(args, x.fresh(s, t, q.Name()))
					}
				}
			}
			x.modular = func(g *ssa.Function) bool {
				return g != f && len(x.info(g).loops) > 0 && (token.IsExported(g.Name()) || sites[g] > 1)
			}
			// nested loops that advance the same position: what the first
			// iteration of the inner one does makes the outer one progress
			x.peel = func(l *loopInfo, info *fnInfo) bool {
				for _, m := range info.loops {
					if m.parent == l {
						return false
					}
				}
				return l.parent != nil
			}
			if setup != nil {
				setup(x)
			}
			rs := x.call(s, f, args, nil, nil)
			x.require(len(rs) > 0, "returns", f, "the function never returns")
		})
	}
	for _, f := range breakers(p, r,
		[3]string{punctPkg, "Punctuator", "BreakWord"}, [3]string{punctPkg, "Punctuator", "BreakWordString"}, [3]string{punctPkg, "", "IsPunctuation"},
		[3]string{tokPkg, "Tokenizer", "BreakWord"}, [3]string{tokPkg, "Tokenizer", "BreakWordString"},
		[3]string{runesPkg, "", "FieldsFunc"}, [3]string{runesPkg, "", "IsAmbiguous"},
		[3]string{runesPkg, "", "Width"}, [3]string{runesPkg, "", "Widths"}, [3]string{runesPkg, "", "StringWidth"},
		[3]string{hyphPkg, "", "SplitWord"}, [3]string{hyphPkg, "", "IsHyphen"},
	) {
		total(f, nil, optionModel)
	}
	// escape sequences: what remains of a token is shorter than the token
	strip := breakers(p, r, [3]string{ansiPkg, "", "StripANSIFromRunes"}, [3]string{ansiPkg, "", "StripToken"})
	if at, _, err := strippedFields(p); err != nil || len(strip) != 2 {
		r.Fail("undecided", "StripANSIFromRunes", "-", "no stripped token with the fields expected")
	} else {
		r.Count("entry points", shortFn(strip[0]))
		for _, empty := range []bool{true, false} {
			analyse(p, r, shortFn(strip[0]), strict, func(x *Exec) {
				s := x.newState()
				v := x.input(s, types.Typ[types.Rune], "token")
				x.roots = []int{v.obj}
				x.limits = map[int]Lin{v.obj: v.off.Add(v.ln)}
				if empty {
					x.assume(s, ge(K(0).Sub(v.ln)))
				} else {
					x.assume(s, ge(v.ln.AddK(-1)))
				}
				x.maxShapes, x.joinAt, x.coarse = 30, 30, true
				x.peel = func(l *loopInfo, info *fnInfo) bool { return info.fn == strip[0] || sites[info.fn] == 1 }
				x.modular = func(g *ssa.Function) bool { return g != strip[0] && len(x.info(g).loops) > 0 && sites[g] > 1 }
				s.setMon("token", v)
				rs := x.call(s, strip[0], []Val{v}, nil, nil)
				x.require(len(rs) > 0, "returns", strip[0], "the function never returns")
				for _, q := range rs {
					n := q.s.mon["token"].(VSlice).ln
					if !empty {
						n = n.AddK(-1)
					}
					st, ok := q.v.(VStruct)
					if ok {
						var rest VSlice
						if rest, ok = st.f[at["Remainder"]].(VSlice); ok {
							ok = q.s.sys.entails(n.Sub(rest.ln))
						}
					}
					x.require(ok, "progress", strip[0], "what remains of a token is not known to be shorter than the token: stripping it again may never end")
				}
			})
		}
		total(strip[1], nil, func(x *Exec) {
			x.override = func(x *Exec, s *State, g *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				if g != strip[0] || len(args) != 1 {
					return nil, false
				}
				v := x.freshDeep(s, g.Signature.Results().At(0).Type(), "stripped").(VStruct)
				rest, n := v.f[at["Remainder"]].(VSlice).ln, args[0].(VSlice).ln
				x.assume(s, ge(n.Sub(rest)))
				var rs []ret
				some, none := x.split(s, ge(n.AddK(-1)))
				if some != nil {
					x.assume(some, ge(n.Sub(rest).AddK(-1)))
					rs = append(rs, ret{some, v})
				}
				if none != nil {
					rs = append(rs, ret{none, v})
				}
				return rs, true
			}
		})
	}
	// the cursor, from any position within range
	reader := func(x *Exec, s *State) Val {
		named := p.SSAPkgs[ioPkg].Type("SliceReader").Type()
		fo, ok1 := structField(named, isIntT)
		fr, ok2 := structField(named, isRuneSlice)
		if !ok1 || !ok2 {
			panic(giveUp{"a SliceReader is expected to hold a position and a slice of runes"})
		}
		runes := x.input(s, types.Typ[types.Rune], "runes")
		off := x.symInt(s, types.Typ[types.Int], "position").e
		x.assume(s, ge(off))
		x.assume(s, ge(runes.ln.Sub(off)))
		v := x.zero(named).(VStruct)
		v.f[fo], v.f[fr] = VInt{off}, runes
		ptr := VPtr{obj: x.newCell(s, named, v, "reader")}
		x.roots = append(x.roots, ptr.obj, runes.obj)
		return ptr
	}
	for _, f := range breakers(p, r, [3]string{ioPkg, "SliceReader", "ReadRune"}, [3]string{ioPkg, "SliceReader", "Runes"}, [3]string{ioPkg, "SliceReader", "Seek"}) {
		total(f, reader, nil)
	}
	// the writer of runes: whatever the underlying writer answers
	for _, mk := range breakers(p, r, [3]string{ioPkg, "", "NewWriter"}, [3]string{ioPkg, "", "AsRunesWriter"}) {
		for _, name := range []string{"WriteRunes", "WriteRune"} {
			mk, name := mk, name
			r.Count("entry points", mk.Name()+"."+name)
			analyse(p, r, mk.Name()+"."+name, strict, func(x *Exec) {
				s := x.newState()
				w := VTerm{key: "underlying writer", nn: 1, typ: mk.Params[0].Type()}
				x.modular = func(g *ssa.Function) bool { return len(x.info(g).loops) > 0 }
				x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
					if t, ok := recv.(VTerm); !ok || t.key != w.key || m.Name() != "Write" {
						return nil, false
					}
					n := x.symInt(s, types.Typ[types.Int], "written")
					return []ret{{s, VTuple{f: []Val{n, VTerm{key: x.uniq("error of Write"), typ: types.Universe.Lookup("error").Type()}}}}}, true
				}
				var in Val
				if name == "WriteRunes" {
					in = x.input(s, types.Typ[types.Rune], "runes")
					x.roots = []int{in.(VSlice).obj}
				} else {
					in = x.symInt(s, types.Typ[types.Rune], "rune")
				}
				s.setMon("in", in)
				for _, q := range x.call(s, mk, []Val{w}, nil, nil) {
					if i, ok := q.v.(VIface); ok && i.typ != nil {
						if meth := x.p.SSA.LookupMethod(i.typ, x.p.SSAPkgs[ioPkg].Pkg, name); meth != nil {
							x.require(len(x.call(q.s, meth, []Val{i.v, q.s.mon["in"]}, nil, nil)) > 0, "returns", meth, "the method never returns")
						}
					}
				}
			})
		}
	}
	hyphenatorTotal(p, r, strict)
	r.AtLeast("entry points", 23)
}

// hyphenatorTotal analyses BreakWord of a hyphenator with non-negative limits
// and any dictionary, then BreakWordString, in which BreakWord may return
// anything.
func hyphenatorTotal(p *Program, r *Report, strict func(x *Exec)) {
	fs := breakers(p, r, [3]string{hyphPkg, "Hyphenator", "BreakWord"}, [3]string{hyphPkg, "Hyphenator", "BreakWordString"})
	if len(fs) != 2 {
		return
	}
	for i, f := range fs {
		r.Count("entry points", shortFn(f))
		analyse(p, r, shortFn(f), strict, func(x *Exec) {
			s := x.newState()
			recv := hyphenatorRecv(p, r)(x, s).(VPtr)
			word := x.fresh(s, f.Params[1].Type(), "word")
			if w, ok := word.(VSlice); ok {
				x.roots = append(x.roots, w.obj)
			}
			dictModel(x)
			x.havocNum, x.anyNums, x.implied = false, true, true
			x.modular = func(g *ssa.Function) bool { return g != f && len(x.info(g).loops) > 0 }
			x.override = func(x *Exec, s *State, g *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				if i == 0 || g != fs[0] || len(args) != 2 {
					return nil, false
				}
				if a, ok := args[0].(VPtr); !ok || a.obj != recv.obj || len(a.path) > 0 {
					return nil, false
				}
				return []ret{{s, x.fresh(s, g.Signature.Results().At(0).Type(), "parts")}}, true
			}
			rs := x.call(s, f, []Val{recv, word}, nil, nil)
			x.require(len(rs) > 0, "returns", f, "the function never returns")
		})
	}
	dictionaryValues(p, r)
}

// dictionaryValues requires every value stored in a trie to be a slice of
// numbers, as the hyphenator asserts of what it gets from it.
func dictionaryValues(p *Program, r *Report) {
	callers := func(f *ssa.Function, arg int, visit func(v ssa.Value, site ssa.Instruction)) {
		for _, g := range p.Funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					if cc.IsInvoke() {
						it, _ := cc.Value.Type().Underlying().(*types.Interface)
						if rv := f.Signature.Recv(); rv != nil && arg > 0 && cc.Method.Name() == f.Name() && it != nil && types.Implements(rv.Type(), it) {
							visit(cc.Args[arg-1], ins)
						}
					} else if cc.StaticCallee() == f {
						visit(cc.Args[arg], ins)
					}
				}
			}
		}
	}
	seen := map[ssa.Value]bool{}
	var trace func(v ssa.Value, site ssa.Instruction)
	trace = func(v ssa.Value, site ssa.Instruction) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			for _, e := range v.Edges {
				trace(e, site)
			}
		case *ssa.ChangeInterface:
			trace(v.X, site)
		case *ssa.Parameter:
			for i, q := range v.Parent().Params {
				if q == v {
					callers(v.Parent(), i, trace)
				}
			}
		case *ssa.MakeInterface:
			r.Count("values stored in a trie", p.PosOf(site))
			sl, ok := v.X.Type().(*types.Slice)
			r.Oblige(ok && isIntT(sl.Elem()), "dictionary value", shortFn(site.Parent()), p.PosOf(site), "a "+v.X.Type().String()+" is stored in a trie, where the hyphenator expects []int")
		case *ssa.Const:
			r.Oblige(v.Value == nil, "dictionary value", shortFn(site.Parent()), p.PosOf(site), "a constant is stored in a trie, where the hyphenator expects []int")
		case *ssa.UnOp: // what is read from a trie comes from one
			_, ok := v.X.(*ssa.FieldAddr)
			r.Oblige(ok && v.Parent().Pkg == p.SSAPkgs[triePkg], "dictionary value", shortFn(site.Parent()), p.PosOf(site), "an unknown value is stored in a trie, where the hyphenator expects []int")
		default:
			r.Oblige(false, "dictionary value", shortFn(site.Parent()), p.PosOf(site), "an unknown value is stored in a trie, where the hyphenator expects []int")
		}
	}
	for _, f := range p.Funcs {
		if f.Pkg != p.SSAPkgs[triePkg] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.IsInterface(fa.Type().Underlying().(*types.Pointer).Elem()) {
					trace(st.Val, ins)
				}
			}
		}
	}
	r.AtLeast("values stored in a trie", 2)
}
