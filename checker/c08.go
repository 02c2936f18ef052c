package main

// C08: limits of hyphenation.

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "other", aiTrusted+": at every addition to the list of parts, and when it is returned, the lengths of the parts already there are proved to be within the limits the hyphenator was made with", checkC08)
}

// newHyphenator calls New with the given options, on any dictionary.
func newHyphenator(p *Program, x *Exec, s *State, opts []Val) (*State, Val, bool) {
	f, err := p.Func(hyphPkg, "New")
	if err != nil {
		panic(giveUp{err.Error()})
	}
	et := f.Params[0].Type().Underlying().(*types.Slice).Elem()
	at := types.NewArray(et, int64(len(opts)))
	o := x.newCell(s, at, VStruct{f: opts}, "options")
	n := K(int64(len(opts)))
	arg := VSlice{obj: o, off: K(0), ln: n, cp: n, nk: "nn"}
	if len(opts) == 0 {
		arg = VSlice{}
	}
	sp := p.SSAPkgs[hyphPkg]
	dt := types.NewPointer(sp.Type("Dictionary").Type())
	x.override = func(x *Exec, s *State, f *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || res.Len() == 0 {
			return nil, false
		}
		if !types.Identical(res.At(0).Type(), dt) {
			if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String || f.Parent() != nil {
				return nil, false
			}
			// the name of a file of rules
			return []ret{{s, x.fresh(s, resultType(f.Signature), f.Name())}}, true
		}
		// rules are looked up, or loaded: any dictionary
		es := dt.Elem().Underlying().(*types.Struct)
		d := x.zero(dt.Elem()).(VStruct)
		for j := range d.f {
			ft := es.Field(j).Type()
			if types.IsInterface(ft) {
				d.f[j] = VTerm{key: "field " + es.Field(j).Name(), typ: ft, nn: 1}
			} else {
				d.f[j] = x.fresh(s, ft, es.Field(j).Name())
			}
		}
		v := Val(VPtr{obj: x.newCell(s, dt.Elem(), d, "dictionary")})
		if res.Len() > 1 {
			t := VTuple{f: []Val{v}}
			for i := 1; i < res.Len(); i++ {
				t.f = append(t.f, x.fresh(s, res.At(i).Type(), f.Name()))
			}
			v = t
		}
		return []ret{{s, v}}, true
	}
	x.constMode = true
	rs := x.call(s, f, []Val{arg}, nil, nil)
	x.constMode, x.override = false, nil
	if len(rs) != 1 {
		return nil, nil, false
	}
	return rs[0].s, rs[0].v, true
}

// limitedHyphenator calls New with any limits that are not negative, and
// returns them.
func limitedHyphenator(p *Program, x *Exec, s *State) (*State, Val, []VInt) {
	var opts []Val
	var lim []VInt
	for _, n := range limitOptions {
		o, err := p.Func(hyphPkg, n)
		if err != nil {
			panic(giveUp{err.Error()})
		}
		v := x.symInt(s, types.Typ[types.Int], n)
		x.assume(s, ge(v.e))
		lim = append(lim, v)
		rs := x.call(s, o, []Val{v}, nil, nil)
		if len(rs) != 1 {
			panic(giveUp{n + " is not a plain option"})
		}
		s = rs[0].s
		opts = append(opts, rs[0].v)
	}
	s, h, ok := newHyphenator(p, x, s, opts)
	if !ok {
		panic(giveUp{"New does not return exactly one hyphenator"})
	}
	return s, h, lim
}

var limitOptions = []string{"WithMinLength", "WithMinLeft", "WithMinRight"}

// leaves lists the numbers and booleans found in a value, by path.
func (x *Exec) leaves(s *State, v Val, path string, into map[string]Val) {
	switch v := v.(type) {
	case VStruct:
		for i, f := range v.f {
			x.leaves(s, f, path+"."+strconv.Itoa(i), into)
		}
	case VPtr:
		if o := s.heap[v.obj]; o != nil && !o.arr && o.val != nil && len(v.path) == 0 && len(path) < 20 {
			x.leaves(s, o.val, path+"*", into)
		}
	case VInt, VBool:
		into[path] = v
	}
}

// defaultLimits checks that New without options sets the same numbers as
// New with the three limits set to 4, 2 and 2.
func defaultLimits(p *Program, r *Report) {
	f, err := p.Func(hyphPkg, "New")
	if err != nil {
		r.Fail("defaults", "New", "", err.Error())
		return
	}
	analyse(p, r, "New", nil, func(x *Exec) {
		s := x.newState()
		s, h, lim := limitedHyphenator(p, x, s)
		set := map[string]Val{}
		x.leaves(s, h, "", set)
		d, hd, ok := newHyphenator(p, x, x.newState(), nil)
		if !ok {
			panic(giveUp{"New does not return exactly one hyphenator"})
		}
		def := map[string]Val{}
		x.leaves(d, hd, "", def)
		want := []int64{4, 2, 2}
		for path, v := range set {
			o, ok := def[path]
			x.require(ok, "defaults", f, "the hyphenator made without options has another shape")
			n, isInt := v.(VInt)
			if !isInt || !ok {
				continue
			}
			for i, l := range lim {
				if s.sys.entailsEQ(n.e.Sub(l.e)) {
					r.Count("limits with a default", limitOptions[i])
					w, isInt := o.(VInt)
					x.require(isInt && d.sys.entailsEQ(w.e.AddK(-want[i])), "defaults", f, "the limit set by "+limitOptions[i]+" is not "+strconv.FormatInt(want[i], 10)+" by default")
				}
			}
		}
	})
	r.AtLeast("limits with a default", 3)
}

func checkC08(p *Program, r *Report) {
	r.Rule("a part is only added after others when the one before it has the minimum length on the left; when two parts or more are returned the last one has the minimum length on the right, the word has the minimum length and no hyphen")
	run := func(f *ssa.Function) {
		name := shortFn(f)
		r.Count("breaking functions", name)
		analyse(p, r, name, nil, func(x *Exec) {
			s := x.newState()
			dictModel(x)
			get := x.invoke
			x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				if m.Name() == "Match" {
					return []ret{{s, x.fresh(s, m.Type().(*types.Signature).Results(), "match")}}, true
				}
				return get(x, s, recv, m, args, site)
			}
			s, h, lim := limitedHyphenator(p, x, s)
			for i, n := range []string{"minimum length", "minimum left", "minimum right"} {
				s.setMon(n, lim[i])
			}
			x.trackP, x.noExists, x.implied = []string{"hyphen"}, true, true
			x.noEnd = func(path string) bool { return strings.HasPrefix(path, "mon:minimum") }
			a, word := wordArg(x, s, f)
			s.setMon("word", word)
			s.setMon("last", VInt{K(0)})
			s.setMon("count", VInt{K(0)})
			s.setMon("cut", VBool{condF})
			s.setMon("many", VBool{condF})
			x.roots = []int{word.obj}
			x.limits = map[int]Lin{word.obj: word.off.Add(word.ln)}
			part := func(s *State, at Lin, v Val, fail func(string)) {
				x.nobl++
				sl, ok := v.(VSlice)
				if !ok {
					fail("unknown part")
					return
				}
				if !s.sys.entailsEQ(at.Sub(ghost(s, "count"))) {
					fail("a part does not come next to the previous one in the list")
					return
				}
				cut := s.mon["cut"].(VBool).c.k == cdTrue
				s.setMon("cut", VBool{condT})
				if s.sys.entails(at.Neg()) {
					cut = false
				}
				if cut {
					s.setMon("many", VBool{condT})
				}
				if cut && !s.sys.entails(ghost(s, "last").Sub(ghost(s, "minimum left"))) {
					fail("a part that is not the last one may be shorter than the minimum on the left")
				}
				s.setMon("last", VInt{s.sys.norm(sl.ln)})
				s.setMon("count", VInt{s.sys.norm(at.AddK(1))})
			}
			partHook(x, func(s *State, at Lin, v Val, ins ssa.Instruction) {
				r.Count("parts added", x.p.PosOf(ins))
				part(s, at, v, func(d string) { x.fail("left limit", ins, d+" ("+name+")") })
			})
			x.onClobber = nil
			rs := x.call(s, f, []Val{h, a}, nil, nil)
			x.require(len(rs) > 0, "returns", f, "the function never returns")
			for _, q := range rs {
				r.Count("outcomes", name)
				s := q.s
				finalParts(x, s, f, q.v, func(s *State, at Lin, v Val) {
					part(s, at, v, func(d string) { x.require(false, "left limit", f, d+" ("+name+")") })
				})
				sl, ok := q.v.(VSlice)
				if !ok {
					x.require(false, "result", f, "a list of parts is expected")
					continue
				}
				if s.mon["many"].(VBool).c.k != cdTrue && s.sys.entails(sl.ln.Neg().AddK(1)) {
					continue
				}
				w := s.mon["word"].(VSlice)
				x.require(s.sys.entailsEQ(sl.ln.Sub(ghost(s, "count"))), "result", f, "the list returned is not the list of all parts found")
				x.require(s.sys.entails(ghost(s, "last").Sub(ghost(s, "minimum right"))), "right limit", f, "the last of several parts may be shorter than the minimum on the right ("+name+")")
				x.require(s.sys.entails(w.ln.Sub(ghost(s, "minimum length"))), "minimum length", f, "a word shorter than the minimum length may be broken")
				all, _ := x.holdsAll(s, "hyphen", w.obj, w.off, w.off.Add(w.ln), false)
				x.require(all, "hyphens", f, "a word that holds an hyphen may be broken")
			}
		})
	}
	for _, f := range breakers(p, r,
		[3]string{hyphPkg, "Hyphenator", "BreakWord"}, [3]string{hyphPkg, "Hyphenator", "BreakWordString"}) {
		run(f)
	}
	defaultLimits(p, r)
	r.AtLeast("breaking functions", 2)
	r.AtLeast("parts added", 2)
	r.AtLeast("outcomes", 2)
}
