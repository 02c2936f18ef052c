package main

// C05, C06 and C07: parts and tokens of words.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	punctPkg = "wordbreak/punctuator"
	tokPkg   = "wordbreak/tokenizer"
	runesPkg = "terminal/runes"
)

func init() {
	register("C05", "other", aiTrusted+": the concatenation of the parts of every list returned is proved to be the word", checkC05)
	register("C06", "other", aiTrusted+": every part added to a list is proved to be one separator, or a non-empty run of runes that are none, by facts on predicates over ranges of runes", checkC06)
	register("C07", "other", aiTrusted+": every token added to a list is proved to be a maximal run of runes that are not separators, and every rune left out a separator", checkC07)
}

func isPartList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isRuneSlice(sl.Elem())
}

// breakCall analyses one function that breaks a word, given as runes or as a
// string; post sees the word as a sequence of runes.
type breakCall struct {
	x    *Exec
	f    *ssa.Function
	word VSlice
}

// wordArg builds the word for the last parameter of f, and zero or opaque
// values for the receiver.
func wordArg(x *Exec, s *State, f *ssa.Function) (Val, VSlice) {
	t := f.Params[len(f.Params)-1].Type()
	if isStringT(t) {
		v := x.fresh(s, t, "word").(VStr)
		return v, x.runesOf(s, v)
	}
	w := x.input(s, types.Typ[types.Rune], "word")
	return w, w
}

func breakers(p *Program, r *Report, names ...[3]string) []*ssa.Function {
	var out []*ssa.Function
	for _, n := range names {
		var f *ssa.Function
		var err error
		if n[1] != "" {
			f, err = p.Method(n[0], n[1], n[2])
		} else {
			f, err = p.Func(n[0], n[2])
		}
		if err != nil {
			r.Fail("undecided", n[2], "-", err.Error())
			continue
		}
		out = append(out, f)
	}
	return out
}

// analyseBreak runs f on any word and any receiver.
func analyseBreak(p *Program, r *Report, f *ssa.Function, recv func(x *Exec, s *State) Val, setup func(x *Exec, s *State, word VSlice), post func(x *Exec, s *State, word VSlice, v Val)) {
	name := shortFn(f)
	r.Count("breaking functions", name)
	analyse(p, r, name, nil, func(x *Exec) {
		s := x.newState()
		a, word := wordArg(x, s, f)
		args := []Val{a}
		if f.Signature.Recv() != nil {
			if recv != nil {
				args = []Val{recv(x, s), a}
			} else {
				t := f.Signature.Recv().Type()
				args = []Val{VPtr{obj: x.newCell(s, t.(*types.Pointer).Elem(), x.zero(t.(*types.Pointer).Elem()), "breaker")}, a}
			}
		}
		s.setMon("word", word)
		x.roots = []int{word.obj}
		x.limits = map[int]Lin{word.obj: word.off.Add(word.ln)}
		if setup != nil {
			setup(x, s, word)
		}
		rs := x.call(s, f, args, nil, nil)
		x.require(len(rs) > 0, "returns", f, "the function never returns")
		for _, q := range rs {
			post(x, q.s, q.s.mon["word"].(VSlice), q.v)
			r.Count("outcomes", name)
		}
	})
}

// hyphenatorRecv is a hyphenator with any dictionary and any non-negative limits.
func hyphenatorRecv(p *Program, r *Report) func(x *Exec, s *State) Val {
	return func(x *Exec, s *State) Val {
		sp := p.SSAPkgs[hyphPkg]
		t := sp.Type("Hyphenator").Type()
		v, _ := x.fresh(s, t, "hyphenator").(VStruct)
		if len(v.f) == 0 {
			v = x.zero(t).(VStruct)
		}
		st := t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			pt, ok := st.Field(i).Type().(*types.Pointer)
			if !ok {
				continue
			}
			es, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			o := x.zero(pt.Elem()).(VStruct)
			for j := 0; j < es.NumFields(); j++ {
				ft := es.Field(j).Type()
				switch {
				case isIntT(ft):
					n := x.symInt(s, ft, es.Field(j).Name())
					x.assume(s, ge(n.e))
					o.f[j] = n
					s.setMon(es.Field(j).Name(), n)
				case types.IsInterface(ft):
					o.f[j] = VTerm{key: "field " + es.Field(j).Name(), typ: ft, nn: 1}
				default:
					o.f[j] = x.fresh(s, ft, es.Field(j).Name())
				}
			}
			v.f[i] = VPtr{obj: x.newCell(s, pt.Elem(), o, es.String())}
		}
		return VPtr{obj: x.newCell(s, t, v, "hyphenator")}
	}
}

// dictModel: looking a key up in a dictionary returns nil, or a slice of
// numbers, and has no effect.
func dictModel(x *Exec) {
	x.havocNum = true
	x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		t, ok := recv.(VTerm)
		if !ok || m.Name() != "Get" || len(args) != 1 {
			return nil, false
		}
		_ = t
		return []ret{{s, VTerm{key: x.uniq("value"), typ: m.Type().(*types.Signature).Results().At(0).Type()}}}, true
	}
	x.assertOK = func(x *Exec, s *State, v VTerm, t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), types.Typ[types.Int])
	}
}

func checkC05(p *Program, r *Report) {
	r.Rule("every list of parts returned is a concatenation of parts equal to the word")
	post := func(f *ssa.Function) func(x *Exec, s *State, word VSlice, v Val) {
		return func(x *Exec, s *State, word VSlice, v Val) {
			sl, ok := v.(VSlice)
			var segs []Seg
			if ok {
				segs, ok = x.listSegs(s, sl)
			}
			d := "the parts are not known to be those of the word, in order"
			if ok {
				d = "the parts make up " + x.segsString(s, segs) + ", not the word"
			}
			x.require(ok && x.segsEq(s, segs, view(word)), "result", f, d)
		}
	}
	for _, f := range breakers(p, r,
		[3]string{punctPkg, "Punctuator", "BreakWord"}, [3]string{punctPkg, "Punctuator", "BreakWordString"},
		[3]string{hyphPkg, "", "SplitWord"}) {
		analyseBreak(p, r, f, nil, nil, post(f))
	}
	for _, f := range breakers(p, r,
		[3]string{hyphPkg, "Hyphenator", "BreakWord"}, [3]string{hyphPkg, "Hyphenator", "BreakWordString"}) {
		analyseBreak(p, r, f, hyphenatorRecv(p, r), func(x *Exec, s *State, word VSlice) { dictModel(x) }, post(f))
	}
	r.AtLeast("breaking functions", 5)
	r.AtLeast("outcomes", 6)
}

// partHook calls f on every part added to a list of parts, at its place.
func partHook(x *Exec, f func(s *State, at Lin, v Val, ins ssa.Instruction)) {
	x.onAppend = func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction) {
		if !isPartList(ins.Common().Args[0].Type()) {
			return
		}
		for i, e := range elems {
			f(s, dst.ln.AddK(int64(i)), e, ins)
		}
		if segs != nil {
			// another list is added: its parts are checked when it is filled
			x.nobl++
			src, ok := x.val(s, ins.Common().Args[1]).(VSlice)
			if !ok {
				x.fail("result", ins, "unknown parts are added")
				return
			}
			if els, ok := x.concElems(s, src); ok {
				for i, e := range els {
					f(s, dst.ln.AddK(int64(i)), e, ins)
				}
			} else if !x.filled(s, src) {
				x.fail("result", ins, "unknown parts are added")
			}
		}
	}
	x.onStore = func(x *Exec, s *State, ptr VPtr, v Val, ins ssa.Instruction) {
		if len(ptr.path) != 1 || !isRuneSlice(v2t(ins)) {
			return
		}
		if o := x.obj(s, ptr.obj); o.arr && (o.ck == cList || o.ck == cRope || o.ck == cAny) && ptr.path[0].idx != nil {
			f(s, *ptr.path[0].idx, v, ins)
		}
	}
	x.onClobber = func(x *Exec, s *State, obj int, ins ssa.Instruction) {
		x.fail("alias", ins, "runes that belong to the word, or to a part already found, are overwritten")
	}
}

// v2t is the type of the value stored.
func v2t(ins ssa.Instruction) types.Type {
	if st, ok := ins.(*ssa.Store); ok {
		return st.Val.Type()
	}
	return types.Typ[types.Invalid]
}

// filled tells that the elements of the list have all been added one by one.
func (x *Exec) filled(s *State, v VSlice) bool {
	if v.obj == 0 || s.sys.entailsEQ(v.ln) {
		return true
	}
	o := x.obj(s, v.obj)
	return (o.ck == cList || o.ck == cRope) && s.sys.entails(v.off) && s.sys.entails(o.tot.Sub(v.off).Sub(v.ln))
}

// finalParts checks the list returned: parts added one by one have been
// checked, others are checked now.
func finalParts(x *Exec, s *State, f *ssa.Function, v Val, part func(s *State, at Lin, v Val)) {
	sl, ok := v.(VSlice)
	if !ok {
		x.require(false, "result", f, "a list of parts is expected")
		return
	}
	if sl.obj == 0 {
		return
	}
	if els, ok := x.concElems(s, sl); ok {
		for i, e := range els {
			part(s, K(int64(i)), e)
		}
		return
	}
	x.require(x.filled(s, sl), "result", f, "some parts of the list returned are not set")
}

// spanOf describes a part as a range of the word.
func spanOf(x *Exec, s *State, v Val, word VSlice) (lo, hi Lin, ok bool) {
	sl, is := v.(VSlice)
	if !is {
		return
	}
	segs := x.normSegs(s, x.contentOf(s, sl))
	if len(segs) == 1 && segs[0].k == segView && segs[0].src == word.obj {
		return segs[0].lo, segs[0].hi, true
	}
	return
}

func checkC06(p *Program, r *Report) {
	r.Rule("every part is either one separator, or a non-empty run of runes none of which is a separator")
	isPunct := func(x *Exec) {
		x.derived["separator"] = func(x *Exec, s *State, a Lin) int {
			pipe := x.decide(s, &Cond{k: cdEQ, l: a.AddK(-'|')})
			if pipe == 1 {
				return 1
			}
			pu, hy := x.atomTruth(s, "unicode.IsPunct", []Lin{a}), x.atomTruth(s, "hyphen", []Lin{a})
			switch {
			case pu == 1 && hy == -1:
				return 1
			case pipe == -1 && (pu == -1 || hy == 1):
				return -1
			}
			return 0
		}
		x.trackP = []string{"separator"}
	}
	isHyphen := func(x *Exec) {
		x.derived["separator"] = func(x *Exec, s *State, a Lin) int { return x.atomTruth(s, "hyphen", []Lin{a}) }
		x.trackP = []string{"separator"}
	}
	check := func(x *Exec, s *State, v Val, fail func(string)) {
		x.nobl++
		word := s.mon["word"].(VSlice)
		sl, ok := v.(VSlice)
		if !ok {
			fail("unknown part")
			return
		}
		if lo, hi, ok := spanOf(x, s, v, word); ok {
			if all, _ := x.holdsAll(s, "separator", word.obj, lo, hi, false); all && s.sys.entails(hi.Sub(lo).AddK(-1)) {
				return
			}
			if s.sys.entailsEQ(hi.Sub(lo).AddK(-1)) {
				if e, ok := x.elem(s, word.obj, lo).(VInt); ok && x.atomTruth(s, "separator", []Lin{e.e}) == 1 {
					return
				}
			}
		}
		if segs := x.normSegs(s, x.contentOf(s, sl)); len(segs) == 1 && segs[0].k == segElem {
			if e, ok := segs[0].v.(VInt); ok && x.atomTruth(s, "separator", []Lin{e.e}) != 0 {
				return
			}
		}
		fail("a part may be empty, or hold a separator together with other runes")
	}
	run := func(f *ssa.Function, pred func(x *Exec)) {
		analyseBreak(p, r, f, nil, func(x *Exec, s *State, word VSlice) {
			pred(x)
			partHook(x, func(s *State, at Lin, v Val, ins ssa.Instruction) {
				r.Count("parts added", x.p.PosOf(ins))
				check(x, s, v, func(d string) { x.fail("part", ins, d) })
			})
		}, func(x *Exec, s *State, word VSlice, v Val) {
			finalParts(x, s, f, v, func(s *State, at Lin, v Val) {
				check(x, s, v, func(d string) { x.require(false, "part", f, d) })
			})
		})
	}
	for _, f := range breakers(p, r, [3]string{punctPkg, "Punctuator", "BreakWord"}, [3]string{punctPkg, "Punctuator", "BreakWordString"}) {
		run(f, isPunct)
	}
	for _, f := range breakers(p, r, [3]string{hyphPkg, "", "SplitWord"}) {
		run(f, isHyphen)
	}
	test := func(f *ssa.Function, pred func(x *Exec)) {
		analyseBreak(p, r, f, nil, func(x *Exec, s *State, word VSlice) { pred(x) }, func(x *Exec, s *State, word VSlice, v Val) {
			b, ok := v.(VBool)
			if !ok {
				x.require(false, "result", f, "a boolean is expected")
				return
			}
			one := func(s *State) (yes, no bool) { // word is one separator: for sure, or not for sure
				o, other := x.split(s, &Cond{k: cdEQ, l: word.ln.AddK(-1)})
				yes, no = true, true
				if other != nil {
					yes = false
				}
				if o != nil {
					e := x.elem(o, word.obj, word.off).(VInt)
					t := x.atomTruth(o, "separator", []Lin{e.e})
					yes, no = yes && t == 1, t == -1
				}
				return
			}
			t, n := x.split(s, b.c)
			if t != nil {
				yes, _ := one(t)
				x.require(yes, "result", f, "true may be returned for something else than one separator")
			}
			if n != nil {
				_, no := one(n)
				x.require(no, "result", f, "false may be returned for one separator")
			}
		})
	}
	for _, f := range breakers(p, r, [3]string{punctPkg, "", "IsPunctuation"}) {
		test(f, isPunct)
	}
	for _, f := range breakers(p, r, [3]string{hyphPkg, "", "IsHyphen"}) {
		test(f, isHyphen)
	}
	r.AtLeast("breaking functions", 5)
	r.AtLeast("parts added", 2)
}

func checkC07(p *Program, r *Report) {
	r.Rule("every token added starts after the end of the previous one, with separators only in between, holds no separator, and is not empty; only separators are left after the last one")
	const pos, cnt = "end of the tokens", "number of tokens"
	token := func(x *Exec, s *State, pred string, at Lin, v Val, fail func(string)) {
		x.nobl++
		word := s.mon["word"].(VSlice)
		end, n := ghost(s, pos), ghost(s, cnt)
		if !s.sys.entailsEQ(at.Sub(n)) {
			fail("a token does not come next to the previous one in the list")
			return
		}
		lo, hi, ok := spanOf(x, s, v, word)
		if !ok {
			fail("a token is not a range of the text")
			return
		}
		s.setMon(pos, VInt{s.sys.norm(hi)})
		s.setMon(cnt, VInt{s.sys.norm(n.AddK(1))})
		if !s.sys.entails(hi.Sub(lo).AddK(-1)) {
			fail("a token may be empty")
		}
		if all, _ := x.holdsAll(s, pred, word.obj, lo, hi, false); !all {
			fail("a token may hold a separator")
		}
		if all, _ := x.holdsAll(s, pred, word.obj, end, lo, true); !all {
			fail("runes that are not separators may be left out")
		}
		if s.mon["some"].(VBool).c.k == cdTrue {
			// either by their places, or since the rune at the end of the
			// previous token is a separator
			sep, _ := x.holdsAll(s, pred, word.obj, end, end.AddK(1), true)
			if !s.sys.entails(lo.Sub(end).AddK(-1)) && !(sep && s.sys.entails(lo.Sub(end))) {
				fail("a run of runes that are not separators may be cut in two")
			}
		}
		s.setMon("some", VBool{condT})
	}
	run := func(f *ssa.Function, call func(x *Exec, s *State, word Val) []Val) {
		name := shortFn(f)
		r.Count("breaking functions", name)
		analyse(p, r, name, nil, func(x *Exec) {
			s := x.newState()
			at := len(f.Params) - 1
			if call != nil {
				at = 0
			}
			t := f.Params[at].Type()
			var a Val
			var word VSlice
			if isStringT(t) {
				v := x.fresh(s, t, "text").(VStr)
				a, word = v, x.runesOf(s, v)
			} else {
				word = x.input(s, types.Typ[types.Rune], "text")
				a = word
			}
			args := []Val{}
			if f.Signature.Recv() != nil {
				rt := f.Signature.Recv().Type().(*types.Pointer).Elem()
				args = append(args, VPtr{obj: x.newCell(s, rt, x.zero(rt), "breaker")})
			}
			args = append(args, a)
			pr := "unicode.IsSpace"
			if call != nil {
				args, pr = call(x, s, a), "split function"
			}
			x.trackP = []string{pr}
			s.setMon("word", word)
			s.setMon(pos, VInt{K(0)})
			s.setMon(cnt, VInt{K(0)})
			s.setMon("some", VBool{condF})
			x.roots = []int{word.obj}
			x.limits = map[int]Lin{word.obj: word.off.Add(word.ln)}
			partHook(x, func(s *State, at Lin, v Val, ins ssa.Instruction) {
				r.Count("tokens added", x.p.PosOf(ins))
				token(x, s, pr, at, v, func(d string) { x.fail("token", ins, d) })
			})
			rs := x.call(s, f, args, nil, nil)
			x.require(len(rs) > 0, "returns", f, "the function never returns")
			for _, q := range rs {
				r.Count("outcomes", name)
				finalParts(x, q.s, f, q.v, func(s *State, at Lin, v Val) {
					token(x, s, pr, at, v, func(d string) { x.require(false, "token", f, d) })
				})
				word := q.s.mon["word"].(VSlice)
				sl, ok := q.v.(VSlice)
				n := ghost(q.s, cnt)
				x.require(ok && q.s.sys.entailsEQ(sl.ln.Sub(n)) && (sl.obj == 0 || q.s.sys.entailsEQ(sl.off)), "result", f, "the list returned is not made of all tokens found")
				all, _ := x.holdsAll(q.s, pr, word.obj, ghost(q.s, pos), word.ln, true)
				x.require(all, "result", f, "runes that are not separators may be left out after the last token")
			}
		})
	}
	for _, f := range breakers(p, r, [3]string{tokPkg, "Tokenizer", "BreakWord"}, [3]string{tokPkg, "Tokenizer", "BreakWordString"}) {
		run(f, nil)
	}
	for _, f := range breakers(p, r, [3]string{runesPkg, "", "FieldsFunc"}) {
		run(f, func(x *Exec, s *State, word Val) []Val { return []Val{word, VFunc{id: "split function"}} })
	}
	r.AtLeast("breaking functions", 3)
	r.AtLeast("tokens added", 2)
}
