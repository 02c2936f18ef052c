package main

// C02 and C04: ANSI escape sequences.

import (
	"errors"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ansiPkg = "terminal/ansi"

func init() {
	register("C02", "other", aiTrusted+": at every return the fields of the result, one after the other, are proved to be the runes given", checkC02)
	register("C04", "other", aiTrusted+": each start or stop sequence returned is proved to match ESC [ parameters final, with the final rune and the first parameter of its kind", checkC04)
}

// strippedFields locates the fields of a StrippedToken.
func strippedFields(p *Program) (map[string]int, types.Type, error) {
	f, err := p.Func(ansiPkg, "StripANSIFromRunes")
	if err != nil {
		return nil, nil, err
	}
	t := f.Signature.Results().At(0).Type()
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil, errors.New("StripANSIFromRunes does not return a struct")
	}
	at := map[string]int{}
	for i := 0; i < st.NumFields(); i++ {
		at[st.Field(i).Name()] = i
	}
	for _, n := range []string{"StartSequence", "Text", "StopSequence", "Remainder"} {
		if _, ok := at[n]; !ok {
			return nil, nil, errors.New("a stripped token has no field " + n)
		}
	}
	return at, t, nil
}

// strippedSegs is the content of fields of a stripped token.
func strippedSegs(x *Exec, s *State, at map[string]int, v Val, names ...string) ([]Seg, bool) {
	st, ok := v.(VStruct)
	if !ok {
		return nil, false
	}
	var segs []Seg
	for _, n := range names {
		sl, ok := st.f[at[n]].(VSlice)
		if !ok {
			return nil, false
		}
		x.keep(s, sl)
		segs = append(segs, x.contentOf(s, sl)...)
	}
	return segs, true
}

func analyseStrip(p *Program, r *Report, f *ssa.Function, setup func(x *Exec, s *State, token VSlice), post func(x *Exec, s *State, token VSlice, v Val)) {
	name := shortFn(f)
	r.Count("entry points", name)
	analyse(p, r, name, nil, func(x *Exec) {
		s := x.newState()
		token := x.input(s, types.Typ[types.Rune], "token")
		x.roots = []int{token.obj}
		x.limits = map[int]Lin{token.obj: token.off.Add(token.ln)}
		x.maxShapes, x.joinAt = 30, 30
		x.modular = func(g *ssa.Function) bool {
			return g != f && len(x.info(g).loops) > 0 && (x.saturate == nil || x.inSum == 0)
		}
		s.setMon("token", token)
		if setup != nil {
			setup(x, s, token)
		}
		rs := x.call(s, f, []Val{token}, nil, nil)
		x.require(len(rs) > 0, "returns", f, "the function never returns")
		for _, q := range rs {
			r.Count("outcomes", name)
			post(x, q.s, q.s.mon["token"].(VSlice), q.v)
		}
	})
}

func checkC02(p *Program, r *Report) {
	r.Rule("StartSequence + Text + StopSequence + Remainder is the token; the pieces of StripToken, in order, make up the token")
	at, _, err := strippedFields(p)
	if err != nil {
		r.Fail("undecided", "StripANSIFromRunes", "-", err.Error())
		return
	}
	f, err := p.Func(ansiPkg, "StripANSIFromRunes")
	if err == nil {
		analyseStrip(p, r, f, nil, func(x *Exec, s *State, token VSlice, v Val) {
			segs, ok := strippedSegs(x, s, at, v, "StartSequence", "Text", "StopSequence", "Remainder")
			x.require(ok && x.segsEq(s, segs, view(token)), "lossless", f, "the sequences, the text and the remainder make up "+x.segsString(s, segs)+", not the token")
		})
	}
	g, err := p.Func(ansiPkg, "StripToken")
	if err != nil {
		r.Fail("undecided", "StripToken", "-", err.Error())
		return
	}
	analyseStrip(p, r, g, func(x *Exec, s *State, token VSlice) {
		x.partSegs = func(x *Exec, s *State, v Val) ([]Seg, bool) {
			return strippedSegs(x, s, at, v, "StartSequence", "Text", "StopSequence")
		}
	}, func(x *Exec, s *State, token VSlice, v Val) {
		sl, ok := v.(VSlice)
		var segs []Seg
		if ok {
			segs, ok = x.listSegs(s, sl)
		}
		d := "the pieces are not known to be those of the token, in order"
		if ok {
			d = "the pieces make up " + x.segsString(s, segs) + ", not the token"
		}
		x.require(ok && x.segsEq(s, segs, view(token)), "lossless", g, d)
	})
	r.AtLeast("entry points", 2)
	r.AtLeast("outcomes", 2)
}

// ansiLabels runs an automaton over the runes that are known: label:q(a,e) says
// that the runes from a to e lead it to state q. It is in state
//
//	zeros: after ESC [ and zeros only     Zeros: ... and maybe more parameters
//	digits: ... and digits, not all zero  Digits: ... and maybe more parameters
//	start, stop: after a complete sequence of that kind
func ansiLabels(x *Exec) {
	is := func(s *State, a Lin, rs ...rune) int {
		res := -1
		for _, r := range rs {
			switch x.decide(s, &Cond{k: cdEQ, l: a.AddK(-int64(r))}) {
			case 1:
				return 1
			case 0:
				res = 0
			}
		}
		return res
	}
	digit := func(s *State, a Lin) bool {
		return x.atomTruth(s, "unicode.IsDigit", []Lin{a}) == 1 || s.sys.entails(a.AddK(-'0')) && s.sys.entails(K('9').Sub(a))
	}
	next := func(s *State, q string, c Lin) []string {
		switch q {
		case "zeros", "digits", "zeros;", "digits;":
			if digit(s, c) {
				z := is(s, c, '0')
				switch {
				case q != "zeros" || z == 1:
					return []string{q}
				case z == -1:
					return []string{"digits"}
				}
				return nil
			}
		}
		zeros := strings.HasPrefix(strings.ToLower(q), "zeros")
		switch {
		case is(s, c, ';', ':') == 1:
			if zeros {
				return []string{"zeros;"}
			}
			return []string{"digits;"}
		case is(s, c, 's', 'h') == 1:
			return []string{"start"}
		case is(s, c, 'u', 'l') == 1:
			return []string{"stop"}
		case is(s, c, 'm') == 1 && zeros:
			return []string{"stop"}
		case is(s, c, 'm') == 1:
			return []string{"start"}
		}
		return nil
	}
	x.saturate = func(x *Exec, s *State) {
		tok := 0
		for _, id := range x.roots {
			if o := x.obj(s, id); o != nil && o.arr {
				if tok != 0 {
					return
				}
				tok = id
			}
		}
		var add func(q string, a, e Lin)
		add = func(q string, a, e Lin) {
			if x.atomTruth(s, "label:"+q, []Lin{a, e}) == 1 {
				return
			}
			s.facts = append(s.facts, Fact{"label:" + q, []Lin{s.sys.norm(a), s.sys.norm(e)}, true})
			switch q {
			case "zeros", "zeros;":
				add("Zeros", a, e)
			case "digits", "digits;":
				add("Digits", a, e)
			}
		}
		for _, e := range s.elts[:len(s.elts):len(s.elts)] {
			v, ok := e.v.(VInt)
			if e.obj != tok || !ok || is(s, v.e, 27) != 1 {
				continue
			}
			if b, ok := s.memo(tok, e.idx.AddK(1)); ok && is(s, b.(VInt).e, '[') == 1 {
				add("zeros", e.idx, e.idx.AddK(2))
			}
		}
		for i := 0; i < len(s.facts); i++ {
			f := s.facts[i]
			if !strings.HasPrefix(f.atom, "label:") || f.atom == "label:start" || f.atom == "label:stop" {
				continue
			}
			if c, ok := s.memo(tok, f.args[1]); ok {
				for _, q := range next(s, f.atom[len("label:"):], c.(VInt).e) {
					add(q, f.args[0], f.args[1].AddK(1))
				}
			}
		}
	}
}

func checkC04(p *Program, r *Report) {
	r.Rule("a start or stop sequence that is not empty is ESC [ parameters final, the final and the first parameter being those of a start, or a stop")
	at, _, err := strippedFields(p)
	var f *ssa.Function
	if err == nil {
		f, err = p.Func(ansiPkg, "StripANSIFromRunes")
	}
	if err != nil {
		r.Fail("undecided", "StripANSIFromRunes", "-", err.Error())
		return
	}
	analyseStrip(p, r, f, func(x *Exec, s *State, token VSlice) { ansiLabels(x) }, func(x *Exec, s *State, token VSlice, v Val) {
		x.saturate(x, s)
		check := func(field, kind string) {
			segs, ok := strippedSegs(x, s, at, v, field)
			if !ok {
				x.require(false, "sequence", f, field+" is not known")
				return
			}
			if segs = x.normSegs(s, segs); len(segs) == 0 {
				return
			}
			r.Count("sequences", field)
			ok = len(segs) == 1 && segs[0].k == segView && segs[0].src == token.obj &&
				x.atomTruth(s, "label:"+kind, []Lin{segs[0].lo, segs[0].hi}) == 1
			x.require(ok, "sequence", f, field+" ("+x.segsString(s, segs)+") is not known to be a "+kind+" sequence")
		}
		check("StartSequence", "start")
		check("StopSequence", "stop")
		segs, _ := strippedSegs(x, s, at, v, "Text")
		for _, g := range x.normSegs(s, segs) {
			for _, l := range s.facts {
				if g.k != segView || g.src != token.obj || l.atom != "label:start" && l.atom != "label:stop" {
					continue
				}
				x.require(!s.sys.entails(l.args[0].Sub(g.lo)) || !s.sys.entails(g.hi.Sub(l.args[1])), "sequence", f, "the text holds a "+l.atom[len("label:"):]+" sequence")
			}
		}
	})
	r.AtLeast("outcomes", 2)
	r.AtLeast("sequences", 2)
}
