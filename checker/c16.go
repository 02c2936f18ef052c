package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", "other", aiTrusted+": from any position between 0 and the number of runes, every outcome of every exported method is compared with the specification of the cursor, and keeps the position within these bounds", checkC16)
}

const ioPkg = "terminal/runes/runesio"

func checkC16(p *Program, r *Report) {
	sp := p.SSAPkgs[ioPkg]
	if sp == nil || sp.Type("SliceReader") == nil {
		r.Fail("undecided", "SliceReader", "-", "type not found")
		return
	}
	named := sp.Type("SliceReader").Type()
	fo, ok1 := structField(named, isIntT)
	fr, ok2 := structField(named, isRuneSlice)
	if !ok1 || !ok2 {
		r.Fail("undecided", "SliceReader", "-", "a SliceReader is expected to hold a position and a slice of runes")
		return
	}
	analysed := map[string]bool{}
	type world struct {
		x     *Exec
		s     *State
		ptr   VPtr
		f     *ssa.Function
		off   Lin // the position before the call
		runes VSlice
	}
	var hooks func(x *Exec, w *world)
	run := func(name string, args func(w *world) []Val, post func(w *world, s *State, v Val)) {
		f, err := p.Method(ioPkg, "SliceReader", name)
		if err != nil {
			r.Fail("undecided", name, "-", err.Error())
			return
		}
		r.Count("methods", name)
		analyse(p, r, name, func(x *Exec) {
			x.joinAt = 200
		}, func(x *Exec) {
			s := x.newState()
			w := &world{x: x, s: s, f: f}
			w.runes = x.input(s, types.Typ[types.Rune], "runes")
			w.off = x.symInt(s, types.Typ[types.Int], "position").e
			x.assume(s, ge(w.off))
			x.assume(s, ge(w.runes.ln.Sub(w.off)))
			v := x.zero(named).(VStruct)
			v.f[fo], v.f[fr] = VInt{w.off}, w.runes
			w.ptr = VPtr{obj: x.newCell(s, named, v, "reader")}
			x.roots = []int{w.ptr.obj, w.runes.obj}
			av := args(w)
			if hooks != nil {
				hooks(x, w)
			}
			s.setMon("runes", w.runes)
			s.setMon("position", VInt{w.off})
			for i, a := range av {
				s.setMon(fmt.Sprintf("arg%d", i), a)
			}
			rs := x.call(s, f, append([]Val{w.ptr}, av...), nil, nil)
			x.require(len(rs) > 0, "returns", f, "the method never returns")
			for _, q := range rs {
				w.off, w.runes = ghost(q.s, "position"), q.s.mon["runes"].(VSlice)
				post(w, q.s, q.v)
				r.Count("outcomes", name)
			}
			for k := range x.fnsSeen {
				analysed[k] = true
			}
		})
	}
	// after: position and runes of the reader
	after := func(w *world, s *State) (Lin, VSlice, bool) {
		v, ok := w.x.obj(s, w.ptr.obj).val.(VStruct)
		if !ok {
			return Lin{}, VSlice{}, false
		}
		o, ok1 := v.f[fo].(VInt)
		n, ok2 := v.f[fr].(VSlice)
		return o.e, n, ok1 && ok2
	}
	frame := func(w *world, s *State, pos Lin, what string) {
		o, n, ok := after(w, s)
		x := w.x
		x.require(ok && x.segsEq(s, x.contentOf(s, n), view(w.runes)), "runes", w.f, "the runes of the reader are no longer those it was given "+what)
		if x.debug && !s.sys.entailsEQ(o.Sub(pos)) {
			fmt.Println("POSITION", x.linString(s.sys.norm(o)), x.linString(s.sys.norm(pos)), s.sys)
		}
		x.require(ok && s.sys.entailsEQ(o.Sub(pos)), "position", w.f, "the position is not the one expected "+what)
	}
	isNilErr := func(w *world, s *State, v Val) bool { return w.x.decide(s, w.x.isNil(s, v)) == 1 }
	noArgs := func(*world) []Val { return nil }

	run("ReadRune", noArgs, func(w *world, s *State, v Val) {
		x := w.x
		t, ok := v.(VTuple)
		if !ok || len(t.f) != 3 {
			x.require(false, "result", w.f, "three results are expected")
			return
		}
		rn, size := t.f[0].(VInt).e, t.f[1].(VInt).e
		more, end := x.split(s, ge(w.runes.ln.Sub(w.off).AddK(-1)))
		if more != nil {
			e := x.elem(more, w.runes.obj, w.off).(VInt).e
			x.require(more.sys.entailsEQ(rn.Sub(e)), "result", w.f, "the rune returned is not the one at the position")
			for _, q := range x.call(more.clone(), runeLen(p), []Val{VInt{e}}, nil, nil) {
				x.require(q.s.sys.entailsEQ(size.Sub(q.v.(VInt).e)), "result", w.f, "the size is not the UTF-8 length of the rune")
			}
			x.require(isNilErr(w, more, t.f[2]), "result", w.f, "an error is returned with a rune")
			frame(w, more, w.off.AddK(1), "after reading a rune")
		}
		if end != nil {
			x.require(end.sys.entailsEQ(rn.AddK(-0xfffd)), "result", w.f, "utf8.RuneError is expected at the end")
			x.require(end.sys.entailsEQ(size), "result", w.f, "size 0 is expected at the end")
			e, ok := t.f[2].(VTerm)
			x.require(ok && e.key == "global io.EOF", "result", w.f, "io.EOF is expected at the end")
			frame(w, end, w.off, "at the end")
		}
	})
	run("Runes", noArgs, func(w *world, s *State, v Val) {
		x := w.x
		sl, ok := v.(VSlice)
		x.require(ok && x.segsEq(s, x.contentOf(s, sl), []Seg{{k: segView, src: w.runes.obj, lo: w.off, hi: w.runes.ln}}),
			"result", w.f, "the result is not made of the runes not yet read")
		frame(w, s, w.off, "after Runes")
	})
	var offset, whence Lin
	run("Seek", func(w *world) []Val {
		offset = w.x.symInt(w.s, types.Typ[types.Int64], "offset").e
		whence = w.x.symInt(w.s, types.Typ[types.Int], "whence").e
		return []Val{VInt{offset}, VInt{whence}}
	}, func(w *world, s *State, v Val) {
		x := w.x
		offset, whence = ghost(s, "arg0"), ghost(s, "arg1")
		t, ok := v.(VTuple)
		if !ok || len(t.f) != 2 {
			x.require(false, "result", w.f, "two results are expected")
			return
		}
		pos := t.f[0].(VInt).e
		out := constErr(x, "ErrSeekOutOfRange", sp)
		for wh, base := range []Lin{K(0), w.off, w.runes.ln} {
			q := s.clone()
			if !x.assume(q, &Cond{k: cdEQ, l: whence.AddK(int64(-wh))}) {
				continue
			}
			target := base.Add(offset)
			in, below := x.split(q, ge(target))
			bad := []*State{}
			if below != nil {
				bad = append(bad, below)
			}
			if in != nil {
				ok, above := x.split(in, ge(w.runes.ln.Sub(target)))
				if above != nil {
					bad = append(bad, above)
				}
				if ok != nil {
					x.require(ok.sys.entailsEQ(pos.Sub(target)), "result", w.f, "the position returned is not the one asked for")
					x.require(isNilErr(w, ok, t.f[1]), "result", w.f, "a seek within range is refused")
					frame(w, ok, target, "after a seek within range")
				}
			}
			for _, b := range bad {
				x.require(out != nil && x.decide(b, x.equal(b, t.f[1], out)) == 1, "result", w.f, "a seek out of range does not return ErrSeekOutOfRange")
				frame(w, b, w.off, "after a seek out of range")
			}
		}
		// whatever the origin, the position stays in range
		o, _, ok := after(w, s)
		x.require(ok && s.sys.entails(o) && s.sys.entails(w.runes.ln.Sub(o)), "invariant", w.f, "the position may leave [0, number of runes]")
	})
	var lo, hi Lin
	run("Slice", func(w *world) []Val {
		lo = w.x.symInt(w.s, types.Typ[types.Int], "startRune").e
		hi = w.x.symInt(w.s, types.Typ[types.Int], "endRune").e
		w.x.assume(w.s, ge(lo))
		w.x.assume(w.s, ge(hi.Sub(lo)))
		w.x.assume(w.s, ge(w.runes.ln.Sub(hi)))
		return []Val{VInt{lo}, VInt{hi}}
	}, func(w *world, s *State, v Val) {
		x := w.x
		lo, hi = ghost(s, "arg0"), ghost(s, "arg1")
		sl, ok := v.(VSlice)
		x.require(ok && x.segsEq(s, x.contentOf(s, sl), []Seg{{k: segView, src: w.runes.obj, lo: lo, hi: hi}}),
			"result", w.f, "the result is not made of the runes asked for")
		frame(w, s, w.off, "after Slice")
	})
	// Slices: the k-th slice returned is the range from slice[2k] to slice[2k+1]
	hooks = func(x *Exec, w *world) {
		isList := func(t types.Type) bool {
			sl, ok := t.Underlying().(*types.Slice)
			return ok && isRuneSlice(sl.Elem())
		}
		group := func(s *State, k Lin, v Val, ins ssa.Instruction) {
			runes, arg := s.mon["runes"].(VSlice), s.mon["arg0"].(VSlice)
			at := k.Mul(2)
			if !s.sys.entails(arg.ln.Sub(at).AddK(-2)) || !s.sys.entails(at) {
				x.fail("result", ins, "a slice is added that corresponds to no requested range")
				return
			}
			lo, hi := x.elem(s, arg.obj, at).(VInt).e, x.elem(s, arg.obj, at.AddK(1)).(VInt).e
			sl, ok := v.(VSlice)
			x.nobl++
			if !ok || !x.segsEq(s, x.contentOf(s, sl), []Seg{{k: segView, src: runes.obj, lo: lo, hi: hi}}) {
				x.fail("result", ins, "the slice added is not the range requested")
			}
			r.Count("slices added", x.p.PosOf(ins))
		}
		x.onAppend = func(x *Exec, s *State, dst VSlice, elems []Val, segs []Seg, ins ssa.CallInstruction) {
			if !isList(ins.Common().Args[0].Type()) {
				return
			}
			if dst.obj != 0 && !s.sys.entailsEQ(dst.ln) {
				if o := x.obj(s, dst.obj); !s.sys.entailsEQ(dst.off) || !s.sys.entailsEQ(o.tot.Sub(dst.ln)) {
					x.fail("result", ins, "slices are added to a list that is not filled")
				}
			}
			if segs != nil {
				x.fail("result", ins, "unknown slices are added")
			}
			for i, e := range elems {
				group(s, dst.ln.AddK(int64(i)), e, ins)
			}
		}
		x.onStore = func(x *Exec, s *State, ptr VPtr, v Val, ins ssa.Instruction) {
			if o := x.obj(s, ptr.obj); len(ptr.path) == 1 && ptr.path[0].idx != nil && (o.ck == cList || o.ck == cRope) && isRuneSlice(o.typ) {
				group(s, *ptr.path[0].idx, v, ins)
			}
		}
	}
	run("Slices", func(w *world) []Val {
		return []Val{w.x.input(w.s, types.Typ[types.Int], "slice")}
	}, func(w *world, s *State, v Val) {
		x := w.x
		sl, ok := v.(VSlice)
		arg := s.mon["arg0"].(VSlice)
		x.require(ok && s.sys.entailsEQ(arg.ln.Sub(sl.ln.Mul(2))), "result", w.f, "there are not as many slices as requested ranges")
		if ok && sl.obj != 0 && !s.sys.entailsEQ(sl.ln) {
			o := x.obj(s, sl.obj)
			x.require((o.ck == cList || o.ck == cRope) && s.sys.entailsEQ(sl.off) && s.sys.entailsEQ(o.tot.Sub(sl.ln)), "result", w.f, "some slices of the result are not set")
		}
		frame(w, s, w.off, "after Slices")
	})
	hooks = nil
	if f, err := p.Func(ioPkg, "NewSliceReader"); err != nil {
		r.Fail("undecided", "NewSliceReader", "-", err.Error())
	} else {
		analyse(p, r, "NewSliceReader", nil, func(x *Exec) {
			s := x.newState()
			in := x.input(s, types.Typ[types.Rune], "runes")
			s.setMon("runes", in)
			x.roots = []int{in.obj}
			for _, q := range x.call(s, f, []Val{in}, nil, nil) {
				ptr, ok := q.v.(VPtr)
				var v VStruct
				if ok && ptr.obj != 0 && len(ptr.path) == 0 {
					v, ok = x.obj(q.s, ptr.obj).val.(VStruct)
				}
				if !ok || v.f == nil {
					x.require(false, "result", f, "the result is not a new reader")
					continue
				}
				n, ok := v.f[fr].(VSlice)
				x.require(ok && x.segsEq(q.s, x.contentOf(q.s, n), view(q.s.mon["runes"].(VSlice))), "result", f, "the reader does not hold the runes given")
				x.require(q.s.sys.entailsEQ(v.f[fo].(VInt).e), "result", f, "the reader does not start at the first rune")
			}
			for k := range x.fnsSeen {
				analysed[k] = true
			}
		})
	}
	// nothing else writes the fields of a reader, nor gives access to them
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), named) {
					continue
				}
				for _, u := range *fa.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
						continue
					}
					r.Count("writes to the fields of a reader", p.PosOf(u))
					r.Oblige(analysed[shortFn(f)], "write", shortFn(f), p.PosOf(u), "a field of a SliceReader is written by a function that no analysed method calls")
				}
			}
		}
	}
	r.AtLeast("methods", 5)
	r.AtLeast("outcomes", 12)
	r.AtLeast("slices added", 1)
}

// ghost is the integer kept under that name since the start of the analysis.
func ghost(s *State, name string) Lin { return s.mon[name].(VInt).e }

func runeLen(p *Program) *ssa.Function {
	return p.SSA.ImportedPackage("unicode/utf8").Func("RuneLen")
}

// constErr is the value held by an error variable of the package, when only
// its initialisation writes it.
func constErr(x *Exec, name string, sp *ssa.Package) Val {
	g := sp.Var(name)
	if g == nil {
		return nil
	}
	return x.base[x.globalObj(g)].val
}
