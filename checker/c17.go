package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "other", aiTrusted+": at each call of Write on the underlying writer, the bytes given are the UTF-8 encoding of the whole input; each path makes one such call and returns its results", checkC17)
}

func checkC17(p *Program, r *Report) {
	newWriter, err := p.Func(ioPkg, "NewWriter")
	if err != nil {
		r.Fail("undecided", "NewWriter", "-", err.Error())
		return
	}
	asWriter, err := p.Func(ioPkg, "AsRunesWriter")
	if err != nil {
		r.Fail("undecided", "AsRunesWriter", "-", err.Error())
		return
	}
	for _, mk := range []*ssa.Function{newWriter, asWriter} {
		for _, name := range []string{"WriteRunes", "WriteRune"} {
			mk, name := mk, name
			analyse(p, r, mk.Name()+"."+name, nil, func(x *Exec) {
				s := x.newState()
				w := VTerm{key: "underlying writer", nn: 1, typ: mk.Params[0].Type()}
				var meth *ssa.Function
				x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
					t, ok := recv.(VTerm)
					if !ok || t.key != w.key || m.Name() != "Write" || len(args) != 1 {
						return nil, false
					}
					r.Count("calls of Write", x.p.PosOf(site))
					x.nobl++
					if _, done := s.mon["n"]; done {
						x.fail("one write", site, "Write may be called more than once")
					}
					var want []Seg
					if name == "WriteRunes" {
						want = view(s.mon["in"].(VSlice))
						want[0].k = segEnc
					} else {
						want = []Seg{{k: segEncV, v: s.mon["in"]}}
					}
					got := x.contentOf(s, args[0].(VSlice))
					x.nobl++
					if !x.segsEq(s, got, want) {
						x.fail("encoding", site, "the bytes written are not the UTF-8 encoding of the runes given: "+x.segsString(s, got)+" instead of "+x.segsString(s, want))
					}
					n := x.symInt(s, types.Typ[types.Int], "written")
					e := VTerm{key: x.uniq("error of Write"), typ: types.Universe.Lookup("error").Type()}
					s.setMon("n", n)
					s.setMon("err", e)
					return []ret{{s, VTuple{f: []Val{n, e}}}}, true
				}
				var in Val
				if name == "WriteRunes" {
					in = x.input(s, types.Typ[types.Rune], "runes")
					x.roots = []int{in.(VSlice).obj}
				} else {
					in = x.symInt(s, types.Typ[types.Rune], "rune")
				}
				s.setMon("in", in)
				for _, q := range x.call(s, mk, []Val{w}, nil, nil) {
					i, ok := q.v.(VIface)
					if !ok || i.typ == nil {
						if t, is := q.v.(VTerm); is && mk == asWriter && x.sameIface(t, w) {
							r.Count("writers returned as they are", mk.Name())
							continue // w knows how to write runes by itself
						}
						x.require(false, "result", mk, "the result is not a new writer")
						continue
					}
					meth = x.p.SSA.LookupMethod(i.typ, x.p.SSAPkgs[ioPkg].Pkg, name)
					if meth == nil {
						x.require(false, "result", mk, "the writer has no method "+name)
						continue
					}
					for _, e := range x.call(q.s, meth, []Val{i.v, q.s.mon["in"]}, nil, nil) {
						r.Count("outcomes", shortFn(meth))
						n, done := e.s.mon["n"]
						x.require(done, "one write", meth, "a path returns without a call of Write")
						t, ok := e.v.(VTuple)
						if !done || !ok {
							continue
						}
						x.require(e.s.sys.entailsEQ(t.f[0].(VInt).e.Sub(n.(VInt).e)), "result", meth, "the count returned is not the one of the call of Write")
						err, ok := t.f[1].(VTerm)
						x.require(ok && err.key == e.s.mon["err"].(VTerm).key, "result", meth, "the error returned is not the one of the call of Write")
					}
				}
			})
		}
	}
	r.AtLeast("calls of Write", 2)
	r.AtLeast("outcomes", 4)
}

// sameIface: t is the interface value w, possibly seen as another interface type.
func (x *Exec) sameIface(t, w VTerm) bool { return t.key == w.key }
