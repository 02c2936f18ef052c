package main

// What the checks based on the abstract interpreter share.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const aiTrusted = "abstract interpretation over SSA (relational linear constraints between integers, sequences as concatenations of views of the inputs, joins and inferred invariants at loop heads)"

// analyse runs one abstract interpretation, and reports what it could not
// establish. The analysis of what does not depend on the program under
// analysis being well behaved is done by f.
func analyse(p *Program, r *Report, what string, setup func(x *Exec), f func(x *Exec)) {
	x := newExec(p)
	if setup != nil {
		setup(x)
	}
	defer func() {
		if e := recover(); e != nil {
			g, ok := e.(giveUp)
			if !ok {
				panic(e)
			}
			r.Fail("undecided", what, "-", g.msg)
		}
		for _, l := range x.log {
			r.Fail(l.Rule, l.Construct, l.Where, l.Detail)
		}
		r.Obligations += x.nobl
		r.Discharged += x.nobl - len(x.log)
		for _, k := range sortedKeys(x.fnsSeen) {
			r.Count("functions", k)
		}
		for _, k := range sortedKeys(x.loopsSeen) {
			r.Count("loops", k+": "+x.loopsSeen[k])
		}
		for _, k := range sortedKeys(x.oblSeen) {
			r.Count("sites that may panic", k)
		}
		r.Counts["abstract steps"] += x.steps
	}()
	x.initGlobals()
	f(x)
}

// parallel runs analyses that share nothing but the program, each with a
// report of its own, and puts the reports together in order.
func parallel(r *Report, n int, f func(i int, r *Report)) {
	reports := make([]*Report, n)
	panics := make([]any, n)
	var wg sync.WaitGroup
	for i := range reports {
		i := i
		reports[i] = newReport(r.Prop)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			f(i, reports[i])
		}()
	}
	wg.Wait()
	for i := range reports {
		if panics[i] != nil {
			panic(panics[i])
		}
		r.add(reports[i])
	}
}

// endState is the state a check reasons about once a call has returned.
func (x *Exec) pos(f *ssa.Function) string { return x.p.PosOfFunc(f) }

// require is an obligation of the property at the return of f.
func (x *Exec) require(ok bool, rule string, f *ssa.Function, detail string) {
	x.nobl++
	if ok {
		return
	}
	x.log = append(x.log, Finding{rule, shortFn(f), x.pos(f), detail})
}

// segsEq tells whether the two descriptions denote the same sequence for sure.
func (x *Exec) segsEq(s *State, a, b []Seg) bool {
	a, b = x.normSegs(s, a), x.normSegs(s, b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		p, q := a[i], b[i]
		if p.k != q.k || p.k == segUnk || p.src != q.src || p.cnst != q.cnst {
			return false
		}
		switch p.k {
		case segView, segEnc:
			if p.cnst == "" && (!s.sys.entailsEQ(p.lo.Sub(q.lo)) || !s.sys.entailsEQ(p.hi.Sub(q.hi))) {
				return false
			}
		default:
			if x.decide(s, x.equal(s, p.v, q.v)) != 1 {
				return false
			}
		}
	}
	return true
}

func (x *Exec) segsString(s *State, segs []Seg) string {
	var out []string
	for _, g := range x.normSegs(s, segs) {
		switch g.k {
		case segView, segEnc:
			if g.cnst != "" {
				out = append(out, fmt.Sprintf("%q", g.cnst))
				continue
			}
			n := ""
			if o := x.obj(s, g.src); o != nil {
				n = o.name
			}
			k := ""
			if g.k == segEnc {
				k = "utf8 "
			}
			out = append(out, fmt.Sprintf("%s%s[%s:%s]", k, n, x.linString(s.sys.norm(g.lo)), x.linString(s.sys.norm(g.hi))))
		case segElem:
			out = append(out, "one element")
		case segEncV:
			out = append(out, "utf8 of one rune")
		default:
			out = append(out, "unknown")
		}
	}
	if out == nil {
		return "nothing"
	}
	return strings.Join(out, " + ")
}

func (x *Exec) linString(l Lin) string {
	var b strings.Builder
	for _, t := range l.t {
		if b.Len() > 0 || t.k < 0 {
			fmt.Fprintf(&b, "%+d·%s", t.k, x.symName[t.s])
		} else {
			fmt.Fprintf(&b, "%d·%s", t.k, x.symName[t.s])
		}
	}
	if l.c != 0 || b.Len() == 0 {
		if b.Len() > 0 {
			fmt.Fprintf(&b, "%+d", l.c)
		} else {
			fmt.Fprintf(&b, "%d", l.c)
		}
	}
	return strings.ReplaceAll(b.String(), "1·", "")
}

// input is an input slice of any length: its own source of elements.
func (x *Exec) input(s *State, elem types.Type, name string) VSlice {
	return x.freshSlice(s, elem, name)
}

func view(v VSlice) []Seg {
	return []Seg{{k: segView, src: v.obj, lo: v.off, hi: v.off.Add(v.ln)}}
}

// sortedFns lists the functions of a package, by name.
func sortedFns(p *Program, rel string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg != nil && f.Pkg == p.SSAPkgs[rel] && f.Parent() == nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// structField finds the only field of the struct that satisfies ok.
func structField(t types.Type, ok func(types.Type) bool) (int, bool) {
	st, is := t.Underlying().(*types.Struct)
	if !is {
		return 0, false
	}
	at := -1
	for i := 0; i < st.NumFields(); i++ {
		if ok(st.Field(i).Type()) {
			if at >= 0 {
				return 0, false
			}
			at = i
		}
	}
	return at, at >= 0
}

func isRuneSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), types.Typ[types.Rune])
}
