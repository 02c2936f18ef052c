package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "other",
		"path-sensitive nilness dataflow over SSA, through the functions called: the set of tuples (lines, error) LeftAlignUniform may return is enumerated, and no nil list of breaks may be dereferenced",
		checkC23)
}

// nilness of a value: unknown, nil, not nil, or the error ErrCannotBeSet.
type nilAbs uint8

const (
	nAny nilAbs = iota
	nNil
	nNon
	nCannot
)

func (a nilAbs) String() string { return [...]string{"any", "nil", "non-nil", "ErrCannotBeSet"}[a] }

type nilTuple string // abs of each result, separated by commas

// nilKey is a value, or the content of a local variable (cell).
type nilKey struct {
	v    ssa.Value
	cell bool
}

type nilEnv map[nilKey]nilAbs

type nilFlow struct {
	p        *Program
	r        *Report
	sentinel *ssa.Global  // ErrCannotBeSet, when it is a variable
	constant *types.Const // ErrCannotBeSet, when it is a constant
	memo     map[string][]nilTuple
	where    map[string]string // tuple of the root → position of a return
	root     *ssa.Function
	busy     map[string]bool
	fromRoot bool // the function followed is called by the root itself
	steps    int
}

func encodeTuple(as []nilAbs) nilTuple {
	var s []string
	for _, a := range as {
		s = append(s, a.String())
	}
	return nilTuple(strings.Join(s, ","))
}

func decodeTuple(t nilTuple) []nilAbs {
	var out []nilAbs
	if t == "" {
		return nil
	}
	for _, s := range strings.Split(string(t), ",") {
		for a := nAny; a <= nCannot; a++ {
			if a.String() == s {
				out = append(out, a)
			}
		}
	}
	return out
}

func (n *nilFlow) eval(v ssa.Value, env nilEnv) nilAbs {
	if a, ok := env[nilKey{v, false}]; ok {
		return a
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return nNil
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if g, ok := v.X.(*ssa.Global); ok && g == n.sentinel {
				return nCannot
			}
			if a, ok := v.X.(*ssa.Alloc); ok {
				if x, ok := env[nilKey{a, true}]; ok && slotAlloc(a) {
					return x
				}
			}
		}
	case *ssa.MakeInterface:
		if c, ok := v.X.(*ssa.Const); ok && n.constant != nil && c.Value != nil &&
			types.Identical(c.Type(), n.constant.Type()) && constant.Compare(c.Value, token.EQL, n.constant.Val()) {
			return nCannot
		}
		return nNon
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Global, *ssa.Function, *ssa.MakeChan:
		return nNon
	case *ssa.ChangeType:
		return n.eval(v.X, env)
	case *ssa.ChangeInterface:
		return n.eval(v.X, env)
	case *ssa.Slice:
		if a := n.eval(v.X, env); a == nNil || a == nNon {
			return a
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil && (f.String() == "fmt.Errorf" || f.String() == "errors.New") {
			return nNon
		}
	}
	return nAny
}

// slotAlloc: the alloc is only ever loaded and stored whole (a variable).
func slotAlloc(a *ssa.Alloc) bool {
	for _, ref := range *a.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// refine learns from a condition taken; false when the path is infeasible.
func (n *nilFlow) refine(cond ssa.Value, taken bool, env nilEnv) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return n.refine(c.X, !taken, env)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return true
		}
		eq := taken == (c.Op == token.EQL)
		x, y := n.eval(c.X, env), n.eval(c.Y, env)
		set := func(v ssa.Value, a nilAbs) {
			for {
				env[nilKey{v, false}] = a
				switch u := v.(type) {
				case *ssa.ChangeType:
					v = u.X
					continue
				case *ssa.ChangeInterface:
					v = u.X
					continue
				case *ssa.UnOp:
					if al, ok := u.X.(*ssa.Alloc); ok && u.Op == token.MUL && slotAlloc(al) {
						env[nilKey{al, true}] = a
						return
					}
				}
				return
			}
		}
		one := func(v ssa.Value, a, b nilAbs) bool {
			switch {
			case b == nNil && eq:
				if a == nNon || a == nCannot {
					return false
				}
				set(v, nNil)
			case b == nNil && !eq:
				if a == nNil {
					return false
				}
				if a == nAny {
					set(v, nNon)
				}
			case b == nCannot && eq:
				if a == nNil {
					return false
				}
				set(v, nCannot)
			case b == nCannot && !eq:
				if a == nCannot {
					return false
				}
			}
			return true
		}
		if !one(c.X, x, y) || !one(c.Y, y, x) {
			return false
		}
	}
	return true
}

// accumulator tells if a slice is a list built by appending in a loop.
func accumulator(phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v == phi {
				return true
			}
			for _, e := range v.Edges {
				if from(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return v.Call.Args[0] == phi || from(v.Call.Args[0])
			}
		}
		return false
	}
	for _, e := range phi.Edges {
		if e != phi && from(e) {
			return true
		}
	}
	return false
}

type nilState struct {
	b    *ssa.BasicBlock
	from *ssa.BasicBlock
	env  nilEnv
}

func (n *nilFlow) outcomes(f *ssa.Function, args []nilAbs) []nilTuple {
	key := f.String() + "(" + string(encodeTuple(args)) + ")"
	if t, ok := n.memo[key]; ok {
		return t
	}
	if n.busy[key] { // recursion: anything
		return []nilTuple{encodeTuple(make([]nilAbs, f.Signature.Results().Len()))}
	}
	n.busy[key] = true
	defer delete(n.busy, key)
	n.r.Count("functions followed", shortFn(f))
	live := nilRelevant(f)
	env := nilEnv{}
	for i, prm := range f.Params {
		if i < len(args) && args[i] != nAny {
			env[nilKey{prm, false}] = args[i]
		}
	}
	found := map[nilTuple]bool{}
	seen := map[string]bool{}
	work := []nilState{{f.Blocks[0], nil, env}}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		n.steps++
		if n.steps > 2_000_000 {
			panic("nilness: too many states")
		}
		// phis, at once
		next := nilEnv{}
		for v, a := range st.env {
			next[v] = a
		}
		for _, ins := range st.b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pred := range st.b.Preds {
				if pred == st.from {
					a := n.eval(phi.Edges[i], st.env)
					if a == nNil && accumulator(phi) {
						a = nAny // an empty list to append to
					}
					next[nilKey{phi, false}] = a
				}
			}
		}
		for v := range next {
			if !live[v.v] {
				delete(next, v)
			}
		}
		k := fmt.Sprintf("%d|%s", st.b.Index, envKey(next))
		if seen[k] {
			continue
		}
		seen[k] = true
		work = append(work, n.block(f, st.b, 0, next, found)...)
	}
	var out []nilTuple
	for t := range found {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	n.memo[key] = out
	return out
}

func envKey(e nilEnv) string {
	var s []string
	for v, a := range e {
		if a != nAny {
			s = append(s, fmt.Sprint(v.v.Name(), v.cell, "=", a))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// nilRelevant are the values of f whose nilness is tested or returned: those
// (transitively) compared to nil, returned, dereferenced or passed on.
func nilRelevant(f *ssa.Function) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for _, prm := range f.Params {
		out[prm] = true
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok {
				continue
			}
			switch v := v.(type) {
			case *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.Alloc, *ssa.UnOp:
				switch u := v.Type().Underlying().String(); {
				case strings.HasPrefix(u, "*"), strings.HasPrefix(u, "[]"), strings.HasPrefix(u, "interface"), strings.HasPrefix(u, "map"):
					out[v] = true
				}
			}
		}
	}
	return out
}

func (n *nilFlow) block(f *ssa.Function, b *ssa.BasicBlock, from int, env nilEnv, found map[nilTuple]bool) []nilState {
	for i := from; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		deref := func(v ssa.Value) bool {
			if n.eval(v, env) == nNil {
				// deeper, nil may be ruled out by conditions on other data
				_, param := v.(*ssa.Parameter)
				if f != n.root && !(param && n.fromRoot) {
					return true
				}
				n.r.Fail("nil dereference", shortFn(f), n.p.PosOf(ins), v.Name()+" may be nil here")
				return false
			}
			return true
		}
		switch ins := ins.(type) {
		case *ssa.FieldAddr:
			if !deref(ins.X) {
				return nil
			}
		case *ssa.UnOp:
			if ins.Op == token.MUL && !deref(ins.X) {
				return nil
			}
			if ins.Op == token.MUL {
				delete(env, nilKey{ins, false})
				if a := n.eval(ins, env); a != nAny {
					env[nilKey{ins, false}] = a
				}
			}
		case *ssa.Store:
			if a, ok := ins.Addr.(*ssa.Alloc); ok && slotAlloc(a) {
				env[nilKey{a, true}] = n.eval(ins.Val, env)
			}
		case *ssa.Alloc:
			if slotAlloc(ins) {
				env[nilKey{ins, true}] = nNil // zero value
			}
		case *ssa.Call:
			callee := ins.Call.StaticCallee()
			delete(env, nilKey{ins, false})
			for _, ref := range *ins.Referrers() {
				if ex, ok := ref.(*ssa.Extract); ok {
					delete(env, nilKey{ex, false})
				}
			}
			if callee == nil || callee.Blocks == nil || callee.Pkg != n.root.Pkg {
				continue
			}
			if callee.Signature.Results().Len() == 0 && len(ins.Call.Args) == 0 {
				continue
			}
			var args []nilAbs
			for _, a := range ins.Call.Args {
				args = append(args, n.eval(a, env))
			}
			var states []nilState
			outer := n.fromRoot
			n.fromRoot = f == n.root
			ts := n.outcomes(callee, args)
			n.fromRoot = outer
			for _, t := range ts {
				e := nilEnv{}
				for v, a := range env {
					e[v] = a
				}
				as := decodeTuple(t)
				if len(as) == 1 {
					e[nilKey{ins, false}] = as[0]
				}
				for _, ref := range *ins.Referrers() {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index < len(as) {
						e[nilKey{ex, false}] = as[ex.Index]
					}
				}
				states = append(states, n.block(f, b, i+1, e, found)...)
			}
			return states
		case *ssa.If:
			var out []nilState
			for k, succ := range b.Succs {
				e := nilEnv{}
				for v, a := range env {
					e[v] = a
				}
				if n.refine(ins.Cond, k == 0, e) {
					out = append(out, nilState{succ, b, e})
				}
			}
			return out
		case *ssa.Jump:
			return []nilState{{b.Succs[0], b, env}}
		case *ssa.Return:
			var as []nilAbs
			for _, v := range ins.Results {
				as = append(as, n.eval(v, env))
			}
			t := encodeTuple(as)
			found[t] = true
			if f == n.root {
				n.where[string(t)] = n.p.PosOf(ins)
			}
		case *ssa.Panic:
			return nil
		}
	}
	return nil
}

func checkC23(p *Program, r *Report) {
	r.Rule("every tuple LeftAlignUniform returns is (lines, nil), the lines not being the nil constant, or (nil, ErrCannotBeSet)")
	r.Rule("on no path of LeftAlignUniform, or of the functions it gives the list of breaks to, is that list dereferenced when it may be nil")
	f, err := p.Method("linebreak", "LineBreaker", "LeftAlignUniform")
	if err != nil {
		r.Fail("anchor", "LeftAlignUniform", "-", err.Error())
		return
	}
	n := &nilFlow{p: p, r: r, memo: map[string][]nilTuple{}, where: map[string]string{}, root: f, busy: map[string]bool{}}
	switch o := p.SSAPkgs["linebreak"].Pkg.Scope().Lookup("ErrCannotBeSet").(type) {
	case *types.Const:
		n.constant = o
	case *types.Var:
		n.sentinel, _ = p.SSAPkgs["linebreak"].Members["ErrCannotBeSet"].(*ssa.Global)
	default:
		r.Fail("anchor", "ErrCannotBeSet", "-", "not found")
		return
	}
	// the sentinel is not nil and nobody reassigns it
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && n.sentinel != nil && st.Addr == n.sentinel {
					r.Oblige(isInit(fn) && n.eval(st.Val, nilEnv{}) != nNil, "sentinel", "ErrCannotBeSet", p.PosOf(ins), "ErrCannotBeSet must be an error set at initialization only")
				}
			}
		}
	}
	args := make([]nilAbs, len(f.Params))
	args[0] = nNon
	tuples := n.outcomes(f, args)
	set, refused := false, false
	for _, t := range tuples {
		as := decodeTuple(t)
		r.Count("tuples returned", string(t))
		where := n.where[string(t)]
		if len(as) != 2 {
			r.Fail("signature", shortFn(f), where, "LeftAlignUniform no longer returns lines and an error")
			continue
		}
		switch {
		case as[1] == nNil:
			set = true
			r.Oblige(as[0] != nNil, "neither set nor refused", shortFn(f), where, "returns no lines and a nil error")
		case as[1] == nCannot:
			refused = true
			r.Oblige(as[0] == nNil, "lines with an error", shortFn(f), where, "returns ErrCannotBeSet with lines that are "+as[0].String())
		default:
			r.Fail("error", shortFn(f), where, "returns an error that is "+as[1].String()+", not known to be ErrCannotBeSet or nil")
		}
	}
	r.Oblige(set && refused, "outcomes", shortFn(f), p.PosOfFunc(f), "a paragraph must either be set or refused: one of the outcomes never happens")
	r.Assume("a list of breaks that is not nil has at least one line (not decided here)")
}
