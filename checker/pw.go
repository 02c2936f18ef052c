package main

// Piecewise evaluation: the value of a function of one integer, given
// constants otherwise, as a map from intervals to values.
//
// The integer is first known to be in the whole range of its type. Intervals
// (or sets of a few values) are propagated through the SSA form; when a branch
// is not decided, the range is cut where the comparison changes, and each part
// is evaluated apart.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type (
	pv interface{}

	// pInt is an integer: one of set, or else in [lo,hi]; k*R+c exactly when
	// k != 0, R being the integer cut in parts; sym + [lo,hi] when sym is set.
	pInt struct {
		lo, hi int64
		set    []int64
		k, c   int64
		sym    string
	}
	pBool struct {
		t    int8 // 1, -1 or 0 when not known
		cut  int64
		cuts bool // cut tells where R is to be cut
		on   string
		op   token.Token // on the symbol "on": (sym op k)
		k    int64
	}
	pObj struct {
		v    pv
		name string
		born int // when it was made
		ver  int
	}
	pPtr struct { // nil when obj is
		obj  *pObj
		path []int
	}
	pSlice struct { // nil when arr is
		arr  pPtr // to an array
		off  int64
		ln   pInt
		cp   int64
		text bool // the text given, of any length
	}
	pStr   struct{ s string }
	pText  struct{} // the string given
	pIter  struct{}
	pAgg   struct{ f []pv } // structs, arrays
	pTuple struct{ f []pv }
	pFn    struct {
		fn   *ssa.Function
		bind []pv
		nat  string
		data *pObj
	}
	pIface struct {
		t types.Type
		v pv
	}
	pNil struct{}

	// pMap is a map keyed by integers: what the initialisation of the package
	// put in it, and what is stored in it later, under the key R only.
	pMap struct {
		ent map[int64]pv
		dyn []pwPiece
	}

	pwCut  struct{ at int64 }
	pwFail struct {
		msg string
		pos string
	}
	pwPanic struct{ msg, pos string }

	pwPiece struct {
		lo, hi int64
		v      pv
	}
)

type pw struct {
	p       *Program
	globals map[*ssa.Global]*pObj
	inited  map[*ssa.Package]bool
	onces   map[string]bool
	rlo     int64
	rhi     int64
	hasR    bool
	steps   int64
	max     int64
	now     int // objects made before are those of the package
	clock   int
	once    int // depth of once.Do and of initialisations
	stores  map[string]bool
	funcs   map[string]bool
	depth   int
	memo    map[string]*pwMemo
	reads   map[*pObj]int
	pure    bool

	hit   bool // what is kept in maps is found there, rather than missing
	memos bool // a map is changed

	choice  []pwChoice
	choices int
	loop    *pwLoop
}

type pwMemo struct {
	calls  int
	seen   int64
	varied bool
	bad    bool
	pieces []pwPiece
	reads  map[*pObj]int
}

// pwLoop is the loop over the text given.
type pwLoop struct {
	head   *ssa.BasicBlock
	init   map[*ssa.Phi]pv
	step   map[*ssa.Phi]pv
	exit   bool // what follows the loop is executed, rather than its body
	depth  int
	access pInt // where the element is read
	seen   bool
	cond   string
	next   bool // over a string
	clock  int
}

type pwBack struct{}

// pwChoice is a branch taken on whether the text is empty.
type pwChoice struct {
	n     int
	empty bool // it is, in this branch
}

func newPW(p *Program) *pw {
	return &pw{p: p, globals: map[*ssa.Global]*pObj{}, inited: map[*ssa.Package]bool{}, onces: map[string]bool{}, max: 400_000_000, stores: map[string]bool{}, funcs: map[string]bool{}, memo: map[string]*pwMemo{}}
}

func (w *pw) fail(ins ssa.Instruction, f string, a ...any) {
	pos := "-"
	if ins != nil {
		pos = w.p.PosOf(ins)
	}
	panic(pwFail{fmt.Sprintf(f, a...), pos})
}

func (w *pw) obj(v pv, name string) *pObj {
	w.clock++
	return &pObj{v: v, name: name, born: w.clock}
}

func pk(n int64) pInt { return pInt{lo: n, hi: n} }

func (i pInt) cst() (int64, bool) { return i.lo, i.sym == "" && i.lo == i.hi }

func (i pInt) vals() []int64 {
	if i.sym != "" {
		return nil
	}
	if i.set != nil {
		return i.set
	}
	if n := i.hi - i.lo; n >= 0 && n < 16 {
		var s []int64
		for v := i.lo; v <= i.hi; v++ {
			s = append(s, v)
		}
		return s
	}
	return nil
}

func pset(vs []int64) pInt {
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	var o []int64
	for i, v := range vs {
		if i == 0 || v != vs[i-1] {
			o = append(o, v)
		}
	}
	r := pInt{lo: o[0], hi: o[len(o)-1]}
	if len(o) <= 16 && len(o) > 1 {
		r.set = o
	}
	return r
}

func (i pInt) String() string {
	s := fmt.Sprintf("%d", i.lo)
	if i.lo != i.hi {
		s = fmt.Sprintf("[%d,%d]", i.lo, i.hi)
	}
	if i.sym != "" {
		return i.sym + "+" + s
	}
	return s
}

func pwRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return math.MinInt64, math.MaxInt64, true
	case types.Int32, types.UntypedRune:
		return math.MinInt32, math.MaxInt32, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, math.MaxInt64, true // beyond: not supported
	}
	return 0, 0, false
}

// wrap brings i, an integer of unbounded size, to type t.
func (w *pw) wrap(i pInt, t types.Type, ins ssa.Instruction) pInt {
	lo, hi, ok := pwRange(t)
	if !ok {
		w.fail(ins, "an integer of type %s", t)
	}
	if i.sym != "" || i.lo >= lo && i.hi <= hi {
		return i
	}
	if lo == math.MinInt64 || hi == math.MaxInt64 {
		w.fail(ins, "an integer that may be out of the range of %s", t)
	}
	n := hi - lo + 1
	mod := func(v int64) int64 { return ((v-lo)%n+n)%n + lo }
	if vs := i.vals(); vs != nil {
		var o []int64
		for _, v := range vs {
			o = append(o, mod(v))
		}
		return pset(o)
	}
	if a, b := mod(i.lo), mod(i.hi); b-a == i.hi-i.lo {
		r := pInt{lo: a, hi: b, k: i.k, c: i.c + a - i.lo}
		if i.k == 0 {
			r.c = 0
		}
		return r
	}
	return pInt{lo: lo, hi: hi}
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	return c, c/b == a && !(a == -1 && b == math.MinInt64) && !(b == -1 && a == math.MinInt64)
}

// intOp is x op y.
func (w *pw) intOp(op token.Token, x, y pInt, t types.Type, ins ssa.Instruction) pInt {
	if x.sym != "" || y.sym != "" {
		switch {
		case op == token.ADD && x.sym != "" && y.sym != "":
			a, b := x.sym, y.sym
			if strings.HasPrefix(b, "phi:") {
				a, b = b, a
			}
			return pInt{lo: x.lo + y.lo, hi: x.hi + y.hi, sym: a + "⊕" + b}
		case op == token.ADD && y.sym == "":
			return pInt{lo: x.lo + y.lo, hi: x.hi + y.hi, sym: x.sym}
		case op == token.ADD && x.sym == "":
			return pInt{lo: x.lo + y.lo, hi: x.hi + y.hi, sym: y.sym}
		case op == token.SUB && y.sym == "":
			return pInt{lo: x.lo - y.hi, hi: x.hi - y.lo, sym: x.sym}
		case op == token.SUB && x.sym == y.sym:
			return pInt{lo: x.lo - y.hi, hi: x.hi - y.lo}
		}
		w.fail(ins, "%s on %s and %s", op, x, y)
	}
	f := func(a, b int64) (int64, bool) {
		switch op {
		case token.ADD:
			return addOvf(a, b)
		case token.SUB:
			if b == math.MinInt64 {
				return 0, false
			}
			return addOvf(a, -b)
		case token.MUL:
			return mulOvf(a, b)
		case token.QUO, token.REM:
			if b == 0 {
				panic(pwPanic{"division by zero", w.p.PosOf(ins)})
			}
			if op == token.QUO {
				return a / b, b != -1 || a != math.MinInt64
			}
			return a % b, true
		case token.AND:
			return a & b, true
		case token.OR:
			return a | b, true
		case token.XOR:
			return a ^ b, true
		case token.AND_NOT:
			return a &^ b, true
		case token.SHL:
			if b < 0 {
				panic(pwPanic{"negative shift", w.p.PosOf(ins)})
			}
			lo, hi, _ := pwRange(t)
			if hi != math.MaxInt64 && lo != math.MinInt64 && b < 24 {
				return a << b, true
			}
			if b > 62 {
				return 0, a == 0
			}
			return mulOvf(a, 1<<b)
		case token.SHR:
			if b < 0 {
				panic(pwPanic{"negative shift", w.p.PosOf(ins)})
			}
			if b > 63 {
				b = 63
			}
			return a >> b, true
		}
		return 0, false
	}
	xs, ys := x.vals(), y.vals()
	var r pInt
	if xs != nil && ys != nil && len(xs)*len(ys) <= 256 {
		var o []int64
		for _, a := range xs {
			for _, b := range ys {
				v, ok := f(a, b)
				if !ok {
					w.fail(ins, "%s overflows on %d and %d", op, a, b)
				}
				o = append(o, v)
			}
		}
		r = pset(o)
	} else {
		ends := func() pInt {
			var o []int64
			for _, a := range []int64{x.lo, x.hi} {
				for _, b := range []int64{y.lo, y.hi} {
					v, ok := f(a, b)
					if !ok {
						w.fail(ins, "%s may overflow on %s and %s", op, x, y)
					}
					o = append(o, v)
				}
			}
			s := pset(o)
			return pInt{lo: s.lo, hi: s.hi}
		}
		yc, yk := y.cst()
		switch op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			r = ends()
		case token.SHR:
			r = ends()
		case token.QUO:
			if !yk {
				w.cutMid(ins)
			}
			r = ends()
		case token.REM:
			if !yk {
				w.cutMid(ins)
			}
			if yc < 0 {
				yc = -yc
			}
			if yc == 0 {
				panic(pwPanic{"division by zero", w.p.PosOf(ins)})
			}
			switch {
			case x.lo >= 0 && x.lo/yc == x.hi/yc:
				r = pInt{lo: x.lo % yc, hi: x.hi % yc}
			case x.lo >= 0:
				r = pInt{lo: 0, hi: min(yc-1, x.hi)}
			case x.hi <= 0:
				r = pInt{lo: max(1-yc, x.lo), hi: 0}
			default:
				r = pInt{lo: max(1-yc, x.lo), hi: min(yc-1, x.hi)}
			}
		case token.AND:
			if !yk {
				x, y = y, x
				yc, yk = y.cst()
			}
			switch {
			case yk && yc >= 0 && x.lo >= 0 && x.hi <= yc && yc&(yc+1) == 0:
				r = x
			case yk && yc >= 0:
				r = pInt{lo: 0, hi: yc}
			default:
				w.cutMid(ins)
			}
		case token.OR, token.XOR:
			if x.lo < 0 || y.lo < 0 {
				w.cutMid(ins)
			}
			m := int64(1)
			for m <= x.hi || m <= y.hi {
				m <<= 1
			}
			r = pInt{lo: 0, hi: m - 1}
		default:
			w.cutMid(ins)
		}
	}
	// exact functions of R
	if r.lo != r.hi && x.sym == "" && y.sym == "" {
		yc, yk := y.cst()
		xc, xk := x.cst()
		switch {
		case op == token.ADD && x.k != 0 && yk:
			r.k, r.c = x.k, x.c+yc
		case op == token.ADD && y.k != 0 && xk:
			r.k, r.c = y.k, y.c+xc
		case op == token.SUB && x.k != 0 && yk:
			r.k, r.c = x.k, x.c-yc
		case op == token.SUB && y.k != 0 && xk:
			r.k, r.c = -y.k, xc-y.c
		case op == token.MUL && x.k != 0 && yk && yc != 0 && abs64(yc) < 1<<20 && abs64(x.k) < 1<<20:
			r.k, r.c = x.k*yc, x.c*yc
		case op == token.MUL && y.k != 0 && xk && xc != 0 && abs64(xc) < 1<<20 && abs64(y.k) < 1<<20:
			r.k, r.c = y.k*xc, y.c*xc
		case op == token.SHL && x.k != 0 && yk && yc < 20 && abs64(x.k) < 1<<20:
			r.k, r.c = x.k<<yc, x.c<<yc
		}
	}
	return w.wrap(r, t, ins)
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// cutMid asks for smaller parts.
func (w *pw) cutMid(ins ssa.Instruction) {
	if !w.hasR || w.rlo == w.rhi {
		w.fail(ins, "the value is not determined")
	}
	panic(pwCut{w.rlo + (w.rhi-w.rlo)/2 + 1})
}

func (w *pw) compare(op token.Token, x, y pInt, ins ssa.Instruction) pBool {
	if x.sym != "" || y.sym != "" {
		if x.sym == y.sym && x.lo == x.hi && y.lo == y.hi {
			x, y = pk(x.lo), pk(y.lo)
		} else if x.sym != "" && y.sym == "" && y.lo == y.hi && x.lo == x.hi {
			return pBool{on: x.sym, op: op, k: y.lo - x.lo}
		} else if y.sym != "" && x.sym == "" && y.lo == y.hi && x.lo == x.hi {
			return pBool{on: y.sym, op: mirror(op), k: x.lo - y.lo}
		} else if x.lo == x.hi && y.lo == y.hi {
			// y.sym + k op' x.sym
			return pBool{on: x.sym + "|" + y.sym, op: op, k: y.lo - x.lo}
		} else {
			w.fail(ins, "%s compared with %s", x, y)
		}
	}
	yes := func(b bool) pBool {
		if b {
			return pBool{t: 1}
		}
		return pBool{t: -1}
	}
	switch op {
	case token.LSS:
		if x.hi < y.lo || x.lo >= y.hi {
			return yes(x.hi < y.lo)
		}
	case token.LEQ:
		if x.hi <= y.lo || x.lo > y.hi {
			return yes(x.hi <= y.lo)
		}
	case token.GTR:
		if x.lo > y.hi || x.hi <= y.lo {
			return yes(x.lo > y.hi)
		}
	case token.GEQ:
		if x.lo >= y.hi || x.hi < y.lo {
			return yes(x.lo >= y.hi)
		}
	case token.EQL, token.NEQ:
		if x.hi < y.lo || x.lo > y.hi {
			return yes(op == token.NEQ)
		}
		if x.lo == x.hi && y.lo == y.hi {
			return yes((x.lo == y.lo) == (op == token.EQL))
		}
		if xs, ys := x.vals(), y.vals(); xs != nil && ys != nil {
			common := false
			for _, a := range xs {
				for _, b := range ys {
					common = common || a == b
				}
			}
			if !common {
				return yes(op == token.NEQ)
			}
		}
	}
	r := pBool{}
	k, c := x.k-y.k, x.c-y.c
	exact := func(i pInt) bool { return i.k != 0 || i.lo == i.hi }
	if x.k == 0 {
		k, c = -y.k, x.lo-y.c
	}
	if y.k == 0 {
		k, c = x.k, x.c-y.lo
	}
	if x.k == 0 && y.k == 0 || !exact(x) || !exact(y) || k == 0 {
		return r
	}
	// the sign of k*R+c changes between at-1 and at
	var at int64
	switch op {
	case token.LSS, token.GEQ: // k*R+c < 0: R < -c/k, or R > -c/k
		if k > 0 {
			at = -floorDiv(c, k)
		} else {
			at = floorDiv(c, -k) + 1
		}
	case token.LEQ, token.GTR:
		if k > 0 {
			at = floorDiv(-c, k) + 1
		} else {
			at = -floorDiv(-c, -k)
		}
	default:
		at = floorDiv(-c, k)
		if at == w.rlo {
			at++
		}
	}
	if at <= w.rlo || at > w.rhi {
		return r
	}
	return pBool{cut: at, cuts: true}
}

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func negate(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GEQ
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	case token.GEQ:
		return token.LSS
	case token.EQL:
		return token.NEQ
	}
	return token.EQL
}

// zero is the zero value of a type.
func (w *pw) zero(t types.Type) pv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return pk(0)
		case u.Info()&types.IsBoolean != 0:
			return pBool{t: -1}
		case u.Info()&types.IsString != 0:
			return pStr{}
		}
		return pNil{}
	case *types.Struct:
		a := &pAgg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, w.zero(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := &pAgg{f: make([]pv, u.Len())}
		for i := range a.f {
			a.f[i] = w.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return pSlice{ln: pk(0)}
	case *types.Pointer:
		return pPtr{}
	case *types.Interface:
		return pIface{}
	case *types.Signature:
		return pFn{}
	case *types.Map:
		return (*pMap)(nil)
	}
	return pNil{}
}

func pcopy(v pv) pv {
	if a, ok := v.(*pAgg); ok {
		n := &pAgg{f: make([]pv, len(a.f))}
		for i, e := range a.f {
			n.f[i] = pcopy(e)
		}
		return n
	}
	return v
}

func (w *pw) load(p pPtr, ins ssa.Instruction) pv {
	if p.obj == nil {
		panic(pwPanic{"nil dereference", w.p.PosOf(ins)})
	}
	if w.reads != nil && p.obj.born <= w.now && p.obj.name != "elements" {
		w.reads[p.obj] = p.obj.ver
	}
	v := p.obj.v
	for _, i := range p.path {
		v = v.(*pAgg).f[i]
	}
	return pcopy(v)
}

func (w *pw) store(p pPtr, v pv, ins ssa.Instruction) {
	if p.obj == nil {
		panic(pwPanic{"nil dereference", w.p.PosOf(ins)})
	}
	if p.obj.name == "elements" || p.obj.name == "text element" {
		w.fail(ins, "one of several elements is set")
	}
	if w.loop != nil && w.loop.init != nil && !w.loop.exit && p.obj.born <= w.loop.clock {
		w.fail(ins, "memory is changed by the loop over the text")
	}
	if p.obj.born <= w.now {
		w.pure = false
		if w.once == 0 {
			w.stores[w.p.PosOf(ins)+"\t"+shortFn(ins.Parent())] = true
		}
	}
	p.obj.ver++
	v = pcopy(v)
	if len(p.path) == 0 {
		p.obj.v = v
		return
	}
	a := p.obj.v.(*pAgg)
	for _, i := range p.path[:len(p.path)-1] {
		a = a.f[i].(*pAgg)
	}
	a.f[p.path[len(p.path)-1]] = v
}

func (p pPtr) at(i int) pPtr {
	return pPtr{p.obj, append(p.path[:len(p.path):len(p.path)], i)}
}

func (w *pw) global(g *ssa.Global, ins ssa.Instruction) *pObj {
	if o := w.globals[g]; o != nil {
		return o
	}
	w.initPkg(g.Pkg)
	if w.globals[g] == nil {
		w.globals[g] = w.obj(w.zero(g.Type().(*types.Pointer).Elem()), g.Name())
	}
	return w.globals[g]
}

// initPkg evaluates the initialisers of a package.
func (w *pw) initPkg(pkg *ssa.Package) {
	if pkg == nil || w.inited[pkg] {
		return
	}
	w.inited[pkg] = true
	f := pkg.Func("init")
	if f == nil {
		return
	}
	hasR, lo, hi, reads, loop, choice := w.hasR, w.rlo, w.rhi, w.reads, w.loop, w.choice
	w.hasR, w.reads, w.loop = false, nil, nil
	w.once++
	now := w.now
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			w.globals[g] = w.obj(w.zero(g.Type().(*types.Pointer).Elem()), g.Name())
		}
	}
	w.call(f, nil, nil, nil)
	w.once--
	if now != 0 {
		w.now = w.clock
	}
	w.hasR, w.rlo, w.rhi, w.reads, w.loop, w.choice = hasR, lo, hi, reads, loop, choice
}

type pwFrame struct {
	fn   *ssa.Function
	env  map[ssa.Value]pv
	bind []pv
	defs []func()
}

func (w *pw) val(fr *pwFrame, v ssa.Value, ins ssa.Instruction) pv {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return w.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Int:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if n, exact := constant.Int64Val(v.Value); exact {
					return pk(n)
				}
			}
			return pNil{}
		case constant.Bool:
			if constant.BoolVal(v.Value) {
				return pBool{t: 1}
			}
			return pBool{t: -1}
		case constant.String:
			return pStr{constant.StringVal(v.Value)}
		}
		return pNil{}
	case *ssa.Global:
		return pPtr{obj: w.global(v, ins)}
	case *ssa.Function:
		return pFn{fn: v}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return pFn{nat: "builtin"}
	}
	r, ok := fr.env[v]
	if !ok {
		w.fail(ins, "the value of %s is not known", v.Name())
	}
	return r
}

// runs evaluates fn and returns what it returns, or why it was stopped.
func (w *pw) attempt(f func() pv) (v pv, stop any) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case pwCut, pwFail, pwPanic, pwBack:
			stop = e
		default:
			panic(e)
		}
	}()
	return f(), nil
}

// pieces evaluates f for R in [lo,hi].
func (w *pw) pieces(lo, hi int64, f func() pv) ([]pwPiece, any) {
	oh, ol, ohi, od, oo := w.hasR, w.rlo, w.rhi, w.depth, w.once
	defer func() { w.hasR, w.rlo, w.rhi = oh, ol, ohi }()
	var out []pwPiece
	type rng struct{ lo, hi int64 }
	todo := []rng{{lo, hi}}
	for len(todo) > 0 {
		r := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		w.hasR, w.rlo, w.rhi = true, r.lo, r.hi
		w.depth, w.once = od, oo
		v, stop := w.attempt(func() pv {
			v := f()
			if !pwExact(v) {
				w.cutMid(nil)
			}
			return v
		})
		switch s := stop.(type) {
		case nil:
			if n := len(out); n > 0 && pwEqual(out[n-1].v, v) && out[n-1].hi+1 == r.lo {
				out[n-1].hi = r.hi
			} else {
				out = append(out, pwPiece{r.lo, r.hi, v})
			}
		case pwCut:
			todo = append(todo, rng{s.at, r.hi}, rng{r.lo, s.at - 1})
		case pwPanic:
			w.depth, w.once = od, oo
			return out, pwPanic{s.msg + fmt.Sprintf(" for values from %d to %d", r.lo, r.hi), s.pos}
		default:
			w.depth, w.once = od, oo
			return out, stop
		}
	}
	w.depth, w.once = od, oo
	return out, nil
}

func pwExact(v pv) bool {
	switch v := v.(type) {
	case pInt:
		return v.lo == v.hi
	case pBool:
		return v.t != 0
	case pTuple:
		for _, f := range v.f {
			if !pwExact(f) {
				return false
			}
		}
	}
	return true
}

func pwEqual(a, b pv) bool {
	switch a := a.(type) {
	case pInt:
		b, ok := b.(pInt)
		return ok && a.lo == a.hi && b.lo == b.hi && a.lo == b.lo && a.sym == b.sym
	case pBool:
		b, ok := b.(pBool)
		return ok && a.t == b.t && a.t != 0
	case pTuple:
		b, ok := b.(pTuple)
		if !ok || len(a.f) != len(b.f) {
			return false
		}
		for i := range a.f {
			if !pwEqual(a.f[i], b.f[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func pwIdent(v pv) string {
	switch v := v.(type) {
	case pInt:
		if v.lo == v.hi {
			return v.String()
		}
		return ""
	case pBool:
		if v.t != 0 {
			return fmt.Sprint(v.t)
		}
	case pPtr:
		return fmt.Sprintf("%p%v", v.obj, v.path)
	case pSlice:
		if v.arr.obj != nil && v.ln.lo == v.ln.hi && !v.text {
			return fmt.Sprintf("%p%v:%d:%s:%d", v.arr.obj, v.arr.path, v.off, v.ln, v.cp)
		}
		if v.arr.obj == nil && !v.text {
			return "nil"
		}
	case pStr:
		return fmt.Sprintf("%q", v.s)
	case pFn:
		if len(v.bind) == 0 && v.nat == "" && v.fn != nil {
			return v.fn.String()
		}
	}
	return ""
}

// summary is the result of f, when it was called often with one integer that
// varies: it is then evaluated for all integers of the type.
func (w *pw) summary(f *ssa.Function, args []pv) (pv, bool) {
	if w.hasR || !w.p.InModule(f) || f.Signature.Results().Len() != 1 || w.loop != nil {
		return nil, false
	}
	at := -1
	key := f.String()
	for i, a := range args {
		if n, ok := a.(pInt); ok && n.lo == n.hi && n.sym == "" && at < 0 {
			at = i
			key += "|*"
			continue
		}
		id := pwIdent(a)
		if id == "" {
			return nil, false
		}
		key += "|" + id
	}
	if at < 0 {
		return nil, false
	}
	n := args[at].(pInt).lo
	m := w.memo[key]
	if m == nil {
		m = &pwMemo{}
		w.memo[key] = m
	}
	m.calls++
	m.varied = m.varied || m.calls > 1 && n != m.seen
	m.seen = n
	if m.bad || m.calls < 32 || !m.varied {
		return nil, false
	}
	if m.pieces != nil {
		for o, v := range m.reads {
			if o.ver != v {
				m.pieces = nil
				m.bad = true
				return nil, false
			}
		}
	} else {
		lo, hi, ok := pwRange(f.Params[at].Type())
		if !ok || lo == math.MinInt64 {
			lo, hi = -1<<31, 1<<32
		}
		reads, pure, now := w.reads, w.pure, w.now
		w.reads, w.pure, w.now = map[*pObj]int{}, true, w.clock
		ps, stop := w.pieces(lo, hi, func() pv {
			as := append([]pv(nil), args...)
			as[at] = pInt{lo: w.rlo, hi: w.rhi, k: 1}
			return w.body(f, as, nil)
		})
		m.reads = w.reads
		ok = w.pure && stop == nil
		w.reads, w.pure, w.now = reads, pure, now
		if !ok {
			m.bad = true
			return nil, false
		}
		m.pieces = ps
	}
	i := sort.Search(len(m.pieces), func(i int) bool { return m.pieces[i].hi >= n })
	if i == len(m.pieces) || m.pieces[i].lo > n {
		return nil, false
	}
	if w.reads != nil {
		for o, v := range m.reads {
			w.reads[o] = v
		}
	}
	return m.pieces[i].v, true
}

func (w *pw) call(f *ssa.Function, args, bind []pv, ins ssa.Instruction) pv {
	if v, ok := w.summary(f, args); ok {
		return v
	}
	return w.body(f, args, bind)
}

func (w *pw) apply(fn pFn, args []pv, ins ssa.Instruction) pv {
	switch fn.nat {
	case "once":
		if !w.onces[fmt.Sprintf("%p", fn.data)] {
			w.onces[fmt.Sprintf("%p", fn.data)] = true
			fn.data.v = w.inOnce(fn.bind[0].(pFn), ins)
			fn.data.ver++
		}
		return fn.data.v
	case "":
	default:
		w.fail(ins, "a function that is not known is called")
	}
	if fn.fn == nil {
		panic(pwPanic{"nil function", w.p.PosOf(ins)})
	}
	if v, ok := w.native(fn.fn, args, ins); ok {
		return v
	}
	if fn.fn.Blocks == nil {
		w.fail(ins, "%s has no body", fn.fn)
	}
	return w.call(fn.fn, args, fn.bind, ins)
}

// inOnce calls f, that is executed once, whatever R is.
func (w *pw) inOnce(f pFn, ins ssa.Instruction) pv {
	hasR, lo, hi, reads, loop := w.hasR, w.rlo, w.rhi, w.reads, w.loop
	w.hasR, w.reads, w.loop = false, nil, nil
	w.once++
	v := w.apply(f, nil, ins)
	w.once--
	w.hasR, w.rlo, w.rhi, w.reads, w.loop = hasR, lo, hi, reads, loop
	return v
}

func (w *pw) native(f *ssa.Function, args []pv, ins ssa.Instruction) (pv, bool) {
	switch f.String() {
	case "(*sync.Once).Do":
		p := args[0].(pPtr)
		k := fmt.Sprintf("%p%v", p.obj, p.path)
		if !w.onces[k] {
			w.onces[k] = true
			w.inOnce(args[1].(pFn), ins)
		}
		return nil, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, true
	}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
	}
	if o.Pkg != nil && o.Pkg.Pkg.Path() == "sync" && (o.Name() == "OnceFunc" || o.Name() == "OnceValue") {
		return pFn{nat: "once", bind: args[:1], data: w.obj(nil, "once")}, true
	}
	if f.Pkg != nil && !w.p.InModule(f) && f.Origin() == nil {
		switch f.Pkg.Pkg.Path() {
		case "unicode/utf8", "unicode", "sort", "slices", "cmp", "math/bits":
		default:
			if f.Name() == "init" {
				return nil, true
			}
			w.fail(ins, "%s is called", f)
		}
	}
	return nil, false
}

func (w *pw) body(f *ssa.Function, args, bind []pv) pv {
	w.funcs[f.String()] = true
	w.depth++
	if w.depth > 60 {
		panic(pwFail{"calls are nested too deep", "-"})
	}
	fr := &pwFrame{fn: f, env: make(map[ssa.Value]pv, 16), bind: bind}
	for i, p := range f.Params {
		fr.env[p] = args[i]
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		next, v, done := w.block(fr, b, prev)
		if done {
			w.depth--
			return v
		}
		prev, b = b, next
	}
}

func (w *pw) block(fr *pwFrame, b, prev *ssa.BasicBlock) (*ssa.BasicBlock, pv, bool) {
	if prev != nil {
		pi := 0
		for j, q := range b.Preds {
			if q == prev {
				pi = j
			}
		}
		var vs []pv
		var ps []*ssa.Phi
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			ps = append(ps, p)
			vs = append(vs, w.val(fr, p.Edges[pi], p))
		}
		if l := w.loop; l != nil && l.head == b && l.depth == w.depth && l.init != nil {
			l.step = map[*ssa.Phi]pv{}
			for i, p := range ps {
				l.step[p] = vs[i]
			}
			panic(pwBack{})
		}
		for i, p := range ps {
			fr.env[p] = vs[i]
		}
	}
	again := false
start:
	for _, ins := range b.Instrs {
		w.steps++
		if w.steps > w.max {
			w.fail(ins, "the evaluation is too expensive")
		}
		switch ins := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return b.Succs[0], nil, false
		case *ssa.If:
			c := w.val(fr, ins.Cond, ins).(pBool)
			switch {
			case c.t > 0:
				return b.Succs[0], nil, false
			case c.t < 0:
				return b.Succs[1], nil, false
			case c.cuts:
				panic(pwCut{c.cut})
			case c.on == "":
				w.cutMid(ins)
			}
			// a condition on the length of the text
			l := w.loop
			if l == nil {
				w.fail(ins, "a branch depends on %s", c.on)
			}
			if !again && l.init == nil && pwLoopHead(b) && (c.on == "len" || c.on == "next") {
				// the head of the loop over the text: any iteration
				l.head, l.depth, l.init, l.clock = b, w.depth, map[*ssa.Phi]pv{}, w.clock
				for _, j := range b.Instrs {
					p, ok := j.(*ssa.Phi)
					if !ok {
						break
					}
					l.init[p] = fr.env[p]
					if n, ok := fr.env[p].(pInt); ok && n.sym == "" {
						fr.env[p] = pInt{sym: "phi:" + p.Name()}
					}
				}
				again = true
				goto start
			}
			if l.head == b && l.depth == w.depth {
				l.cond = fmt.Sprintf("%s %s %d", c.on, c.op, c.k)
				l.next = c.on == "next"
				body := 0
				if !pwInLoop(b, b.Succs[0]) {
					body = 1
					l.cond = fmt.Sprintf("%s %s %d", c.on, negate(c.op), c.k)
				}
				if l.exit {
					body = 1 - body
				}
				return b.Succs[body], nil, false
			}
			if l.init != nil {
				w.fail(ins, "a branch depends on %s", c.on)
			}
			// whether the text is empty
			if !(c.on == "len" || c.on == "nil") {
				w.fail(ins, "a branch depends on %s", c.on)
			}
			if w.choices == len(w.choice) {
				w.choice = append(w.choice, pwChoice{})
			}
			n := &w.choice[w.choices]
			w.choices++
			op := c.op
			if n.n == 1 {
				op = negate(op)
			}
			n.empty = c.on == "nil" && op == token.EQL ||
				c.on == "len" && (op == token.EQL && c.k == 0 || op == token.LSS && c.k <= 1 || op == token.LEQ && c.k <= 0)
			return b.Succs[n.n], nil, false
		case *ssa.Return:
			var v pv
			switch len(ins.Results) {
			case 0:
			case 1:
				v = w.val(fr, ins.Results[0], ins)
			default:
				t := pTuple{}
				for _, r := range ins.Results {
					t.f = append(t.f, w.val(fr, r, ins))
				}
				v = t
			}
			return nil, v, true
		case *ssa.Store:
			w.store(w.val(fr, ins.Addr, ins).(pPtr), w.val(fr, ins.Val, ins), ins)
		case *ssa.Panic:
			panic(pwPanic{"panic", w.p.PosOf(ins)})
		case *ssa.MapUpdate:
			m, _ := w.val(fr, ins.Map, ins).(*pMap)
			w.mapSet(m, w.val(fr, ins.Key, ins), w.val(fr, ins.Value, ins), ins)
		case *ssa.Defer:
			fn, ok := w.val(fr, ins.Call.Value, ins).(pFn)
			if !ok || ins.Call.IsInvoke() {
				w.fail(ins, "%T is not supported", ins)
			}
			var args []pv
			for _, a := range ins.Call.Args {
				args = append(args, w.val(fr, a, ins))
			}
			fr.defs = append(fr.defs, func() { w.apply(fn, args, ins) })
		case *ssa.RunDefers:
			for len(fr.defs) > 0 {
				d := fr.defs[len(fr.defs)-1]
				fr.defs = fr.defs[:len(fr.defs)-1]
				d()
			}
		case ssa.Value:
			fr.env[ins] = w.value(fr, ins)
		default:
			w.fail(ins.(ssa.Instruction), "%T is not supported", ins)
		}
	}
	w.fail(b.Instrs[0], "no end of block")
	return nil, nil, false
}

// pwLoopHead tells if b is the head of a loop.
func pwLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// pwInLoop tells if s, that follows head, leads back to head.
func pwInLoop(head, s *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{s}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if b == head {
			return true
		}
		if !seen[b] && head.Dominates(b) {
			seen[b] = true
			todo = append(todo, b.Succs...)
		}
	}
	return false
}

func (w *pw) value(fr *pwFrame, ins ssa.Value) pv {
	at := ins.(ssa.Instruction)
	val := func(v ssa.Value) pv { return w.val(fr, v, at) }
	switch ins := ins.(type) {
	case *ssa.Alloc:
		return pPtr{obj: w.obj(w.zero(ins.Type().(*types.Pointer).Elem()), ins.Comment)}
	case *ssa.BinOp:
		return w.binop(ins, val(ins.X), val(ins.Y))
	case *ssa.UnOp:
		x := val(ins.X)
		switch ins.Op {
		case token.MUL:
			p := x.(pPtr)
			if p.obj != nil && p.obj.name == "text element" {
				return pInt{lo: w.rlo, hi: w.rhi, k: 1}
			}
			return w.load(p, at)
		case token.NOT:
			c := x.(pBool)
			c.t = -c.t
			if c.on != "" {
				c.op = negate(c.op)
			}
			return c
		case token.SUB:
			return w.intOp(token.SUB, pk(0), x.(pInt), ins.Type(), at)
		case token.XOR:
			n := x.(pInt)
			if lo, _, _ := pwRange(ins.Type()); lo < 0 {
				return w.intOp(token.SUB, pk(-1), n, ins.Type(), at)
			}
		}
		w.fail(at, "operator %s is not supported", ins.Op)
	case *ssa.Call:
		return w.callIns(fr, ins)
	case *ssa.ChangeType:
		return val(ins.X)
	case *ssa.ChangeInterface:
		return val(ins.X)
	case *ssa.MakeInterface:
		return pIface{ins.X.Type(), val(ins.X)}
	case *ssa.Convert:
		return w.convert(ins, val(ins.X))
	case *ssa.MultiConvert:
		return w.convertTo(ins.X.Type(), ins.Type(), val(ins.X), at)
	case *ssa.Extract:
		return val(ins.Tuple).(pTuple).f[ins.Index]
	case *ssa.Field:
		return val(ins.X).(*pAgg).f[ins.Field]
	case *ssa.FieldAddr:
		p := val(ins.X).(pPtr)
		if p.obj == nil {
			panic(pwPanic{"nil dereference", w.p.PosOf(at)})
		}
		return p.at(ins.Field)
	case *ssa.MakeClosure:
		f := pFn{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.bind = append(f.bind, val(b))
		}
		return f
	case *ssa.MakeMap:
		return &pMap{ent: map[int64]pv{}}
	case *ssa.Lookup:
		m, ok := val(ins.X).(*pMap)
		if !ok {
			break
		}
		e := ins.X.Type().Underlying().(*types.Map).Elem()
		v, found := w.mapGet(m, val(ins.Index), at)
		if !found {
			v = w.zero(e)
		}
		if !ins.CommaOk {
			return v
		}
		ok1 := pBool{t: -1}
		if found {
			ok1.t = 1
		}
		return pTuple{[]pv{v, ok1}}
	case *ssa.MakeSlice:
		n, ok1 := val(ins.Len).(pInt).cst()
		c, ok2 := val(ins.Cap).(pInt).cst()
		if !ok1 || !ok2 {
			w.fail(at, "a slice of unknown length")
		}
		if n < 0 || c < n || c > 1<<24 {
			panic(pwPanic{"a slice of an invalid length", w.p.PosOf(at)})
		}
		a := &pAgg{f: make([]pv, c)}
		e := ins.Type().Underlying().(*types.Slice).Elem()
		for i := range a.f {
			a.f[i] = w.zero(e)
		}
		return pSlice{arr: pPtr{obj: w.obj(a, "slice")}, ln: pk(n), cp: c}
	case *ssa.Slice:
		return w.slice(fr, ins)
	case *ssa.IndexAddr:
		return w.index(val(ins.X), val(ins.Index).(pInt), at)
	case *ssa.Index:
		i := val(ins.Index).(pInt)
		n, ok := i.cst()
		if !ok {
			w.cutMid(at)
		}
		switch x := val(ins.X).(type) {
		case *pAgg:
			if n < 0 || n >= int64(len(x.f)) {
				panic(pwPanic{"index out of range", w.p.PosOf(at)})
			}
			return x.f[n]
		case pStr:
			if n < 0 || n >= int64(len(x.s)) {
				panic(pwPanic{"index out of range", w.p.PosOf(at)})
			}
			return pk(int64(x.s[n]))
		}
	case *ssa.Range:
		if _, ok := val(ins.X).(pText); ok {
			return pIter{}
		}
	case *ssa.Next:
		if _, ok := val(ins.Iter).(pIter); ok {
			if l := w.loop; l != nil {
				l.seen = true
			}
			return pTuple{[]pv{pBool{on: "next", op: token.NEQ}, pInt{sym: "position"}, pInt{lo: w.rlo, hi: w.rhi, k: 1}}}
		}
	case *ssa.TypeAssert:
		if i, ok := val(ins.X).(pIface); ok && !ins.CommaOk && i.t != nil && types.Identical(i.t, ins.AssertedType) {
			return i.v
		}
	}
	w.fail(at, "%T is not supported", ins)
	return nil
}

// index is the address of an element. When the index is not exact, the
// elements that it may denote have to be equal, or else R is cut.
func (w *pw) index(x pv, i pInt, at ssa.Instruction) pv {
	var arr pPtr
	var off, n int64
	switch x := x.(type) {
	case pSlice:
		if x.text {
			if w.loop == nil || w.loop.head == nil {
				w.fail(at, "an element of the text is read out of a loop")
			}
			if w.loop.seen && (w.loop.access.sym != i.sym || w.loop.access.lo != i.lo) {
				w.fail(at, "several elements of the text are read in an iteration")
			}
			w.loop.seen, w.loop.access = true, i
			return pPtr{obj: &pObj{name: "text element"}}
		}
		arr, off, n = x.arr, x.off, x.ln.lo
		if x.ln.sym != "" || x.ln.lo != x.ln.hi {
			w.cutMid(at)
		}
	case pPtr:
		if x.obj == nil {
			panic(pwPanic{"nil dereference", w.p.PosOf(at)})
		}
		arr = x
		v := x.obj.v
		for _, j := range x.path {
			v = v.(*pAgg).f[j]
		}
		n = int64(len(v.(*pAgg).f))
	}
	if i.sym != "" {
		w.fail(at, "an index that is not known")
	}
	if i.hi < 0 || i.lo >= n {
		panic(pwPanic{fmt.Sprintf("index %s out of range [0,%d)", i, n), w.p.PosOf(at)})
	}
	if i.lo < 0 || i.hi >= n || i.lo == i.hi && (i.lo < 0 || i.lo >= n) {
		w.cutMid(at)
	}
	if i.lo == i.hi {
		return arr.at(int(off + i.lo))
	}
	v := arr.obj.v
	for _, j := range arr.path {
		v = v.(*pAgg).f[j]
	}
	el := v.(*pAgg).f
	if w.reads != nil && arr.obj.born <= w.now {
		w.reads[arr.obj] = arr.obj.ver
	}
	var set []int64
	if i.set != nil {
		for _, j := range i.set {
			n, ok := el[off+j].(pInt)
			if !ok || n.lo != n.hi {
				w.cutMid(at)
			}
			set = append(set, n.lo)
		}
	} else {
	scan:
		for j := i.lo; j <= i.hi; j++ {
			n, ok := el[off+j].(pInt)
			if !ok || n.lo != n.hi {
				w.cutMid(at)
			}
			for _, s := range set {
				if s == n.lo {
					continue scan
				}
			}
			set = append(set, n.lo)
			if len(set) > 1 {
				break
			}
		}
	}
	if len(set) > 1 {
		s := pset(set)
		if i.set == nil || s.lo != s.hi {
			w.cutMid(at)
		}
		set = set[:1]
	}
	// all equal: reading it is reading this one
	return pPtr{obj: &pObj{v: pk(set[0]), name: "elements", born: w.now - 1}}
}

func (w *pw) slice(fr *pwFrame, ins *ssa.Slice) pv {
	x := w.val(fr, ins.X, ins)
	end := func(v ssa.Value, def int64) int64 {
		if v == nil {
			return def
		}
		n, ok := w.val(fr, v, ins).(pInt).cst()
		if !ok {
			w.cutMid(ins)
		}
		return n
	}
	switch x := x.(type) {
	case pPtr:
		if x.obj == nil {
			panic(pwPanic{"nil dereference", w.p.PosOf(ins)})
		}
		v := x.obj.v
		for _, j := range x.path {
			v = v.(*pAgg).f[j]
		}
		n := int64(len(v.(*pAgg).f))
		lo, hi := end(ins.Low, 0), end(ins.High, n)
		mx := end(ins.Max, n)
		if lo < 0 || hi < lo || mx < hi || mx > n {
			panic(pwPanic{"slice bounds out of range", w.p.PosOf(ins)})
		}
		return pSlice{arr: x, off: lo, ln: pk(hi - lo), cp: mx - lo}
	case pSlice:
		if x.text {
			if ins.Low == nil && ins.High == nil && ins.Max == nil {
				return x
			}
			w.fail(ins, "a part of the text is taken")
		}
		n, ok := x.ln.cst()
		if !ok {
			w.cutMid(ins)
		}
		lo, hi := end(ins.Low, 0), end(ins.High, n)
		mx := end(ins.Max, x.cp)
		if lo < 0 || hi < lo || mx < hi || mx > x.cp {
			panic(pwPanic{"slice bounds out of range", w.p.PosOf(ins)})
		}
		return pSlice{arr: x.arr, off: x.off + lo, ln: pk(hi - lo), cp: mx - lo}
	case pStr:
		lo, hi := end(ins.Low, 0), end(ins.High, int64(len(x.s)))
		if lo < 0 || hi < lo || hi > int64(len(x.s)) {
			panic(pwPanic{"slice bounds out of range", w.p.PosOf(ins)})
		}
		return pStr{x.s[lo:hi]}
	}
	w.fail(ins, "slicing %T is not supported", x)
	return nil
}

func (w *pw) binop(ins *ssa.BinOp, x, y pv) pv {
	cmp := false
	switch ins.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		cmp = true
	}
	same := func(b bool) pBool {
		if b == (ins.Op == token.EQL) {
			return pBool{t: 1}
		}
		return pBool{t: -1}
	}
	switch a := x.(type) {
	case pInt:
		b, ok := y.(pInt)
		if !ok {
			break
		}
		if cmp {
			return w.compare(ins.Op, a, b, ins)
		}
		return w.intOp(ins.Op, a, b, ins.Type(), ins)
	case pBool:
		b, ok := y.(pBool)
		if ok && cmp && a.t != 0 && b.t != 0 {
			return same(a.t == b.t)
		}
	case pStr:
		b, ok := y.(pStr)
		if ok {
			if cmp {
				switch ins.Op {
				case token.LSS:
					return same(a.s < b.s == (ins.Op == token.EQL))
				case token.EQL, token.NEQ:
					return same(a.s == b.s)
				}
			} else if ins.Op == token.ADD {
				return pStr{a.s + b.s}
			}
		}
	case pPtr:
		b, ok := y.(pPtr)
		if ok && cmp {
			return same(a.obj == b.obj && fmt.Sprint(a.path) == fmt.Sprint(b.path))
		}
	case pFn:
		if b, ok := y.(pFn); ok && cmp {
			null := func(f pFn) bool { return f.fn == nil && f.nat == "" }
			if null(a) || null(b) {
				return same(null(a) && null(b))
			}
		}
	case pSlice:
		if b, ok := y.(pSlice); ok && cmp {
			if a.text || b.text {
				return pBool{on: "nil", op: ins.Op}
			}
			return same(a.arr.obj == b.arr.obj)
		}
	case pIface:
		if b, ok := y.(pIface); ok && cmp && (a.t == nil || b.t == nil) {
			return same(a.t == nil && b.t == nil)
		}
	}
	w.fail(ins, "%s on %T and %T is not supported", ins.Op, x, y)
	return nil
}

func (w *pw) convert(ins *ssa.Convert, x pv) pv {
	return w.convertTo(ins.X.Type(), ins.Type(), x, ins)
}

func (w *pw) convertTo(from, to types.Type, x pv, ins ssa.Instruction) pv {
	switch x := x.(type) {
	case pInt:
		if _, _, ok := pwRange(to); ok {
			return w.wrap(x, to, ins)
		}
	case pText:
		if isRuneSlice(to) {
			return pSlice{text: true, ln: pInt{sym: "len"}}
		}
	case pStr:
		if isRuneSlice(to) {
			a := &pAgg{}
			for _, r := range x.s {
				a.f = append(a.f, pk(int64(r)))
			}
			return pSlice{arr: pPtr{obj: w.obj(a, "runes")}, ln: pk(int64(len(a.f))), cp: int64(len(a.f))}
		}
	case pSlice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && x.text {
			return pText{}
		}
	}
	w.fail(ins, "conversion from %s to %s is not supported", from, to)
	return nil
}

func (w *pw) callIns(fr *pwFrame, ins *ssa.Call) pv {
	c := ins.Common()
	var args []pv
	for _, a := range c.Args {
		args = append(args, w.val(fr, a, ins))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return w.builtin(b.Name(), args, ins)
	}
	if c.IsInvoke() {
		i, ok := w.val(fr, c.Value, ins).(pIface)
		if !ok || i.t == nil {
			panic(pwPanic{"nil dereference", w.p.PosOf(ins)})
		}
		f := w.p.SSA.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			w.fail(ins, "method %s is not known", c.Method.Name())
		}
		return w.apply(pFn{fn: f}, append([]pv{i.v}, args...), ins)
	}
	fn, ok := w.val(fr, c.Value, ins).(pFn)
	if !ok {
		w.fail(ins, "a function that is not known is called")
	}
	return w.apply(fn, args, ins)
}

func (w *pw) builtin(name string, args []pv, ins ssa.Instruction) pv {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case pSlice:
			if name == "cap" && !a.text {
				return pk(a.cp)
			}
			if name == "len" {
				return a.ln
			}
		case pStr:
			return pk(int64(len(a.s)))
		case pText:
			return pInt{sym: "len"}
		case *pAgg:
			return pk(int64(len(a.f)))
		}
	case "min", "max":
		r := args[0].(pInt)
		for _, a := range args[1:] {
			b := a.(pInt)
			op := token.LEQ
			if name == "max" {
				op = token.GEQ
			}
			c := w.compare(op, r, b, ins)
			switch {
			case c.cuts:
				panic(pwCut{c.cut})
			case c.t == 0:
				w.cutMid(ins)
			case c.t < 0:
				r = b
			}
		}
		return r
	case "append":
		a, ok1 := args[0].(pSlice)
		b, ok2 := args[1].(pSlice)
		if !ok1 || !ok2 || a.text || b.text {
			break
		}
		na, k1 := a.ln.cst()
		nb, k2 := b.ln.cst()
		if !k1 || !k2 {
			break
		}
		elems := func(s pSlice, n int64) []pv {
			if s.arr.obj == nil {
				return nil
			}
			v := s.arr.obj.v
			for _, j := range s.arr.path {
				v = v.(*pAgg).f[j]
			}
			return v.(*pAgg).f[s.off : s.off+n]
		}
		if na+nb <= a.cp && a.arr.obj != nil {
			for i, v := range append([]pv(nil), elems(b, nb)...) {
				w.store(a.arr.at(int(a.off+na)+i), v, ins)
			}
			a.ln = pk(na + nb)
			return a
		}
		if nb == 0 {
			return a
		}
		c := na + nb
		if c < 2*na {
			c = 2 * na
		}
		n := &pAgg{f: make([]pv, c)}
		for i, v := range elems(a, na) {
			n.f[i] = pcopy(v)
		}
		for i, v := range elems(b, nb) {
			n.f[int(na)+i] = pcopy(v)
		}
		z := w.zero(ins.(*ssa.Call).Type().Underlying().(*types.Slice).Elem())
		for i := na + nb; i < c; i++ {
			n.f[i] = pcopy(z)
		}
		return pSlice{arr: pPtr{obj: w.obj(n, "append")}, ln: pk(na + nb), cp: c}
	case "print", "println":
		return nil
	}
	w.fail(ins, "builtin %s is not supported here", name)
	return nil
}

// reached lists the functions evaluated.
func (w *pw) reached() []string {
	var fs []string
	for f := range w.funcs {
		fs = append(fs, strings.TrimPrefix(f, modPath+"/"))
	}
	sort.Strings(fs)
	return fs
}

// mapSet stores v in m. When it is done for an R, later evaluations may find it.
func (w *pw) mapSet(m *pMap, key, v pv, ins ssa.Instruction) {
	k, ok := key.(pInt)
	if m == nil {
		panic(pwPanic{"assignment to an entry of a nil map", w.p.PosOf(ins)})
	}
	if !ok || k.sym != "" || w.loop != nil && !w.hasR {
		w.fail(ins, "the key of a map is not known")
	}
	if !w.hasR {
		if k.lo != k.hi {
			w.fail(ins, "the key of a map is not known")
		}
		m.ent[k.lo] = v
		return
	}
	w.pure, w.memos = false, true
	if k.k != 1 || k.c != 0 || !pwExact(v) {
		if k.lo != k.hi && k.k != 1 || k.lo == k.hi && w.rlo != w.rhi {
			w.fail(ins, "a map is changed at a key which is not the rune")
		}
		if !pwExact(v) {
			w.cutMid(ins)
		}
		if k.lo != w.rlo {
			w.fail(ins, "a map is changed at a key which is not the rune")
		}
	}
	lo, hi := k.lo, k.hi
	for _, p := range m.dyn {
		if p.lo <= hi && p.hi >= lo && !pwEqual(p.v, v) {
			w.fail(ins, "what is stored in a map under a rune (from %d to %d) is not always the same", max(lo, p.lo), min(hi, p.hi))
		}
	}
	i := sort.Search(len(m.dyn), func(i int) bool { return m.dyn[i].hi >= lo })
	if i < len(m.dyn) && m.dyn[i].lo <= lo && m.dyn[i].hi >= hi {
		return
	}
	j := i
	for j < len(m.dyn) && m.dyn[j].lo <= hi {
		lo, hi = min(lo, m.dyn[j].lo), max(hi, m.dyn[j].hi)
		j++
	}
	m.dyn = append(m.dyn[:i:i], append([]pwPiece{{lo, hi, v}}, m.dyn[j:]...)...)
}

// mapGet is what m holds under key.
func (w *pw) mapGet(m *pMap, key pv, ins ssa.Instruction) (pv, bool) {
	k, ok := key.(pInt)
	if !ok || k.sym != "" {
		w.fail(ins, "the key of a map is not known")
	}
	if m == nil {
		return nil, false
	}
	if w.reads != nil {
		w.pure = false
	}
	at := func(n int64) (pv, bool) {
		if v, ok := m.ent[n]; ok {
			return v, true
		}
		return nil, false
	}
	if k.lo == k.hi {
		if v, ok := at(k.lo); ok {
			return v, true
		}
	} else {
		for n := range m.ent {
			if k.lo <= n && n <= k.hi {
				w.cutMid(ins)
			}
		}
	}
	if !w.hit {
		return nil, false
	}
	for _, p := range m.dyn {
		if p.lo <= k.hi && p.hi >= k.lo {
			if p.lo <= k.lo && k.hi <= p.hi {
				return p.v, true
			}
			w.cutMid(ins)
		}
	}
	return nil, false
}

// memoised evaluates f for R in [lo,hi], and again with what the maps were
// left with, when there are any.
func (w *pw) memoised(lo, hi int64, f func() pv) ([]pwPiece, any) {
	w.memos = false
	ps, stop := w.pieces(lo, hi, f)
	if stop != nil || !w.memos {
		return ps, stop
	}
	w.hit = true
	qs, stop := w.pieces(lo, hi, f)
	w.hit = false
	if stop != nil {
		return qs, stop
	}
	for i, j := 0, 0; i < len(ps) && j < len(qs); {
		if !pwEqual(ps[i].v, qs[j].v) {
			return ps, pwFail{fmt.Sprintf("what is kept in a map changes the result, for values from %d to %d", max(ps[i].lo, qs[j].lo), min(ps[i].hi, qs[j].hi)), "-"}
		}
		if ps[i].hi < qs[j].hi {
			i++
		} else {
			j++
		}
	}
	return ps, nil
}
