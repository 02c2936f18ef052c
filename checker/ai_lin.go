package main

// Linear expressions over symbols, conjunctions of linear constraints, and
// their entailment: the numerical domain of the abstract interpreter
// (constraint-only polyhedra over the integers).

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Sym int32

type term struct {
	s Sym
	k int64
}

// Lin is c + Σ k·s, terms sorted by symbol, no zero coefficient.
type Lin struct {
	c int64
	t []term
}

type linOverflow struct{}

func mulOK(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	hi, lo := bits.Mul64(uint64(absI(a)), uint64(absI(b)))
	if hi != 0 || lo > 1<<62 {
		panic(linOverflow{})
	}
	return a * b
}

func addOK(a, b int64) int64 {
	s := a + b
	if (s > a) == (b > 0) || b == 0 {
		if s > -(1<<63 - 1) {
			return s
		}
	}
	panic(linOverflow{})
}

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func K(c int64) Lin            { return Lin{c: c} }
func S(s Sym) Lin              { return Lin{t: []term{{s, 1}}} }
func (a Lin) isConst() bool    { return len(a.t) == 0 }
func (a Lin) Neg() Lin         { return a.Mul(-1) }
func (a Lin) Sub(b Lin) Lin    { return a.Add(b.Neg()) }
func (a Lin) AddK(c int64) Lin { return Lin{c: addOK(a.c, c), t: a.t} }

func (a Lin) Mul(k int64) Lin {
	if k == 0 {
		return Lin{}
	}
	if k == 1 {
		return a
	}
	r := Lin{c: mulOK(a.c, k)}
	if len(a.t) > 0 {
		r.t = make([]term, len(a.t))
		for i, t := range a.t {
			r.t[i] = term{t.s, mulOK(t.k, k)}
		}
	}
	return r
}

func (a Lin) Add(b Lin) Lin {
	if len(b.t) == 0 {
		return a.AddK(b.c)
	}
	if len(a.t) == 0 {
		return b.AddK(a.c)
	}
	r := Lin{c: addOK(a.c, b.c), t: make([]term, 0, len(a.t)+len(b.t))}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].s < b.t[j].s:
			r.t = append(r.t, a.t[i])
			i++
		case i >= len(a.t) || b.t[j].s < a.t[i].s:
			r.t = append(r.t, b.t[j])
			j++
		default:
			if k := addOK(a.t[i].k, b.t[j].k); k != 0 {
				r.t = append(r.t, term{a.t[i].s, k})
			}
			i++
			j++
		}
	}
	return r
}

func (a Lin) eq(b Lin) bool {
	if a.c != b.c || len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		if a.t[i] != b.t[i] {
			return false
		}
	}
	return true
}

// single reports whether a is exactly one symbol.
func (a Lin) single() (Sym, bool) {
	if a.c == 0 && len(a.t) == 1 && a.t[0].k == 1 {
		return a.t[0].s, true
	}
	return 0, false
}

func (a Lin) coef(s Sym) int64 {
	for _, t := range a.t {
		if t.s == s {
			return t.k
		}
	}
	return 0
}

func (a Lin) subst(s Sym, e Lin) Lin {
	k := a.coef(s)
	if k == 0 {
		return a
	}
	r := Lin{c: a.c}
	for _, t := range a.t {
		if t.s != s {
			r.t = append(r.t, t)
		}
	}
	return r.Add(e.Mul(k))
}

func (a Lin) key() string {
	var b strings.Builder
	for _, t := range a.t {
		fmt.Fprintf(&b, "%+d*s%d", t.k, t.s)
	}
	fmt.Fprintf(&b, "%+d", a.c)
	return b.String()
}

func gcd(a, b int64) int64 {
	a, b = absI(a), absI(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides a >= 0 by the gcd of its coefficients, rounding the constant down.
func (a Lin) tighten() Lin {
	var g int64
	for _, t := range a.t {
		g = gcd(g, t.k)
	}
	if g <= 1 {
		return a
	}
	r := Lin{c: floorDiv(a.c, g), t: make([]term, len(a.t))}
	for i, t := range a.t {
		r.t[i] = term{t.s, t.k / g}
	}
	return r
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

const (
	negInf = -(1 << 62)
	posInf = 1 << 62
)

type ivl struct{ lo, hi int64 }

// Sys is a conjunction of constraints lin >= 0, with bounds of single symbols
// kept apart, solved equalities, and disequalities.
type Sys struct {
	bnd    map[Sym]ivl
	eqs    map[Sym]Lin // s = lin, fully substituted
	cons   []Lin       // lin >= 0
	neqs   []Lin       // lin != 0
	keys   map[string]bool
	smp    map[Sym]int64 // a point that satisfies the constraints, or nil
	bad    bool
	shared bool
}

func newSys() *Sys {
	return &Sys{bnd: map[Sym]ivl{}, eqs: map[Sym]Lin{}, keys: map[string]bool{}}
}

func (y *Sys) clone() *Sys {
	n := &Sys{bnd: make(map[Sym]ivl, len(y.bnd)), eqs: make(map[Sym]Lin, len(y.eqs)), keys: make(map[string]bool, len(y.keys)), smp: y.smp, bad: y.bad}
	for k, v := range y.bnd {
		n.bnd[k] = v
	}
	for k, v := range y.eqs {
		n.eqs[k] = v
	}
	for k := range y.keys {
		n.keys[k] = true
	}
	n.cons = append(n.cons, y.cons...)
	n.neqs = append(n.neqs, y.neqs...)
	return n
}

// norm applies the solved equalities.
func (y *Sys) norm(a Lin) Lin {
	if len(y.eqs) == 0 || len(a.t) == 0 {
		return a
	}
	hit := false
	for _, t := range a.t {
		if _, ok := y.eqs[t.s]; ok {
			hit = true
			break
		}
	}
	if !hit {
		return a
	}
	r := K(a.c)
	for _, t := range a.t {
		if e, ok := y.eqs[t.s]; ok {
			r = r.Add(e.Mul(t.k))
		} else {
			r = r.Add(Lin{t: []term{t}})
		}
	}
	return r
}

func (y *Sys) bound(s Sym) ivl {
	if b, ok := y.bnd[s]; ok {
		return b
	}
	return ivl{negInf, posInf}
}

func satMul(a, k int64) int64 {
	if a <= negInf || a >= posInf {
		if k == 0 {
			return 0
		}
		if (a < 0) == (k > 0) {
			return negInf
		}
		return posInf
	}
	hi, lo := bits.Mul64(uint64(absI(a)), uint64(absI(k)))
	if hi != 0 || lo >= posInf {
		if (a < 0) == (k < 0) {
			return posInf
		}
		return negInf
	}
	return a * k
}

func satAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	s := a + b
	if s <= negInf {
		return negInf
	}
	if s >= posInf {
		return posInf
	}
	return s
}

// ival is the interval of a (normalised) by the bounds of its symbols.
// Infinite lower and upper ends are negInf and posInf.
func (y *Sys) ival(a Lin) ivl {
	r := ivl{a.c, a.c}
	if a.c <= negInf {
		r.lo = negInf
	}
	if a.c >= posInf {
		r.hi = posInf
	}
	for _, t := range a.t {
		b := y.bound(t.s)
		if t.k > 0 {
			if b.lo <= negInf {
				r.lo = negInf
			} else {
				r.lo = satAdd(r.lo, satMul(b.lo, t.k))
			}
			if b.hi >= posInf {
				r.hi = posInf
			} else {
				r.hi = satAdd(r.hi, satMul(b.hi, t.k))
			}
		} else {
			if b.hi >= posInf {
				r.lo = negInf
			} else {
				r.lo = satAdd(r.lo, satMul(b.hi, t.k))
			}
			if b.lo <= negInf {
				r.hi = posInf
			} else {
				r.hi = satAdd(r.hi, satMul(b.lo, t.k))
			}
		}
	}
	return r
}

func (y *Sys) evalAt(a Lin, p map[Sym]int64) int64 {
	v := a.c
	for _, t := range a.t {
		x, ok := p[t.s]
		if !ok {
			b := y.bound(t.s)
			switch {
			case b.lo > negInf:
				x = b.lo
			case b.hi < posInf:
				x = b.hi
			}
		}
		v += x * t.k
	}
	return v
}

// setBound narrows the bounds of s.
func (y *Sys) setBound(s Sym, lo, hi int64) {
	b := y.bound(s)
	ch := false
	if lo > b.lo {
		b.lo = lo
		ch = true
	}
	if hi < b.hi {
		b.hi = hi
		ch = true
	}
	if ch {
		y.bnd[s] = b
		if b.lo > b.hi {
			y.bad = true
		}
		if y.smp != nil {
			v := y.evalAt(S(s), y.smp)
			if v < b.lo || v > b.hi {
				y.smp = nil
			}
		}
	}
}

// addGE adds a >= 0. It returns false when that makes the system plainly infeasible.
func (y *Sys) addGE(a Lin) bool {
	if y.bad {
		return false
	}
	a = y.norm(a).tighten()
	if a.isConst() {
		if a.c < 0 {
			y.bad = true
		}
		return !y.bad
	}
	if len(a.t) == 1 {
		t := a.t[0]
		if t.k > 0 { // k s + c >= 0
			y.setBound(t.s, -floorDiv(a.c, t.k), posInf)
		} else {
			y.setBound(t.s, negInf, floorDiv(a.c, -t.k))
		}
		if b := y.bound(t.s); !y.bad && b.lo == b.hi {
			y.substAll(t.s, K(b.lo))
		}
		return !y.bad
	}
	if y.ival(a).lo >= 0 {
		return true
	}
	k := a.key()
	if y.keys[k] {
		return true
	}
	if n := a.Neg(); y.keys[n.key()] && a.hasUnit() {
		return y.addEQ(a)
	}
	y.keys[k] = true
	y.cons = append(y.cons, a)
	if y.smp != nil && y.evalAt(a, y.smp) < 0 {
		y.smp = nil
	}
	return true
}

// hasUnit tells that a can be solved for a symbol.
func (a Lin) hasUnit() bool {
	for _, t := range a.t {
		if t.k == 1 || t.k == -1 {
			return true
		}
	}
	return false
}

// addEQ adds a == 0.
func (y *Sys) addEQ(a Lin) bool {
	if y.bad {
		return false
	}
	a = y.norm(a)
	if a.isConst() {
		if a.c != 0 {
			y.bad = true
		}
		return !y.bad
	}
	var g int64
	for _, t := range a.t {
		g = gcd(g, t.k)
	}
	if g > 1 {
		if a.c%g != 0 {
			y.bad = true
			return false
		}
		b := Lin{c: a.c / g}
		for _, t := range a.t {
			b.t = append(b.t, term{t.s, t.k / g})
		}
		a = b
	}
	// solve for a symbol with a unit coefficient (the youngest)
	best := -1
	for i, t := range a.t {
		if t.k == 1 || t.k == -1 {
			best = i
		}
	}
	if best < 0 {
		return y.addGE(a) && y.addGE(a.Neg())
	}
	s, k := a.t[best].s, a.t[best].k
	rest := Lin{c: a.c}
	for i, t := range a.t {
		if i != best {
			rest.t = append(rest.t, t)
		}
	}
	y.substAll(s, rest.Mul(-k))
	return !y.bad
}

func (y *Sys) substAll(s Sym, e Lin) {
	b := y.bound(s)
	for x, l := range y.eqs {
		if l.coef(s) != 0 {
			y.eqs[x] = l.subst(s, e)
		}
	}
	y.eqs[s] = e
	cons, neqs := y.cons, y.neqs
	var redo []Lin
	y.cons = nil
	for _, c := range cons {
		if c.coef(s) != 0 {
			delete(y.keys, c.key())
			redo = append(redo, c)
		} else {
			y.cons = append(y.cons, c)
		}
	}
	y.neqs = nil
	if y.smp != nil && y.evalAt(S(s), y.smp) != y.evalAt(e, y.smp) {
		y.smp = nil
	}
	if b.lo > negInf {
		y.addGE(e.AddK(-b.lo))
	}
	if b.hi < posInf {
		y.addGE(K(b.hi).Sub(e))
	}
	for _, c := range redo {
		y.addGE(c)
	}
	for _, c := range neqs {
		y.addNE(c)
	}
}

// addNE adds a != 0.
func (y *Sys) addNE(a Lin) bool {
	if y.bad {
		return false
	}
	a = y.norm(a)
	if a.isConst() {
		if a.c == 0 {
			y.bad = true
		}
		return !y.bad
	}
	iv := y.ival(a)
	if iv.lo > 0 || iv.hi < 0 {
		return true
	}
	if iv.lo == 0 {
		return y.addGE(a.AddK(-1))
	}
	if iv.hi == 0 {
		return y.addGE(a.Neg().AddK(-1))
	}
	if len(a.t) > 1 {
		if y.entails(a) {
			return y.addGE(a.AddK(-1))
		}
		if y.entails(a.Neg()) {
			return y.addGE(a.Neg().AddK(-1))
		}
	}
	for _, n := range y.neqs {
		if n.eq(a) || n.eq(a.Neg()) {
			return true
		}
	}
	y.neqs = append(y.neqs, a)
	return true
}

// entails decides whether a >= 0 follows.
func (y *Sys) entails(a Lin) (ok bool) {
	if y.bad {
		return true
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok = false
		}
	}()
	a = y.norm(a)
	if a.isConst() {
		return a.c >= 0
	}
	iv := y.ival(a)
	if iv.lo >= 0 {
		return true
	}
	if iv.hi < 0 || len(y.cons) == 0 {
		return false
	}
	if y.smp != nil && y.evalAt(a, y.smp) < 0 {
		return false
	}
	return !y.feasibleWith(a.Neg().AddK(-1))
}

func (y *Sys) entailsEQ(a Lin) bool {
	a = y.norm(a)
	if a.isConst() {
		return a.c == 0
	}
	if y.smp != nil && y.evalAt(a, y.smp) != 0 {
		return false
	}
	return y.entails(a) && y.entails(a.Neg())
}

func (y *Sys) entailsNE(a Lin) bool {
	a = y.norm(a)
	if a.isConst() {
		return a.c != 0
	}
	iv := y.ival(a)
	if iv.lo > 0 || iv.hi < 0 {
		return true
	}
	for _, n := range y.neqs {
		if n.eq(a) || n.eq(a.Neg()) {
			return true
		}
	}
	if y.smp != nil && y.evalAt(a, y.smp) == 0 {
		// may still be excluded by a disequality
	}
	if y.entails(a.AddK(-1)) || y.entails(a.Neg().AddK(-1)) {
		return true
	}
	for _, n := range y.neqs {
		if y.entailsEQ(n.Sub(a)) || y.entailsEQ(n.Add(a)) {
			return true
		}
	}
	return false
}

// feasible checks the consistency of the whole system (over the rationals),
// including its disequalities.
func (y *Sys) feasible() bool {
	if y.bad {
		return false
	}
	for s, b := range y.bnd {
		if b.lo > b.hi {
			_ = s
			y.bad = true
			return false
		}
	}
	if y.smp == nil && len(y.cons) > 0 {
		if !y.feasibleWith(K(0)) {
			y.bad = true
			return false
		}
	}
	for _, n := range y.neqs {
		iv := y.ival(n)
		if iv.lo > 0 || iv.hi < 0 {
			continue
		}
		if iv.lo == 0 && iv.hi == 0 || len(y.cons) > 0 && y.entails(n) && y.entails(n.Neg()) {
			y.bad = true
			return false
		}
	}
	return true
}

// feasibleWith decides (over the rationals) the consistency of the constraints
// connected to extra, with extra >= 0. On success for the whole system, it
// records a sample point when that point is integral.
func (y *Sys) feasibleWith(extra Lin) bool {
	// cone of influence
	var rows []Lin
	whole := extra.isConst()
	if whole {
		if extra.c < 0 {
			return false
		}
		rows = y.cons
	} else {
		in := map[Sym]bool{}
		for _, t := range extra.t {
			in[t.s] = true
		}
		used := make([]bool, len(y.cons))
		for ch := true; ch; {
			ch = false
			for i, c := range y.cons {
				if used[i] {
					continue
				}
				hit := false
				for _, t := range c.t {
					if in[t.s] {
						hit = true
						break
					}
				}
				if hit {
					used[i] = true
					ch = true
					for _, t := range c.t {
						in[t.s] = true
					}
					rows = append(rows, c)
				}
			}
		}
		rows = append(rows, extra)
	}
	ok, pt := simplexFeasible(rows, y.bound)
	if ok && whole && pt != nil {
		good := true
		for _, c := range y.cons {
			if y.evalAt(c, pt) < 0 {
				good = false
			}
		}
		if good {
			y.smp = pt
		}
	}
	return ok
}

type rat struct{ n, d int64 }

func rnorm(n, d int64) rat {
	if n == 0 {
		return rat{0, 1}
	}
	g := gcd(n, d)
	if d < 0 {
		g = -g
	}
	return rat{n / g, d / g}
}
func rint(a int64) rat { return rat{a, 1} }
func (a rat) add(b rat) rat {
	if a.d == 1 && b.d == 1 {
		return rat{addOK(a.n, b.n), 1}
	}
	return rnorm(addOK(mulOK(a.n, b.d), mulOK(b.n, a.d)), mulOK(a.d, b.d))
}
func (a rat) mul(b rat) rat {
	if a.n == 0 || b.n == 0 {
		return rat{0, 1}
	}
	if a.d == 1 && b.d == 1 {
		return rat{mulOK(a.n, b.n), 1}
	}
	g1, g2 := gcd(a.n, b.d), gcd(b.n, a.d)
	return rat{mulOK(a.n/g1, b.n/g2), mulOK(a.d/g2, b.d/g1)}
}
func (a rat) neg() rat { return rat{-a.n, a.d} }
func (a rat) inv() rat {
	if a.n < 0 {
		return rat{-a.d, -a.n}
	}
	return rat{a.d, a.n}
}
func (a rat) sub(b rat) rat { return a.add(b.neg()) }
func (a rat) less(b rat) bool {
	return a.sub(b).n < 0
}

// simplexFeasible is the general simplex (bounded variables, Bland's rule).
// Any arithmetic overflow yields "feasible" (nothing is then concluded).
func simplexFeasible(rows []Lin, bound func(Sym) ivl) (ok bool, pt map[Sym]int64) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(linOverflow); !is {
				panic(e)
			}
			ok, pt = true, nil
		}
	}()
	idx := map[Sym]int{}
	var syms []Sym
	for _, r := range rows {
		for _, t := range r.t {
			if _, has := idx[t.s]; !has {
				idx[t.s] = len(syms)
				syms = append(syms, t.s)
			}
		}
	}
	n, m := len(syms), len(rows)
	// variables 0..n-1 symbols, n..n+m-1 slacks (row value without constant) >= -c
	type vb struct {
		lo, hi       rat
		hasLo, hasHi bool
	}
	b := make([]vb, n+m)
	val := make([]rat, n+m)
	for i, s := range syms {
		iv := bound(s)
		if iv.lo > negInf {
			b[i].hasLo, b[i].lo = true, rint(iv.lo)
		}
		if iv.hi < posInf {
			b[i].hasHi, b[i].hi = true, rint(iv.hi)
		}
		switch {
		case b[i].hasLo:
			val[i] = b[i].lo
		case b[i].hasHi:
			val[i] = b[i].hi
		default:
			val[i] = rint(0)
		}
	}
	tab := make([][]rat, m) // basic var of row i = Σ tab[i][j] * nonbasic j
	basic := make([]int, m)
	nonb := make([]int, n)
	for j := range nonb {
		nonb[j] = j
	}
	for i, r := range rows {
		tab[i] = make([]rat, n)
		for j := range tab[i] {
			tab[i][j] = rint(0)
		}
		v := rint(0)
		for _, t := range r.t {
			tab[i][idx[t.s]] = rint(t.k)
			v = v.add(rint(t.k).mul(val[idx[t.s]]))
		}
		basic[i] = n + i
		val[n+i] = v
		b[n+i].hasLo, b[n+i].lo = true, rint(-r.c)
	}
	for iter := 0; iter < 2000; iter++ {
		// smallest basic variable out of bounds
		row := -1
		for i, v := range basic {
			if b[v].hasLo && val[v].less(b[v].lo) || b[v].hasHi && b[v].hi.less(val[v]) {
				if row < 0 || v < basic[row] {
					row = i
				}
			}
		}
		if row < 0 {
			pt = map[Sym]int64{}
			for i, s := range syms {
				if val[i].d != 1 {
					return true, nil
				}
				pt[s] = val[i].n
			}
			return true, pt
		}
		v := basic[row]
		up := b[v].hasLo && val[v].less(b[v].lo)
		target := b[v].hi
		if up {
			target = b[v].lo
		}
		col := -1
		for j, x := range nonb {
			k := tab[row][j]
			if k.n == 0 {
				continue
			}
			inc := (k.n > 0) == up // x must increase
			can := inc && (!b[x].hasHi || val[x].less(b[x].hi)) || !inc && (!b[x].hasLo || b[x].lo.less(val[x]))
			if can && (col < 0 || x < nonb[col]) {
				col = j
			}
		}
		if col < 0 {
			return false, nil
		}
		// pivot
		x := nonb[col]
		k := tab[row][col]
		theta := target.sub(val[v]).mul(k.inv())
		val[v] = target
		val[x] = val[x].add(theta)
		for i := range basic {
			if i != row && tab[i][col].n != 0 {
				val[basic[i]] = val[basic[i]].add(tab[i][col].mul(theta))
			}
		}
		inv := k.inv()
		for j := range tab[row] {
			if j == col {
				tab[row][j] = inv
			} else {
				tab[row][j] = tab[row][j].mul(inv).neg()
			}
		}
		for i := range tab {
			if i == row || tab[i][col].n == 0 {
				continue
			}
			f := tab[i][col]
			for j := range tab[i] {
				if j == col {
					tab[i][j] = f.mul(inv)
				} else if tab[row][j].n != 0 {
					tab[i][j] = tab[i][j].add(f.mul(tab[row][j]))
				}
			}
		}
		basic[row], nonb[col] = x, v
	}
	return true, nil
}

func (y *Sys) String() string {
	var out []string
	for s, b := range y.bnd {
		out = append(out, fmt.Sprintf("s%d∈[%d,%d]", s, b.lo, b.hi))
	}
	for s, e := range y.eqs {
		out = append(out, fmt.Sprintf("s%d=%s", s, e.key()))
	}
	for _, c := range y.cons {
		out = append(out, c.key()+">=0")
	}
	for _, c := range y.neqs {
		out = append(out, c.key()+"!=0")
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// newer tells whether l mentions a symbol more recent than y.
func (l Lin) newer(y Sym) bool {
	for _, t := range l.t {
		if t.s > y {
			return true
		}
	}
	return false
}
