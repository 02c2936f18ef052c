package main

// C12, C13: widths.

import (
	"bufio"
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "other", "piecewise constant evaluation over SSA: the range of runes is partitioned at the comparisons met, each part is evaluated with intervals and constants, and compared with frozen Unicode 15.0 classes", checkC12)
	register("C13", "other", "piecewise constant evaluation over SSA of one generic iteration of the summation (counter and sum symbolic): what it adds is compared with Width, rune range by rune range", checkC13)
}

// dataDir is where the reference data are.
var dataDir = "data"

// widthClasses reads the reference classes of code points.
func widthClasses() (map[string][][2]int64, error) {
	f, err := os.Open(filepath.Join(dataDir, "width15.txt"))
	if err != nil {
		return nil, err
	}
	defer f.Close()
	cls := map[string][][2]int64{}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) != 3 || w[0] == "#" {
			continue
		}
		a, err1 := strconv.ParseInt(w[1], 16, 64)
		b, err2 := strconv.ParseInt(w[2], 16, 64)
		if err1 != nil || err2 != nil {
			return nil, fmt.Errorf("bad line %q", sc.Text())
		}
		cls[w[0]] = append(cls[w[0]], [2]int64{a, b})
	}
	for _, c := range []string{"nonprint", "combining", "narrow", "wide", "ambiguous", "emoji"} {
		if len(cls[c]) == 0 {
			return nil, fmt.Errorf("no class %q", c)
		}
	}
	return cls, sc.Err()
}

type pwOption struct {
	name string
	arg  pv
}

type pwOptions []pwOption

func (l pwOptions) String() string {
	if len(l) == 0 {
		return "no option"
	}
	var s []string
	for _, o := range l {
		a := "?"
		switch v := o.arg.(type) {
		case pBool:
			a = fmt.Sprint(v.t > 0)
		case pInt:
			a = v.sym
		}
		s = append(s, o.name+"("+a+")")
	}
	return strings.Join(s, ", ")
}

const (
	optEA, optSkip, optAmb = "WithEastAsian", "WithSkipStrictEmojiNeutral", "WithEastAsianAmbiguousWidth"
)

// widthOptions lists sequences of options: none, every option, every pair, and
// the three of them in every order.
func widthOptions() []pwOptions {
	yes, no := pBool{t: 1}, pBool{t: -1}
	one := pwOptions{{optEA, yes}, {optEA, no}, {optSkip, yes}, {optSkip, no}, {optAmb, pInt{sym: "w"}}}
	ls := []pwOptions{nil}
	for _, a := range one {
		ls = append(ls, pwOptions{a})
		for _, b := range one {
			if b.name == optAmb {
				b.arg = pInt{sym: "v"}
			}
			ls = append(ls, pwOptions{a, b})
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			if i != j {
				three := pwOptions{{optEA, yes}, {optSkip, yes}, {optAmb, pInt{sym: "w"}}}
				ls = append(ls, pwOptions{three[i], three[j], three[3-i-j]})
			}
		}
	}
	return ls
}

// settings are the options that a sequence of options amounts to.
func (l pwOptions) settings() (ea, skip bool, amb pInt) {
	amb = pk(2)
	for _, o := range l {
		switch o.name {
		case optEA:
			ea = o.arg.(pBool).t > 0
		case optSkip:
			skip = o.arg.(pBool).t > 0
		case optAmb:
			amb = o.arg.(pInt)
		}
	}
	return
}

type widthEval struct {
	w        *pw
	r        *Report
	with     map[string]*ssa.Function
	width    *ssa.Function
	widths   *ssa.Function
	strWidth *ssa.Function
	ok       bool
}

func newWidthEval(p *Program, r *Report) *widthEval {
	e := &widthEval{w: newPW(p), r: r, with: map[string]*ssa.Function{}}
	get := func(name string) *ssa.Function {
		f, err := p.Func(runesPkg, name)
		if err != nil {
			r.Fail("undecided", name, "-", err.Error())
		}
		return f
	}
	e.width, e.widths, e.strWidth = get("Width"), get("Widths"), get("StringWidth")
	for _, n := range []string{optEA, optSkip, optAmb} {
		e.with[n] = get(n)
	}
	if e.width == nil || e.widths == nil || e.strWidth == nil || e.with[optEA] == nil || e.with[optSkip] == nil || e.with[optAmb] == nil {
		return e
	}
	_, stop := e.w.attempt(func() pv {
		e.w.initPkg(p.SSAPkgs[runesPkg])
		return nil
	})
	e.ok = e.stopped(stop, e.width, "the initialisation of the package")
	e.w.now = e.w.clock
	return e
}

// stopped reports why an evaluation was stopped, if it was.
func (e *widthEval) stopped(stop any, f *ssa.Function, what string) bool {
	switch s := stop.(type) {
	case nil:
		return true
	case pwPanic:
		e.r.Fail("panic", shortFn(f), s.pos, what+": "+s.msg)
	case pwFail:
		e.r.Fail("undecided", shortFn(f), s.pos, what+": "+s.msg)
	default:
		e.r.Fail("undecided", shortFn(f), "-", what+" is not determined")
	}
	return false
}

// options is the slice of options of a list.
func (e *widthEval) options(f *ssa.Function, l pwOptions) pv {
	w := e.w
	if len(l) == 0 {
		return pSlice{ln: pk(0)}
	}
	a := &pAgg{}
	for _, o := range l {
		a.f = append(a.f, w.apply(pFn{fn: e.with[o.name]}, []pv{o.arg}, nil))
	}
	return pSlice{arr: pPtr{obj: w.obj(a, "options")}, ln: pk(int64(len(l))), cp: int64(len(l))}
}

func (e *widthEval) state(f *ssa.Function, l pwOptions) {
	for s := range e.w.stores {
		at := strings.SplitN(s, "\t", 2)
		e.r.Fail("package state", at[1], at[0], shortFn(f)+" changes a variable of the package (with "+l.String()+"): the next width may depend on it")
	}
	e.w.stores = map[string]bool{}
	e.w.now = e.w.clock
}

// of evaluates Width with a list of options for every rune.
func (e *widthEval) of(l pwOptions) ([]pwPiece, any) {
	return e.w.memoised(math.MinInt32, math.MaxInt32, func() pv {
		r := pInt{lo: e.w.rlo, hi: e.w.rhi, k: 1}
		return e.w.apply(pFn{fn: e.width}, []pv{r, e.options(e.width, l)}, nil)
	})
}

// expected is the reference for a list of options.
func expectedWidths(cls map[string][][2]int64, l pwOptions) []pwPiece {
	ea, skip, amb := l.settings()
	type class struct {
		rs [][2]int64
		w  pInt
	}
	order := []class{
		{[][2]int64{{math.MinInt32, -1}, {0xD800, 0xDFFF}, {0xFFFD, 0xFFFD}, {0x110000, math.MaxInt32}}, pk(0)},
		{[][2]int64{{0x2E3B, 0x2E3B}}, pk(4)},
		{[][2]int64{{0x2E3A, 0x2E3A}}, pk(3)},
		{cls["nonprint"], pk(0)},
		{cls["combining"], pk(0)},
		{cls["narrow"], pk(1)},
		{cls["wide"], pk(2)},
	}
	if ea {
		order = append(order, class{cls["ambiguous"], amb})
		if skip {
			order = append(order, class{cls["emoji"], pk(2)})
		}
	}
	order = append(order, class{[][2]int64{{math.MinInt32, math.MaxInt32}}, pk(1)})
	cuts := map[int64]bool{}
	for _, c := range order {
		for _, x := range c.rs {
			cuts[x[0]], cuts[x[1]+1] = true, true
		}
	}
	var at []int64
	for c := range cuts {
		at = append(at, c)
	}
	sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
	in := func(rs [][2]int64, r int64) bool {
		i := sort.Search(len(rs), func(i int) bool { return rs[i][1] >= r })
		return i < len(rs) && rs[i][0] <= r
	}
	var ps []pwPiece
	for i := 0; i+1 < len(at); i++ {
		for _, c := range order {
			if in(c.rs, at[i]) {
				if n := len(ps); n > 0 && pwEqual(ps[n-1].v, c.w) {
					ps[n-1].hi = at[i+1] - 1
				} else {
					ps = append(ps, pwPiece{at[i], at[i+1] - 1, c.w})
				}
				break
			}
		}
	}
	return ps
}

// compare obliges got to be want on [lo,hi].
func (e *widthEval) compare(got, want []pwPiece, lo, hi int64, f *ssa.Function, l pwOptions, rule string) {
	pos := e.w.p.PosOfFunc(f)
	j, bad := 0, 0
	for _, x := range want {
		a, b := max(x.lo, lo), min(x.hi, hi)
		if a > b {
			continue
		}
		ok, d := true, ""
		for j < len(got) && got[j].hi < a {
			j++
		}
		for i := j; i < len(got) && got[i].lo <= b; i++ {
			if !pwEqual(got[i].v, x.v) && ok {
				ok = false
				d = fmt.Sprintf("U+%04X to U+%04X: %v instead of %v, with %s", max(a, got[i].lo), min(b, got[i].hi), got[i].v, x.v, l)
			}
		}
		if !ok {
			if bad++; bad > 5 {
				continue
			}
		}
		e.r.Oblige(ok, rule, shortFn(f), pos, d)
	}
}

func checkC12(p *Program, r *Report) {
	r.Rule("for every rune and every list of options, the width is that of the class of the rune in Unicode 15.0; no variable of the package is changed but once")
	cls, err := widthClasses()
	if err != nil {
		r.Fail("undecided", "reference", "-", err.Error())
		return
	}
	e := newWidthEval(p, r)
	if !e.ok {
		return
	}
	for _, l := range widthOptions() {
		r.Count("lists of options", l.String())
		got, stop := e.of(l)
		if e.stopped(stop, e.width, "Width with "+l.String()) {
			for range got {
				r.Count("ranges of runes", "")
			}
			e.compare(got, expectedWidths(cls, l), math.MinInt32, math.MaxInt32, e.width, l, "width")
		}
		e.state(e.width, l)
	}
	for _, f := range e.w.reached() {
		r.Count("functions evaluated", f)
	}
	r.AtLeast("lists of options", 30)
	r.AtLeast("ranges of runes", 10000)
}

func checkC13(p *Program, r *Report) {
	r.Rule("the sum starts at 0, the loop visits every rune from the first to the last, adds the width of the rune with the same options, and the sum is returned")
	e := newWidthEval(p, r)
	if !e.ok {
		return
	}
	for _, l := range widthOptions() {
		r.Count("lists of options", l.String())
		want, stop := e.of(l)
		if !e.stopped(stop, e.width, "Width with "+l.String()) {
			e.state(e.width, l)
			continue
		}
		e.w.stores = map[string]bool{}
		for _, f := range []*ssa.Function{e.widths, e.strWidth} {
			ranges := [][2]int64{{math.MinInt32, math.MaxInt32}}
			text := pv(pSlice{text: true, ln: pInt{sym: "len"}})
			if b, ok := f.Params[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				ranges = [][2]int64{{0, 0xD7FF}, {0xE000, 0x10FFFF}}
				text = pText{}
			}
			for _, x := range ranges {
				got, stop := e.w.memoised(x[0], x[1], func() pv {
					return e.iteration(f, func() []pv { return []pv{text, e.options(f, l)} })
				})
				e.w.loop = nil
				if e.stopped(stop, f, shortFn(f)+" with "+l.String()) {
					for range got {
						r.Count("ranges of runes", "")
					}
					e.compare(got, want, x[0], x[1], f, l, "sum")
				}
			}
			e.state(f, l)
		}
	}
	for _, f := range e.w.reached() {
		r.Count("functions evaluated", f)
	}
	r.AtLeast("lists of options", 30)
	r.AtLeast("ranges of runes", 20000)
}

// iteration is what an iteration of the loop over the text adds to the sum
// that f returns.
func (e *widthEval) iteration(f *ssa.Function, args func() []pv) pv {
	w := e.w
	defer func() { w.loop, w.choice, w.choices = nil, nil, 0 }()
	bad := func(s string, a ...any) { panic(pwFail{fmt.Sprintf(s, a...), w.p.PosOfFunc(f)}) }
	run := func(exit bool) (pv, any, *pwLoop) {
		d := w.depth
		w.loop, w.choices = nil, 0
		as := args()
		w.loop = &pwLoop{exit: exit}
		v, stop := w.attempt(func() pv { return w.apply(pFn{fn: f}, as, nil) })
		w.depth = d
		switch stop.(type) {
		case pwCut, pwFail, pwPanic:
			panic(stop)
		}
		return v, stop, w.loop
	}
	var sum pv
	w.choice = nil
	for {
		_, stop, body := run(false)
		out, _, exit := run(true)
		v, _ := out.(pInt)
		if body.init == nil {
			empty := false
			for _, c := range w.choice {
				empty = empty || c.empty
			}
			if !empty || !pwEqual(v, pk(0)) {
				bad("%v is returned without a loop over the text", v)
			}
		} else {
			if _, back := stop.(pwBack); !back {
				bad("an iteration of the loop over the text may be the last one")
			}
			var acc, idx *ssa.Phi
			for p := range exit.init {
				if v.sym == "phi:"+p.Name() {
					acc = p
				}
			}
			if acc == nil || v.lo != v.hi {
				bad("what is returned is not the sum: %v", v)
			}
			init, ok := exit.init[acc].(pInt)
			if !ok || init.sym != "" || init.lo != init.hi || init.lo+v.lo != 0 {
				bad("the sum does not start at 0")
			}
			step, ok := body.step[acc].(pInt)
			rest, plain := strings.CutPrefix(step.sym, v.sym)
			rest, more := strings.CutPrefix(rest, "⊕")
			if !ok || !plain || rest != "" && !more || strings.Contains(rest, "phi:") {
				bad("the sum of an iteration is not the sum before plus a width")
			}
			if step.lo != step.hi {
				w.cutMid(nil)
			}
			// every element, from the first to the last
			if !body.next {
				at := int64(0)
				for p := range body.init {
					for _, c := range []struct {
						f string
						k int64
					}{{"phi:%s|len < %d", -1}, {"phi:%s|len != %d", -1}, {"len|phi:%s > %d", 1}, {"len|phi:%s != %d", 1}} {
						var k int64
						if strings.HasPrefix(body.cond, fmt.Sprintf(c.f[:strings.LastIndex(c.f, "%")], p.Name())) {
							fmt.Sscanf(body.cond[strings.LastIndex(body.cond, " ")+1:], "%d", &k)
							idx, at = p, c.k*k
						}
					}
				}
				if idx == nil {
					bad("the condition of the loop over the text (%s) is not that of a loop to its end", body.cond)
				}
				i0, ok := body.init[idx].(pInt)
				if !ok || i0.sym != "" || i0.lo != i0.hi || i0.lo+at != 0 {
					bad("the loop does not start with the first rune")
				}
				i1, ok := body.step[idx].(pInt)
				if !ok || i1.sym != "phi:"+idx.Name() || i1.lo != 1 || i1.hi != 1 {
					bad("the loop does not go from a rune to the next")
				}
				if body.seen && (body.access.sym != "phi:"+idx.Name() || body.access.lo != at || body.access.hi != at) {
					bad("the rune measured is not that of the iteration")
				}
			}
			for p, v := range body.init {
				if _, isInt := v.(pInt); !isInt && pwIdent(v) != pwIdent(body.step[p]) {
					bad("a variable changes from an iteration to the next")
				}
			}
			d := pInt{lo: step.lo, hi: step.lo, sym: rest}
			if sum != nil && !pwEqual(sum, d) {
				bad("an iteration adds %v or %v", sum, d)
			}
			sum = d
		}
		// the next choice
		n := len(w.choice)
		for n > 0 && w.choice[n-1].n == 1 {
			n--
		}
		if n == 0 {
			break
		}
		w.choice = append([]pwChoice(nil), w.choice[:n]...)
		w.choice[n-1].n = 1
	}
	if sum == nil {
		bad("there is no loop over the text")
	}
	return sum
}
