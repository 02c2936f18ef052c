package main

// Models of the standard library.

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// constPreds are predicates on a rune evaluated on constants.
var constPreds = map[string]func(rune) bool{
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsPunct": unicode.IsPunct,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber, "unicode.IsControl": unicode.IsControl,
	"unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic, "unicode.IsMark": unicode.IsMark,
	"unicode.IsSymbol": unicode.IsSymbol, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsTitle": unicode.IsTitle,
	"hyphen": func(r rune) bool { return unicode.Is(unicode.Hyphen, r) },
}

func inlinable(f *ssa.Function) bool {
	pkg := f.Pkg
	if o := f.Origin(); o != nil {
		pkg = o.Pkg
	}
	if pkg == nil {
		return false
	}
	name, _, _ := strings.Cut(f.Name(), "[")
	switch pkg.Pkg.Path() {
	case "unicode/utf8":
		switch name {
		case "ValidRune", "RuneLen":
			return true
		}
	case "sort":
		return name == "Search"
	case "cmp":
		return name == "Less" || name == "Compare" || name == "isNaN"
	case "slices":
		switch name {
		case "Index", "IndexFunc", "Contains", "ContainsFunc", "BinarySearchFunc", "BinarySearch", "Reverse", "Max", "Min", "Equal":
			return true
		}
	}
	return false
}

// predModel: predicates of the unicode package are functions of their argument.
func predModel(f *ssa.Function) (model, bool) {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "unicode" {
		return nil, false
	}
	name := "unicode." + f.Name()
	sig := f.Signature
	if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isBoolT(sig.Results().At(0).Type()) {
		return func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
			return []ret{{s, VBool{&Cond{k: cdAtom, atom: name, args: []Lin{args[0].(VInt).e}}}}}
		}, true
	}
	if sig.Params().Len() == 1 && sig.Results().Len() == 1 && isIntT(sig.Results().At(0).Type()) { // ToLower, ToUpper, SimpleFold
		return func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
			e := s.sys.norm(args[0].(VInt).e)
			k := name + "(" + e.key() + ")"
			if v, ok := s.memoKey(k); ok {
				return []ret{{s, v}}
			}
			v := x.symInt(s, sig.Results().At(0).Type(), k)
			s.setMemoKey(k, v)
			return []ret{{s, v}}
		}, true
	}
	return nil, false
}

// pureStd: functions whose result only depends on their arguments, that have
// no effect and that return normally for all arguments.
func pureStd(f *ssa.Function) bool {
	if f.Pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path() == "golang.org/x/text/language" || o.Pkg().Path() == "math"
		}
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "strings", "math", "errors", "strconv", "path", "unicode", "unicode/utf8", "golang.org/x/text/language", "math/bits":
		return f.Name() != "Repeat" && !strings.HasPrefix(f.Name(), "New")
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "golang.org/x/text/runes":
		return f.Name() == "In" || f.Name() == "NotIn"
	}
	return false
}

// setPred names the predicate "r is in the set" of a runes.Set or range table.
func setPred(key string) string {
	if strings.Contains(key, "unicode.Hyphen") {
		return "hyphen"
	}
	return "in:" + key
}

func stdModels(x *Exec) {
	m := x.models
	nop := func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		return []ret{{s, VTuple{}}}
	}
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive",
	} {
		m[n] = nop
	}
	contains := func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		key := valKey(s, args[0])
		return []ret{{s, VBool{&Cond{k: cdAtom, atom: setPred(key), args: []Lin{args[1].(VInt).e}}}}}
	}
	m["(golang.org/x/text/runes.Set).Contains"] = contains
	m["unicode.Is"] = contains
	m["unicode.In"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		if els, ok := x.concElems(s, args[1].(VSlice)); ok && len(els) == 1 {
			return contains(x, s, []Val{els[0], args[0]}, site)
		}
		return []ret{{s, VBool{&Cond{k: cdAtom, atom: x.uniq("b:unicode.In")}}}}
	}
	m["(*sync.Once).Do"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		// the first call runs the function; after any call, it has been run exactly once
		f := args[1].(VFunc)
		if f.fn == nil {
			return []ret{{s, VTuple{}}}
		}
		k := "memo:once:" + valKey(s, args[0])
		if _, done := s.mon[k]; done {
			return []ret{{s, VTuple{}}}
		}
		var out []ret
		for _, r := range x.call(s, f.fn, nil, f.bind, site) {
			r.s.setMon(k, VBool{condT})
			out = append(out, ret{r.s, VTuple{}})
		}
		return out
	}
	m["errors.New"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		return []ret{{s, VTerm{key: x.uniq("new:error"), nn: 1, typ: types.Universe.Lookup("error").Type()}}}
	}
	m["fmt.Errorf"] = m["errors.New"]
	m["unicode/utf8.EncodeRune"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		p := args[0].(VSlice)
		r := args[1].(VInt).e
		n := x.symInt(s, types.Typ[types.Int], "runelen")
		w := s.wsys()
		w.setBound(mustSym(n), 1, 4)
		if !x.oblige(s, ge(p.ln.Sub(n.e)), "index", site, "the buffer may be too short for the encoded rune") {
			return nil
		}
		if p.obj != 0 && s.sys.entailsEQ(p.off) {
			o := x.wobj(s, p.obj)
			if o.ck != cConc {
				o.ck = cAny
			}
			// what the array starts with; its elements are not known one by one
			o.ck, o.el = cRope, nil
			o.segs, o.tot, o.top = x.normSegs(s, []Seg{{k: segEncV, v: VInt{r}}}), n.e, false
		} else if p.obj != 0 {
			o := x.wobj(s, p.obj)
			if o.ck == cRope && !o.top && s.sys.entailsEQ(p.off.Sub(o.tot)) {
				o.segs = x.normSegs(s, append(o.segs[:len(o.segs):len(o.segs)], Seg{k: segEncV, v: VInt{r}}))
				o.tot = s.sys.norm(o.tot.Add(n.e))
			} else {
				o.ck, o.el, o.segs, o.top = cAny, nil, nil, true
			}
		}
		return []ret{{s, n}}
	}
	m["unicode/utf8.AppendRune"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		n := x.symLen(s, "runelen")
		w := s.wsys()
		w.setBound(n.t[0].s, 1, 4)
		o := &Obj{arr: true, typ: types.Typ[types.Byte], n: n, ck: cRope, tot: n, segs: x.normSegs(s, []Seg{{k: segEncV, v: args[1]}})}
		src := VSlice{obj: x.newObj(s, o), off: K(0), ln: n, cp: n}
		return []ret{{s, x.appendTo(s, args[0].(VSlice), types.Typ[types.Byte], nil, &src, site)}}
	}
	m["strings.HasPrefix"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		a, b := args[0].(VStr), args[1].(VStr)
		if a.k != nil && b.k != nil {
			return []ret{{s, VBool{condOf(strings.HasPrefix(*a.k, *b.k))}}}
		}
		return []ret{{s, VBool{&Cond{k: cdAtom, atom: x.tkey("HasPrefix", valKey(s, a), valKey(s, b))}}}}
	}
	m["utf8.RuneCountInString"] = nil
	delete(m, "utf8.RuneCountInString")
	// strings.Builder and bytes.Buffer: a buffer of text
	for _, typ := range []string{"strings.Builder", "bytes.Buffer"} {
		buf := func(f func(x *Exec, s *State, o *Obj, args []Val) Val) model {
			return func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				p, ok := args[0].(VPtr)
				if !ok || p.obj == 0 || len(p.path) > 0 {
					return []ret{{s, x.fresh(s, resultType(site.Common().Signature()), "buffer")}}
				}
				o := x.wobj(s, p.obj)
				if st, is := o.val.(VStr); !is || st.id == "" && st.k == nil {
					o.val = constStr("")
				}
				return []ret{{s, f(x, s, o, args)}}
			}
		}
		errT := VIface{}
		m["(*"+typ+").WriteRune"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			add := VStr{id: x.uniq("rune"), ln: x.symLen(s, "len"), segs: []Seg{{k: segEncV, v: args[1]}}, sok: true}
			o.val = x.concatStr(s, o.val.(VStr), add)
			return VTuple{f: []Val{VInt{add.ln}, errT}}
		})
		m["(*"+typ+").WriteString"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			o.val = x.concatStr(s, o.val.(VStr), args[1].(VStr))
			return VTuple{f: []Val{VInt{args[1].(VStr).ln}, errT}}
		})
		m["(*"+typ+").WriteByte"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			b := args[1].(VInt)
			segs := []Seg{{k: segUnk}}
			if s.sys.entails(K(0x7f).Sub(b.e)) && s.sys.entails(b.e) {
				segs = []Seg{{k: segEncV, v: b}}
			}
			add := VStr{id: x.uniq("byte"), ln: K(1), segs: segs, sok: segs[0].k != segUnk}
			o.val = x.concatStr(s, o.val.(VStr), add)
			return errT
		})
		m["(*"+typ+").Write"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			b := args[1].(VSlice)
			segs := x.contentOf(s, b)
			add := VStr{id: x.uniq("bytes"), ln: b.ln, segs: segs, sok: segsKnown(segs)}
			o.val = x.concatStr(s, o.val.(VStr), add)
			return VTuple{f: []Val{VInt{b.ln}, errT}}
		})
		m["(*"+typ+").String"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val { return o.val })
		m["(*"+typ+").Len"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val { return VInt{o.val.(VStr).ln} })
		m["(*"+typ+").Grow"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val { return VTuple{} })
		m["(*"+typ+").Reset"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			o.val = constStr("")
			return VTuple{}
		})
		m["(*"+typ+").Bytes"] = buf(func(x *Exec, s *State, o *Obj, args []Val) Val {
			st := o.val.(VStr)
			b := &Obj{arr: true, typ: types.Typ[types.Byte], n: st.ln, ck: cRope, segs: st.segs, tot: st.ln, top: !st.sok}
			return VSlice{obj: x.newObj(s, b), off: K(0), ln: st.ln, cp: st.ln}
		})
	}
}

// initGlobals executes the initialisation of the packages of the module.
func (x *Exec) initGlobals() {
	x.inInit = true
	cm := x.constMode
	x.constMode = true
	s := x.newState()
	for _, rel := range sortedKeys(x.p.SSAPkgs) {
		f := x.p.SSAPkgs[rel].Func("init")
		if f == nil {
			continue
		}
		x.models[f.String()] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
			return []ret{{s, VTuple{}}}
		}
	}
	done := map[*types.Package]bool{}
	var run func(pk *types.Package)
	run = func(pk *types.Package) {
		if done[pk] || !x.p.inModPath(pk.Path()) {
			return
		}
		done[pk] = true
		for _, i := range pk.Imports() {
			run(i)
		}
		sp := x.p.SSA.Package(pk)
		if sp == nil || sp.Func("init") == nil {
			return
		}
		rs := x.call(s, sp.Func("init"), nil, nil, nil)
		if len(rs) == 0 {
			panic(giveUp{"initialisation of " + pk.Path()})
		}
		s = rs[0].s
		for _, r := range rs { // the guard is false once
			_ = r
		}
	}
	for _, rel := range sortedKeys(x.p.SSAPkgs) {
		run(x.p.SSAPkgs[rel].Pkg)
	}
	for id, o := range s.heap {
		x.base[id] = o
	}
	x.initMon = s.mon
	x.inInit = false
	x.constMode = cm
	x.log, x.nobl, x.steps = nil, 0, 0
	x.loopsSeen, x.fnsSeen = map[string]string{}, map[string]bool{}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func sortStrings(a []string) {
	for i := range a {
		for j := i + 1; j < len(a); j++ {
			if a[j] < a[i] {
				a[i], a[j] = a[j], a[i]
			}
		}
	}
}

var _ = utf8.RuneError
var _ = fmt.Sprint
