package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "proof",
		"information-flow analysis over SSA: the letter case of the word's runes must not reach a branch, an index, a slice bound, a length or a map key of the hyphenator, except through functions constant on letters equal up to case (unicode.ToLower, tests of caseless classes)",
		checkC09)
}

func checkC09(p *Program, r *Report) {
	g := newCallGraph(p)
	var entries []*ssa.Function
	for _, n := range []string{"BreakWord", "BreakWordString"} {
		f, err := p.Method("wordbreak/hyphenator", "Hyphenator", n)
		if err != nil {
			r.Fail("anchor", "Hyphenator."+n, "-", err.Error())
			return
		}
		entries = append(entries, f)
		r.Count("entry points", shortFn(f))
	}
	cone := g.Reachable(entries...)
	t := newTaint(p, g, cone)
	t.Scalar = true
	raw := t.NewLabel("case of the word")
	src := map[ssa.Value]bool{}
	for _, f := range entries {
		for i, prm := range f.Params {
			if i > 0 {
				src[prm] = true
			}
		}
	}
	t.Source = func(v ssa.Value) Label {
		if src[v] {
			return bit(raw)
		}
		return Label{}
	}
	caseless := caselessSets(p)
	t.CallT = func(c ssa.CallInstruction, callee *ssa.Function, args []Label) (Label, bool) {
		pkg, name := extPkg(c, callee)
		com := c.Common()
		switch pkg + "." + name {
		case "unicode.ToLower", "unicode.IsSpace", "unicode.IsPunct", "unicode.IsDigit", "unicode.IsControl", "unicode/utf8.ValidRune":
			return Label{}, true
		case "strings.ToLower":
			return Label{}, true
		case "unicode.Is":
			if len(com.Args) == 2 && caselessTable(com.Args[0]) {
				return Label{}, true
			}
		case "strings.Map":
			// strings.Map(unicode.ToLower, s)
			for _, fn := range funcValues(com.Args[0]) {
				if fn.String() == "unicode.ToLower" {
					return Label{}, true
				}
			}
		}
		if com.StaticCallee() != nil && name == "Contains" && recvNamed(callee) == "Set" || com.IsInvoke() && name == "Contains" {
			var recv ssa.Value
			if com.IsInvoke() {
				recv = com.Value
			} else {
				recv = com.Args[0]
			}
			if caseless.is(recv) {
				return Label{}, true
			}
		}
		return Label{}, false
	}
	t.BinT = func(x *ssa.BinOp) (Label, bool) {
		// comparison with a rune that has no other case
		if x.Op == token.EQL || x.Op == token.NEQ {
			for _, o := range []ssa.Value{x.X, x.Y} {
				if c, ok := o.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
					if v, exact := constant.Int64Val(c.Value); exact && uncasedRune(rune(v)) {
						return Label{}, true
					}
				}
				if _, isNil := o.(*ssa.Const); isNil && o.(*ssa.Const).IsNil() {
					return Label{}, true
				}
			}
		}
		return Label{}, false
	}
	t.Run()
	r.Rule("no If condition, index, slice bound, map key, allocation size or callee choice in the cone of Hyphenator.BreakWord depends on a rune of the word other than through a case-insensitive function")
	r.Assume("unicode.ToLower, and tests of classes without letters, are the same on runes that only differ by case")
	sink := func(ins ssa.Instruction, v ssa.Value, what string) {
		if v == nil {
			return
		}
		r.Count("sinks", what)
		r.Oblige(!t.L(v).has(raw), "case does not influence break points", fmt.Sprintf("%s: %s", shortFn(ins.Parent()), what), p.PosOf(ins),
			"depends on the letter case of the word")
	}
	isScalar := func(v ssa.Value) bool {
		_, ok := v.Type().Underlying().(*types.Basic)
		return ok
	}
	for f := range cone {
		r.Count("functions in the cone", shortFn(f))
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.If:
					sink(ins, x.Cond, "branch")
				case *ssa.IndexAddr:
					sink(ins, x.Index, "index")
				case *ssa.Index:
					sink(ins, x.Index, "index")
				case *ssa.Slice:
					sink(ins, x.Low, "slice bound")
					sink(ins, x.High, "slice bound")
					sink(ins, x.Max, "slice bound")
				case *ssa.Lookup:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						sink(ins, x.Index, "map key")
					} else {
						sink(ins, x.Index, "index")
					}
				case *ssa.MapUpdate:
					sink(ins, x.Key, "map key")
				case *ssa.MakeSlice:
					sink(ins, x.Len, "allocation size")
				case *ssa.Return:
					for _, res := range x.Results {
						if isScalar(res) && f.Object() != nil && contains(entries, f) {
							sink(ins, res, "result")
						}
					}
				}
			}
		}
	}
	r.AtLeast("functions in the cone", 8)
	r.AtLeast("sinks", 20)
}

func contains(fs []*ssa.Function, f *ssa.Function) bool {
	for _, g := range fs {
		if f == g {
			return true
		}
	}
	return false
}

// uncasedRune: no other rune has the same lower case.
func uncasedRune(r rune) bool {
	return unicode.ToLower(r) == r && unicode.SimpleFold(r) == r && !uncasedImage()[r]
}

var uncasedImages map[rune]bool

func uncasedImage() map[rune]bool {
	if uncasedImages == nil {
		uncasedImages = map[rune]bool{}
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if l := unicode.ToLower(r); l != r {
				uncasedImages[l] = true
			}
		}
	}
	return uncasedImages
}

// caselessTable recognizes a range table whose membership is the same for
// runes equal up to case: checked on the actual tables of the unicode package.
func caselessTable(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		gl, ok := x.X.(*ssa.Global)
		if !ok || gl.Pkg == nil || gl.Pkg.Pkg.Path() != "unicode" {
			return false
		}
		tab := unicode.Properties[gl.Name()]
		if tab == nil {
			tab = unicode.Categories[gl.Name()]
		}
		if tab == nil {
			tab = unicode.Properties[gl.Name()]
		}
		alias := map[string]string{"Punct": "P", "Digit": "Nd", "Space": "Z", "Symbol": "S", "Number": "N", "Mark": "M", "Letter": "L"}
		if tab == nil && alias[gl.Name()] != "" {
			tab = unicode.Categories[alias[gl.Name()]]
		}
		if tab == nil {
			return false
		}
		for r := rune(0); r <= unicode.MaxRune; r++ {
			if l := unicode.ToLower(r); l != r && unicode.Is(tab, l) != unicode.Is(tab, r) {
				return false
			}
		}
		return true
	}
	return false
}

type caselessSet struct{ globals map[*ssa.Global]bool }

// caselessSets finds package variables initialized as runes.In(table) with a
// caseless table, and not written otherwise.
func caselessSets(p *Program) *caselessSet {
	cs := &caselessSet{map[*ssa.Global]bool{}}
	bad := map[*ssa.Global]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				gl, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				if isCaselessIn(st.Val) {
					cs.globals[gl] = true
				} else {
					bad[gl] = true
				}
			}
		}
	}
	for gl := range bad {
		delete(cs.globals, gl)
	}
	return cs
}

func isCaselessIn(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return isCaselessIn(x.X)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		pkg, name := extPkg(x, f)
		return pkg == "golang.org/x/text/runes" && name == "In" && caselessTable(x.Call.Args[0])
	}
	return false
}

func (cs *caselessSet) is(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		gl, ok := x.X.(*ssa.Global)
		return ok && cs.globals[gl]
	case *ssa.Global:
		return cs.globals[x]
	case *ssa.FieldAddr:
		return cs.is(x.X)
	default:
		return isCaselessIn(v)
	}
}
