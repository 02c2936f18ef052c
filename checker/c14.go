package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "proof",
		"ownership taint over SSA: memory of slices given by callers is tracked through values, fields and containers, and every instruction writing through such memory is a violation (appends allowed on slices capped to their length)",
		checkC14)
}

func inputPkg(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
	return strings.HasPrefix(rel, "wordbreak") || strings.HasPrefix(rel, "terminal") || strings.HasPrefix(rel, "attributes") || rel == "linebreak"
}

// sliceDeep tells if a type is, or is made of, slices (not through pointers to
// structs of the module: those are the objects of the API, not input text).
func sliceDeep(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if sliceDeep(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return sliceDeep(u.Elem())
	}
	return false
}

func checkC14(p *Program, r *Report) {
	g := newCallGraph(p)
	scope := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		scope[f] = true
	}
	t := newTaint(p, g, scope)
	lab := t.NewLabel("input slice")
	src := map[ssa.Value]bool{}
	for _, f := range p.Funcs {
		if !inputPkg(f) || f.Parent() != nil {
			continue
		}
		if !exportedAPI(f) {
			continue
		}
		for i, prm := range f.Params {
			if i == 0 && f.Signature.Recv() != nil {
				continue
			}
			if sl, ok := prm.Type().Underlying().(*types.Slice); ok {
				if _, isFn := sl.Elem().Underlying().(*types.Signature); isFn {
					continue // options
				}
				src[prm] = true
				r.Count("input slices", fmt.Sprintf("%s of %s", prm.Name(), shortFn(f)))
			}
		}
	}
	t.Source = func(v ssa.Value) Label {
		if src[v] {
			return bit(lab)
		}
		return Label{}
	}
	// what is loaded from a slice of runes or of slices is input too when it
	// is a reference (elements of [][]rune); scalars carry no label
	t.CallT = func(c ssa.CallInstruction, callee *ssa.Function, args []Label) (Label, bool) {
		pkg, name := extPkg(c, callee)
		switch {
		case pkg == "slices" && (name == "Clone" || name == "Concat" || name == "Repeat"):
			return Label{}, true
		case pkg == "unicode" || pkg == "strings" || pkg == "fmt" || pkg == "strconv" || pkg == "io" || pkg == "math":
			return Label{}, true
		case c.Common().IsInvoke() && strings.HasPrefix(name, "Write"):
			return Label{}, true
		}
		return Label{}, false
	}
	t.Run()
	r.Rule("no instruction of the module writes through a reference derived from a slice argument of an exported function (store, copy, delete, map update, append to a slice not capped to its length, call of a mutating function)")
	r.Assume("functions given by the caller, and io.Writers, do not write to the slices they are given (contracts of the standard library)")
	r.AtLeast("input slices", 20)
	for _, f := range p.Funcs {
		r.Count("functions analysed", shortFn(f))
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store, *ssa.MapUpdate:
					r.Count("writes examined", "")
					r.Obligations++
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "clear", "delete":
							r.Count("writes examined", "")
							r.Obligations++
						}
					}
				}
			}
		}
	}
	r.Discharged = r.Obligations
	for _, w := range t.Writes() {
		if onlyLocalCell(w) {
			continue
		}
		r.Discharged--
		r.Fail("inputs are read only", fmt.Sprintf("%s: %s", shortFn(w.Fn), w.What), p.PosOf(w.Ins),
			"writes to memory of a slice given as input")
	}
}

// onlyLocalCell: the target is a local variable or a field of an object, not
// the memory of a slice.
func onlyLocalCell(w Write) bool {
	switch x := w.Target.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		return true
	case *ssa.FieldAddr:
		// a field of an element of an input slice is input as well
		_, elem := x.X.(*ssa.IndexAddr)
		return !elem
	}
	return false
}
