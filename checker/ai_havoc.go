package main

// Loops that only compute numbers from numbers, summarised by any outcome.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// numElem tells that t is a plain number (not a rune, a byte or a named type).
func numElem(t types.Type) bool {
	b, ok := t.(*types.Basic)
	if !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
		return false
	}
	return b.Kind() != types.Int32 && b.Kind() != types.Uint8
}

// numType: numbers, and slices of them.
func numType(t types.Type) bool {
	if sl, ok := t.(*types.Slice); ok {
		return numType(sl.Elem())
	}
	return numElem(t)
}

// numericBlocks tells that the instructions only read and write numbers and
// elements of slices of numbers.
func (x *Exec) numericBlocks(bs []*ssa.BasicBlock, depth int) bool {
	for _, b := range bs {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				if !numType(ins.Type()) {
					return false
				}
			case *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Return:
			case *ssa.UnOp:
				if !numType(ins.Type()) {
					return false
				}
				if ia, ok := ins.X.(*ssa.IndexAddr); ok && !numType(deref(ia.Type())) {
					return false
				} else if !ok && types.Identical(ins.X.Type(), types.NewPointer(ins.Type())) {
					return false // reads another cell
				}
			case *ssa.IndexAddr:
				if !numType(deref(ins.Type())) {
					return false
				}
			case *ssa.Slice:
				if !numType(ins.Type()) {
					return false
				}
			case *ssa.MakeSlice:
				if !numType(ins.Type()) {
					return false
				}
			case *ssa.Alloc: // the array behind the elements of an append
				a, ok := deref(ins.Type()).(*types.Array)
				if !ok || !numType(a.Elem()) {
					return false
				}
			case *ssa.Store:
				if _, ok := ins.Addr.(*ssa.IndexAddr); !ok || !numType(ins.Val.Type()) {
					return false
				}
			case *ssa.Convert:
				if !numElem(ins.Type()) || !numElem(ins.X.Type()) {
					return false
				}
			case *ssa.Call:
				switch f := ins.Call.Value.(type) {
				case *ssa.Builtin:
					switch f.Name() {
					case "len", "cap":
					case "append", "copy", "min", "max":
						for _, a := range ins.Call.Args {
							if !numType(a.Type()) {
								return false
							}
						}
					default:
						return false
					}
				case *ssa.Function:
					if depth > 4 || !x.p.InModule(f) || len(f.Blocks) == 0 || len(f.FreeVars) > 0 {
						return false
					}
					for _, a := range ins.Call.Args {
						if !numType(a.Type()) {
							return false
						}
					}
					if !x.numericBlocks(f.Blocks, depth+1) {
						return false
					}
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) numericLoop(l *loopInfo) bool {
	if r, ok := x.numLoops[l]; ok {
		return r
	}
	var bs []*ssa.BasicBlock
	slices := false
	for b := range l.body {
		bs = append(bs, b)
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.IndexAddr); ok {
				slices = true
			}
		}
	}
	r := slices && x.numericBlocks(bs, 0)
	x.numLoops[l] = r
	return r
}

// havocVal is any value of a type of numbers.
func (x *Exec) havocVal(s *State, t types.Type, name string) Val {
	v := x.fresh(s, t, name)
	if sl, ok := v.(VSlice); ok {
		x.wobj(s, sl.obj).ck = cAny
	}
	return v
}

// havocLoop goes on from every exit of the loop with any values in what the
// loop may have changed: its own values, and the elements of slices of numbers.
func (x *Exec) havocLoop(l *loopInfo, entries []*State, info *fnInfo) []edgeOut {
	x.loopsSeen[shortFn(info.fn)+" b"+fmt.Sprint(l.head.Index)] = "only computes numbers from numbers: any outcome"
	var out []edgeOut
	for _, e := range x.joinN(entries, l.head, 1) {
		var ids []int
		for id, o := range e.heap {
			if o.arr && numType(o.typ) {
				ids = append(ids, id)
			}
		}
		for id, o := range x.base {
			if _, has := e.heap[id]; !has && o.arr && numType(o.typ) {
				ids = append(ids, id)
			}
		}
		for _, id := range ids {
			w := x.wobj(e, id)
			w.ck, w.el, w.segs, w.top = cAny, nil, nil, true
			e.dropElts(id)
		}
		for _, b := range info.rpo {
			if !l.body[b] {
				continue
			}
			for _, t := range b.Succs {
				if l.body[t] {
					continue
				}
				s := e.clone()
				for c := range l.body {
					for _, ins := range c.Instrs {
						v, ok := ins.(ssa.Value)
						if !ok {
							continue
						}
						k := info.idx[v]
						if numType(v.Type()) {
							s.fr.vals[k] = x.havocVal(s, v.Type(), v.Name())
						} else {
							s.fr.vals[k] = nil
						}
					}
				}
				x.edge(s, b, t)
				out = append(out, edgeOut{t, s})
			}
		}
	}
	return out
}

func (x *Exec) joinN(in []*State, b *ssa.BasicBlock, n int) []*State {
	if len(in) > n {
		return x.join(in, b)
	}
	return in
}
