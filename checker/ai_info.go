package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fnInfo holds what the interpreter needs to know of a function: numbering of
// values, reverse post-order, natural loops, live values.
type fnInfo struct {
	fn          *ssa.Function
	idx         map[ssa.Value]int
	rpo         []*ssa.BasicBlock
	num         []int // block index -> rpo number
	loops       map[*ssa.BasicBlock]*loopInfo
	live        []map[ssa.Value]bool // live-in values by block index (phis of the block included when used)
	irreducible bool
	after       map[ssa.Instruction]map[ssa.Value]bool
}

type loopInfo struct {
	head    *ssa.BasicBlock
	body    map[*ssa.BasicBlock]bool
	parent  *loopInfo
	counted bool // compares a phi of the header with a constant
}

func (x *Exec) info(f *ssa.Function) *fnInfo {
	if i := x.infos[f]; i != nil {
		return i
	}
	in := &fnInfo{fn: f, idx: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}}
	x.infos[f] = in
	n := 0
	add := func(v ssa.Value) {
		in.idx[v] = n
		n++
	}
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse post-order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		dfs(f.Blocks[0])
	}
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	in.num = make([]int, len(f.Blocks))
	for i := len(post) - 1; i >= 0; i-- {
		in.num[post[i].Index] = len(in.rpo)
		in.rpo = append(in.rpo, post[i])
	}
	// natural loops
	for _, b := range in.rpo {
		for _, s := range b.Succs {
			if in.num[s.Index] > in.num[b.Index] {
				continue
			}
			if !s.Dominates(b) {
				in.irreducible = true
				continue
			}
			l := in.loops[s]
			if l == nil {
				l = &loopInfo{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
				in.loops[s] = l
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				c := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[c] {
					continue
				}
				l.body[c] = true
				stack = append(stack, c.Preds...)
			}
		}
	}
	for h, l := range in.loops {
		for h2, l2 := range in.loops {
			if h != h2 && l2.body[h] && (l.parent == nil || len(l2.body) < len(l.parent.body)) {
				l.parent = l2
			}
		}
		for b := range l.body {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.BinOp); ok && isBoolT(c.Type()) {
					if phiOf(c.X, h) && isConstInt(c.Y) || phiOf(c.Y, h) && isConstInt(c.X) || phiOf(c.X, h) && phiOf(c.Y, h) {
						l.counted = true
					}
				}
			}
		}
	}
	// liveness
	in.live = make([]map[ssa.Value]bool, len(f.Blocks))
	for i := range in.live {
		in.live[i] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for k := len(in.rpo) - 1; k >= 0; k-- {
			b := in.rpo[k]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in.live[s.Index] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					cur[v] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if _, tracked := in.idx[p.Edges[pi]]; tracked {
						cur[p.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if _, ok := ins.(*ssa.Phi); ok {
					continue // uses belong to the predecessors; the phi stays live at entry when used
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						if _, tracked := in.idx[*op]; tracked {
							cur[*op] = true
						}
					}
				}
			}
			l := in.live[b.Index]
			for v := range cur {
				if !l[v] {
					l[v] = true
					ch = true
				}
			}
		}
	}
	return in
}

// liveAfter lists the values still used once the instruction has run.
func (in *fnInfo) liveAfter(site ssa.Instruction) map[ssa.Value]bool {
	if m := in.after[site]; m != nil {
		return m
	}
	b := site.Block()
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in.live[s.Index] {
			if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
				continue
			}
			cur[v] = true
		}
		for j, p := range s.Preds {
			if p != b {
				continue
			}
			for _, ins := range s.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				cur[phi.Edges[j]] = true
			}
		}
	}
	for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != site; j-- {
		for _, op := range b.Instrs[j].Operands(nil) {
			if op != nil && *op != nil {
				cur[*op] = true
			}
		}
	}
	if in.after == nil {
		in.after = map[ssa.Instruction]map[ssa.Value]bool{}
	}
	in.after[site] = cur
	return cur
}

func phiOf(v ssa.Value, h *ssa.BasicBlock) bool {
	switch v := v.(type) {
	case *ssa.Phi:
		return v.Block() == h && isIntT(v.Type())
	case *ssa.BinOp:
		return phiOf(v.X, h) && isConstInt(v.Y)
	case *ssa.Convert:
		return phiOf(v.X, h)
	}
	return false
}

func isConstInt(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if ok {
		return c.Value != nil && isIntT(c.Type())
	}
	if call, ok := v.(*ssa.Call); ok { // len of an array or constant slice
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if t := call.Call.Args[0].Type().Underlying(); t != nil {
				switch t := t.(type) {
				case *types.Array:
					return true
				case *types.Pointer:
					_, is := t.Elem().Underlying().(*types.Array)
					return is
				}
			}
		}
	}
	return false
}
