package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "other",
		"effect analysis over SSA: enumerates every source of nondeterminism (map iteration with an order-dependent body, time, randomness, environment, addresses, goroutines, select) and every write to state kept between calls, which must be a constant initialization or a cache whose value depends on its key only",
		checkC19)
}

// nondetFuncs are functions whose result differs between runs.
var nondetPkgs = map[string]bool{
	"math/rand": true, "math/rand/v2": true, "crypto/rand": true, "hash/maphash": true,
}
var nondetFuncs = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "time.After": true, "time.Tick": true, "time.NewTimer": true,
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.ExpandEnv": true, "os.Getpid": true, "os.Getppid": true, "os.Hostname": true,
	"os.Getwd": true, "os.TempDir": true, "os.UserHomeDir": true, "os.Getuid": true, "os.Executable": true, "os.ReadFile": true, "os.Open": true, "os.Stat": true, "os.ReadDir": true,
	"runtime.NumGoroutine": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "runtime.Caller": true, "runtime.ReadMemStats": true,
	"reflect.Pointer": true, "reflect.UnsafePointer": true, "reflect.UnsafeAddr": true,
}
var mapOrderFuncs = map[string]bool{
	"maps.Keys": true, "maps.Values": true, "maps.All": true, "reflect.MapKeys": true, "reflect.MapRange": true, "sync.Range": true,
}

func usedValue(v ssa.Value) bool {
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch r.(type) {
		case *ssa.DebugRef:
		default:
			return true
		}
	}
	return false
}

func checkC19(p *Program, r *Report) {
	g := newCallGraph(p)
	r.Rule("no iteration over a map, unless the body commutes or its result is sorted")
	r.Rule("no use of time, randomness, environment, addresses, scheduling or goroutines")
	r.Rule("state kept between calls (package variables, word breakers) is only written with a value computed from constants, or as a cache entry computed from its key alone")
	r.Assume("functions given by the user, and the standard library functions not listed as sources, are deterministic")
	// a positive example that must match on every run
	if !nondetFuncs["time.Now"] {
		r.Fail("vacuity", "table of sources", "-", "empty")
	}
	for _, f := range p.Funcs {
		r.Count("functions analysed", shortFn(f))
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Range:
					if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
						why := mapLoopOrderDependent(p, g, x)
						r.Oblige(why == "", "map iteration commutes", fmt.Sprintf("%s: range over map", shortFn(f)), p.PosOf(ins),
							"the order of iteration over a map is random and may reach a result: "+why)
					} else {
						r.Obligations++
						r.Discharged++
					}
				case *ssa.Select:
					r.Fail("no scheduling", shortFn(f), p.PosOf(ins), "select among channels")
				case *ssa.Go:
					r.Fail("no scheduling", shortFn(f), p.PosOf(ins), "starts a goroutine")
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if bx, ok := x.X.Type().Underlying().(*types.Basic); ok && bx.Kind() == types.UnsafePointer && usedValue(x) {
							r.Fail("no addresses", shortFn(f), p.PosOf(ins), "converts an address to an integer")
						}
					}
				case ssa.CallInstruction:
					r.Count("calls examined", "")
					r.Obligations++
					ok := true
					_, ext, _ := g.Callees(x)
					var callee *ssa.Function
					if len(ext) == 1 {
						callee = ext[0]
					}
					pkg, name := extPkg(x, callee)
					v, _ := x.(ssa.Value)
					used := v == nil || usedValue(v)
					if nondetPkgs[pkg] && name != "init" || nondetFuncs[pkg+"."+name] && used {
						ok = false
						r.Fail("no nondeterministic source", fmt.Sprintf("%s: call of %s.%s", shortFn(f), pkg, name), p.PosOf(ins), "the result differs between runs")
					}
					if mapOrderFuncs[pkg+"."+name] && used && !sortedAfter(v) {
						ok = false
						r.Fail("map iteration commutes", fmt.Sprintf("%s: call of %s.%s", shortFn(f), pkg, name), p.PosOf(ins), "the order of iteration over a map is random")
					}
					if (pkg == "fmt" || pkg == "log") && formatsAddress(x) {
						ok = false
						r.Fail("no addresses", fmt.Sprintf("%s: %%p", shortFn(f)), p.PosOf(ins), "formats an address")
					}
					if ok {
						r.Discharged++
					}
				}
			}
		}
	}
	r.AtLeast("functions analysed", 150)
	checkRetainedState(p, g, r, nonInit(p, g), true)
	r.AtLeast("writes to retained state", 1)
}

func formatsAddress(c ssa.CallInstruction) bool {
	for _, a := range c.Common().Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.ExactString(), "%p") {
			return true
		}
	}
	return false
}

// sortedAfter: the only uses of the value are sorting functions.
func sortedAfter(v ssa.Value) bool {
	if v == nil || v.Referrers() == nil {
		return false
	}
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil {
				pkg, name := extPkg(x, f)
				if pkg == "slices" && strings.HasPrefix(name, "Sorted") {
					continue
				}
				if pkg == "slices" && name == "Collect" && sortedSlice(x) {
					continue
				}
			}
			return false
		case *ssa.ChangeType:
			if !sortedAfter(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// sortedSlice: the slice is given to a sorting function, which dominates its other uses.
func sortedSlice(v ssa.Value) bool {
	var sortCall ssa.Instruction
	var uses []ssa.Instruction
	var collect func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	collect = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				collect(x)
			case *ssa.ChangeType:
				collect(x)
			case *ssa.Call:
				pkg, name := extPkg(x, x.Call.StaticCallee())
				if pkg == "sort" || pkg == "slices" && strings.HasPrefix(name, "Sort") {
					if sortCall == nil {
						sortCall = x
					}
					continue
				}
				uses = append(uses, x)
			default:
				uses = append(uses, x)
			}
		}
	}
	collect(v)
	if sortCall == nil {
		return false
	}
	for _, u := range uses {
		if !instrDominates(sortCall, u) {
			return false
		}
	}
	return true
}

func instrDominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, i := range a.Block().Instrs {
			if i == a {
				return true
			}
			if i == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// mapLoopOrderDependent tells why a loop over a map may depend on the order
// of iteration, or "".
func mapLoopOrderDependent(p *Program, g *CallGraph, rg *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			if next != nil {
				return "several loops"
			}
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	// natural loop: blocks that reach head and are dominated by it
	loop := map[*ssa.BasicBlock]bool{}
	for _, b := range head.Parent().Blocks {
		if head.Dominates(b) && reaches(b, head) {
			loop[b] = true
		}
	}
	loop[head] = true
	var key ssa.Value
	for _, ref := range *next.Referrers() {
		if e, ok := ref.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	if p.purity == nil {
		p.purity = newPurity(p, g)
	}
	inLoop := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && loop[i.Block()]
	}
	for b := range loop {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				if b != head {
					continue
				}
				for i, e := range x.Edges {
					if !loop[b.Preds[i]] || e == x {
						continue
					}
					if why := commutativeUpdate(x, e, inLoop, map[ssa.Value]bool{}); why != "" {
						return why
					}
				}
			case *ssa.Store:
				if al, ok := addrRoot(x.Addr).(*ssa.Alloc); ok && inLoop(al) {
					continue
				}
				return "the body stores to memory"
			case *ssa.MapUpdate:
				if key == nil || x.Key != key {
					return "the body updates a map under another key"
				}
				if inLoopPhi(x.Value, head, loop) {
					return "the body updates a map with an accumulated value"
				}
			case *ssa.Return:
				for _, res := range x.Results {
					if _, c := res.(*ssa.Const); !c && inLoop(res) {
						return "the body returns a value that depends on the current element"
					}
				}
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max", "append", "delete", "panic":
						continue
					}
					return "the body calls " + bi.Name()
				}
				if !p.purity.pureCall(x) {
					return "the body calls " + calleeName(x)
				}
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				return "the body has effects"
			}
		}
		// exits other than the end of the iteration
		if b != head {
			for _, s := range b.Succs {
				if loop[s] {
					continue
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						// values of the loop used after an early exit
						for _, op := range ins.Operands(nil) {
							if op != nil && *op != nil && inLoop(*op) && *op != rg {
								return "the loop is left with a value that depends on the current element"
							}
						}
						continue
					}
					for i, e := range phi.Edges {
						if s.Preds[i] == b {
							if _, c := e.(*ssa.Const); !c && inLoop(e) {
								return "the loop is left with a value that depends on the current element"
							}
						}
					}
				}
			}
		}
	}
	return ""
}

func inLoopPhi(v ssa.Value, head *ssa.BasicBlock, loop map[*ssa.BasicBlock]bool) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		if !ok || !loop[i.Block()] || seen[v] {
			return false
		}
		seen[v] = true
		if phi, ok := v.(*ssa.Phi); ok && phi.Block() == head {
			return true
		}
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if visit(s) {
					return true
				}
			}
		}
		return false
	}
	return visit(from)
}

// commutativeUpdate checks that the value e given to an accumulator phi at
// the end of an iteration is the accumulator combined by a commutative and
// associative operation with something that does not depend on it.
func commutativeUpdate(phi *ssa.Phi, e ssa.Value, inLoop func(ssa.Value) bool, seen map[ssa.Value]bool) string {
	if e == phi || seen[e] {
		return ""
	}
	seen[e] = true
	if _, c := e.(*ssa.Const); c {
		return "" // a flag set on some element
	}
	switch x := e.(type) {
	case *ssa.Phi:
		if !inLoop(x) {
			return ""
		}
		for _, y := range x.Edges {
			if why := commutativeUpdate(phi, y, inLoop, seen); why != "" {
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		bt, ok := x.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return "floating point or string accumulation"
		}
		switch x.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if x.X == phi && !dependsOn(x.Y, phi) || x.Y == phi && !dependsOn(x.X, phi) {
				return ""
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			if (bi.Name() == "min" || bi.Name() == "max") && (x.Call.Args[0] == phi || x.Call.Args[1] == phi) {
				return ""
			}
			if bi.Name() == "append" && x.Call.Args[0] == phi {
				if sortedSlice2(phi, x, inLoop) {
					return ""
				}
				return "elements are collected in random order and not sorted"
			}
		}
	}
	return "an accumulated value depends on the order"
}

func sortedSlice2(phi *ssa.Phi, app ssa.Value, inLoop func(ssa.Value) bool) bool {
	// all uses of the phi out of the loop are dominated by a sort of it
	var sortCall ssa.Instruction
	var uses []ssa.Instruction
	var collect func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	collect = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if rv, ok := ref.(ssa.Value); ok && inLoop(rv) {
				continue
			}
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.MakeInterface:
				collect(x)
			case *ssa.ChangeType:
				collect(x)
			case *ssa.Call:
				pkg, name := extPkg(x, x.Call.StaticCallee())
				if pkg == "sort" || pkg == "slices" && strings.HasPrefix(name, "Sort") {
					if sortCall == nil {
						sortCall = x
					}
					continue
				}
				uses = append(uses, x)
			default:
				uses = append(uses, x)
			}
		}
	}
	collect(phi)
	if sortCall == nil {
		return len(uses) == 0
	}
	for _, u := range uses {
		if !instrDominates(sortCall, u) {
			return false
		}
	}
	return true
}

func dependsOn(v, on ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if v == on {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok || seen[v] {
			return false
		}
		seen[v] = true
		for _, op := range i.Operands(nil) {
			if op != nil && *op != nil && visit(*op) {
				return true
			}
		}
		return false
	}
	return visit(v)
}

// purity: functions of the module that write to no memory but their own.
type purity struct {
	p    *Program
	g    *CallGraph
	bad  map[*ssa.Function]bool
	memo map[*ssa.Function]int
}

func newPurity(p *Program, g *CallGraph) *purity {
	return &purity{p: p, g: g, memo: map[*ssa.Function]int{}}
}

var pureExtPkgs = map[string]bool{"unicode": true, "strings": true, "strconv": true, "math": true, "math/bits": true, "unicode/utf8": true, "errors": true, "fmt": true, "path": true, "golang.org/x/text/runes": true, "cmp": true}

func (pu *purity) pureCall(c ssa.CallInstruction) bool {
	mod, ext, opaque := pu.g.Callees(c)
	if len(ext) == 0 && len(mod) == 0 {
		return false
	}
	for _, f := range mod {
		if !pu.pure(f) {
			return false
		}
	}
	for _, f := range ext {
		pkg, name := extPkg(c, f)
		if !pureExtPkgs[pkg] || f.Signature.Recv() != nil && pkg == "strings" || pkg == "fmt" && !strings.HasPrefix(name, "Sprint") && name != "Errorf" {
			return false
		}
	}
	return !opaque || len(mod) > 0
}

func (pu *purity) pure(f *ssa.Function) bool {
	switch pu.memo[f] {
	case 1:
		return true
	case 2:
		return false
	}
	pu.memo[f] = 1
	ok := true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, isAlloc := rootOf(x.Addr).(*ssa.Alloc); !isAlloc {
					if _, isMake := rootOf(x.Addr).(*ssa.MakeSlice); !isMake {
						ok = false
					}
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer:
				ok = false
			case ssa.CallInstruction:
				if bi, isB := x.Common().Value.(*ssa.Builtin); isB {
					switch bi.Name() {
					case "len", "cap", "min", "max", "append":
						continue
					}
					ok = false
					continue
				}
				if !pu.pureCall(x) {
					ok = false
				}
			}
		}
	}
	if !ok {
		pu.memo[f] = 2
	}
	return ok
}

// checkRetainedState verifies every write to state that outlives a call.
func checkRetainedState(p *Program, g *CallGraph, r *Report, live map[*ssa.Function]bool, receivers bool) {
	scope := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		scope[f] = true
	}
	var brk []*types.Named
	if receivers {
		brk = breakerTypes(p)
	}
	st := newSharedTaint(p, g, scope, brk)
	st.Run()
	gs := newGuards(p, g)
	sl := &slicer{p: p, g: g, st: st}
	for _, w := range st.Writes() {
		if !live[w.Fn] {
			continue
		}
		where := fmt.Sprintf("%s: %s of %s", shortFn(w.Fn), w.What, st.Names(w.Labels))
		r.Count("writes to retained state", where)
		inOnce := false
		for k := range gs.At(w.Ins) {
			if strings.HasPrefix(k, "in:") {
				inOnce = true
			}
		}
		var key, val ssa.Value
		switch x := w.Ins.(type) {
		case *ssa.Store:
			val = x.Val
		case *ssa.MapUpdate:
			key, val = x.Key, x.Value
		case *ssa.Call:
			if cal := x.Call.StaticCallee(); cal != nil && recvNamed(cal) == "Map" && len(x.Call.Args) >= 3 {
				key, val = x.Call.Args[1], x.Call.Args[2]
			}
		}
		if val == nil {
			r.Oblige(false, "retained state depends on its key only", where, p.PosOf(w.Ins), "state kept between calls is modified in a way that is neither an initialization nor a cache entry")
			continue
		}
		why := sl.dependsOnCall(val, key)
		if why != "" && inOnce {
			why = "initialized once, from the arguments of the first call: " + why
		}
		r.Oblige(why == "", "retained state depends on its key only", where, p.PosOf(w.Ins), "a result of a later call may depend on this one: "+why)
	}
}

// slicer computes what a value depends on, backwards, within its function.
type slicer struct {
	p  *Program
	g  *CallGraph
	st *sharedTaint
}

// dependsOnCall tells how a value depends on something else than constants
// and the given key, or "".
func (s *slicer) dependsOnCall(v, key ssa.Value) string {
	seen := map[ssa.Value]bool{}
	keyRoots := map[ssa.Value]bool{}
	for k := key; k != nil; {
		keyRoots[k] = true
		switch x := k.(type) {
		case *ssa.MakeInterface:
			k = x.X
			continue
		case *ssa.ChangeType:
			k = x.X
			continue
		case *ssa.BinOp:
			// a text with something constant before or after it is as good a key
			if b, ok := x.Type().Underlying().(*types.Basic); ok && x.Op == token.ADD && b.Info()&(types.IsString|types.IsInteger) != 0 {
				if _, ok := x.X.(*ssa.Const); ok {
					k = x.Y
					continue
				}
				if _, ok := x.Y.(*ssa.Const); ok {
					k = x.X
					continue
				}
			}
		case *ssa.Convert:
			// string([]rune) is not injective on invalid runes; string <-> named string is
			if b1, ok := x.X.Type().Underlying().(*types.Basic); ok {
				if b2, ok := x.Type().Underlying().(*types.Basic); ok && b1.Kind() == b2.Kind() {
					k = x.X
					continue
				}
			}
		}
		break
	}
	var visit func(v ssa.Value) string
	visit = func(v ssa.Value) string {
		if v == nil || seen[v] || keyRoots[v] {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			return ""
		case *ssa.Parameter:
			return "argument " + x.Name() + " of " + shortFn(x.Parent())
		case *ssa.FreeVar:
			return "captured variable " + x.Name()
		case *ssa.MakeMap, *ssa.MakeChan:
			return ""
		case *ssa.Alloc:
			// a fresh object: what is stored in it
			for _, ref := range *x.Referrers() {
				if why := s.storesInto(ref, x, visit); why != "" {
					return why
				}
			}
			return ""
		case *ssa.Phi:
			for _, e := range x.Edges {
				if why := visit(e); why != "" {
					return why
				}
			}
			// the conditions that choose the edge
			for _, pr := range x.Block().Preds {
				for b := pr; b != nil; b = b.Idom() {
					if b.Dominates(x.Block()) && b != pr {
						if c := ifCond(b); c != nil {
							if why := visit(c); why != "" {
								return why
							}
						}
						break
					}
					if c := ifCond(b); c != nil {
						if why := visit(c); why != "" {
							return why
						}
					}
				}
			}
			return ""
		case ssa.Instruction:
			for _, op := range x.Operands(nil) {
				if op != nil && *op != nil {
					if why := visit(*op); why != "" {
						return why
					}
				}
			}
			return ""
		}
		return "unresolved value " + v.Name()
	}
	return visit(v)
}

func ifCond(b *ssa.BasicBlock) ssa.Value {
	if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		return i.Cond
	}
	return nil
}

func (s *slicer) storesInto(ref ssa.Instruction, al ssa.Value, visit func(ssa.Value) string) string {
	switch y := ref.(type) {
	case *ssa.Store:
		if y.Addr == al {
			return visit(y.Val)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		for _, r2 := range *y.(ssa.Value).Referrers() {
			if why := s.storesInto(r2, y.(ssa.Value), visit); why != "" {
				return why
			}
		}
	case ssa.CallInstruction:
		for _, a := range y.Common().Args {
			if a != al {
				if why := visit(a); why != "" {
					return why
				}
			}
		}
	case *ssa.MakeClosure:
		// the closure may store what it is given
		fn := y.Fn.(*ssa.Function)
		for i, b := range y.Bindings {
			if b == al {
				for _, r2 := range *fn.FreeVars[i].Referrers() {
					if why := s.storesInto(r2, fn.FreeVars[i], visit); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

// addrRoot strips the fields and elements of an address (not its loads).
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}
