package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/fredbi/go-typeset"

// Program is the type-checked program under analysis and its SSA form.
type Program struct {
	Repo    string
	Pkgs    map[string]*packages.Package // by path relative to the module ("linebreak", "terminal/ansi")
	SSA     *ssa.Program
	SSAPkgs map[string]*ssa.Package
	Funcs   []*ssa.Function // every function of the module with a body, anonymous ones included
	inMod   map[*ssa.Package]bool
	purity  *purity
}

// loadProgram type-checks every package of the module with the flags of its
// build, and builds the SSA form of the whole program. Any error is fatal.
func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:   repo,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the module does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{
		Repo: repo, Pkgs: map[string]*packages.Package{}, SSA: prog,
		SSAPkgs: map[string]*ssa.Package{}, inMod: map[*ssa.Package]bool{},
	}
	for i, pk := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		p.Pkgs[rel] = pk
		if ssaPkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for package %s", pk.PkgPath)
		}
		p.SSAPkgs[rel] = ssaPkgs[i]
		p.inMod[ssaPkgs[i]] = true
	}
	all := ssautil.AllFunctions(prog)
	dynamic := dynamicMethods(p)
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || unusedWrapper(f, dynamic) {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for f := range all {
		if p.InModule(f) {
			add(f)
		}
	}
	// methods and functions not reachable are part of the module all the same
	for _, sp := range p.SSAPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && p.InModule(f) {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

// InModule tells if the function is defined in the module (closures and
// synthetic wrappers of module types included).
func (p *Program) InModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return p.inMod[g.Pkg]
		}
		if o := g.Object(); o != nil && o.Pkg() != nil {
			return p.inModPath(o.Pkg().Path())
		}
		if g.Parent() == nil {
			return false
		}
	}
	return false
}

func (p *Program) inModPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// Pos renders the position of an instruction or function relative to the repository.
func (p *Program) pos(pos interface{ IsValid() bool }, raw string) string {
	return strings.TrimPrefix(raw, p.Repo+"/")
}

func (p *Program) PosOf(i ssa.Instruction) string {
	pos := i.Pos()
	if !pos.IsValid() {
		// nearest instruction with a position in the block, else the function
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				pos = j.Pos()
			}
			if j == i && pos.IsValid() {
				break
			}
		}
	}
	if !pos.IsValid() {
		pos = i.Parent().Pos()
	}
	s := p.SSA.Fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(s.Filename, p.Repo+"/"), s.Line)
}

func (p *Program) PosOfFunc(f *ssa.Function) string {
	s := p.SSA.Fset.Position(f.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(s.Filename, p.Repo+"/"), s.Line)
}

func shortFn(f *ssa.Function) string {
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// Func looks up a package-level function by package (relative path) and name.
func (p *Program) Func(pkg, name string) (*ssa.Function, error) {
	sp := p.SSAPkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s not found", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		return nil, fmt.Errorf("function %s.%s not found", pkg, name)
	}
	return f, nil
}

// Method looks up a method of *T (or T).
func (p *Program) Method(pkg, typ, name string) (*ssa.Function, error) {
	sp := p.SSAPkgs[pkg]
	if sp == nil {
		return nil, fmt.Errorf("package %s not found", pkg)
	}
	t := sp.Type(typ)
	if t == nil {
		return nil, fmt.Errorf("type %s.%s not found", pkg, typ)
	}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.SSA.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.SSA.MethodValue(ms.At(i))
				if f != nil && f.Blocks != nil {
					return f, nil
				}
			}
		}
	}
	return nil, fmt.Errorf("method %s.%s.%s not found", pkg, typ, name)
}

// dynamicMethods are the names of the unexported methods of interfaces.
func dynamicMethods(p *Program) map[string]bool {
	out := map[string]bool{}
	for _, pk := range p.Pkgs {
		for _, tv := range pk.TypesInfo.Types {
			if it, ok := tv.Type.Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					if m := it.Method(i); !m.Exported() {
						out[m.Name()] = true
					}
				}
			}
		}
	}
	return out
}

// unusedWrapper tells apart the methods promoted from embedded fields that
// nothing can call: they are not exported, and of no interface.
func unusedWrapper(f *ssa.Function, dynamic map[string]bool) bool {
	if !strings.HasPrefix(f.Synthetic, "wrapper for") || token.IsExported(f.Name()) || dynamic[f.Name()] {
		return false
	}
	return f.Referrers() == nil || len(*f.Referrers()) == 0
}
