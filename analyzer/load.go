package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aceld/zinx"

// Program is the type-checked, SSA-built repository.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // every package of the repository
	SSA   *ssa.Program
	ByPkg map[string]*ssa.Package // by import path relative to the module ("znet")

	AllFuncs []*ssa.Function // every source function of library packages, closures included
	LibTypes []types.Type    // named types declared in library packages
	callers  map[*ssa.Function]int
	addrUsed map[*ssa.Function]bool
	implMemo map[string][]*ssa.Function
}

// isLib tells whether a package (relative path) belongs to the library, as
// opposed to examples and demo applications.
func isLib(rel string) bool {
	return !strings.HasPrefix(rel, "examples") && !strings.HasPrefix(rel, "zinx_app_demo") && rel != "logo"
}

func relPkg(path string) string {
	if path == modPath {
		return "."
	}
	return strings.TrimPrefix(path, modPath+"/")
}

func inRepo(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

func load(dir string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	env = append(env, "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 && isLib(relPkg(p.PkgPath)) {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{Dir: dir, Pkgs: ps, SSA: prog, Fset: prog.Fset, ByPkg: map[string]*ssa.Package{},
		callers: map[*ssa.Function]int{}, addrUsed: map[*ssa.Function]bool{}, implMemo: map[string][]*ssa.Function{}}
	for _, sp := range sps {
		if sp != nil {
			P.ByPkg[relPkg(sp.Pkg.Path())] = sp
		}
	}
	rels := []string{}
	for rel := range P.ByPkg {
		rels = append(rels, rel)
	}
	sort.Strings(rels)
	for _, rel := range rels {
		sp := P.ByPkg[rel]
		if strings.HasPrefix(rel, "examples") {
			continue
		}
		names := []string{}
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				P.addFunc(m)
			case *ssa.Type:
				T := m.Type()
				if isLib(rel) {
					P.LibTypes = append(P.LibTypes, T)
				}
				for _, t := range []types.Type{T, types.NewPointer(T)} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							P.addFunc(f)
						}
					}
				}
			}
		}
	}
	P.dedupe()
	for _, f := range P.AllFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil {
						P.callers[sc]++
						callee = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == callee {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						P.addrUsed[g] = true
					}
				}
			}
		}
	}
	return P, nil
}

func (P *Program) addFunc(f *ssa.Function) {
	P.AllFuncs = append(P.AllFuncs, f)
	for _, a := range f.AnonFuncs {
		P.addFunc(a)
	}
}

func (P *Program) dedupe() {
	seen := map[*ssa.Function]bool{}
	out := P.AllFuncs[:0]
	for _, f := range P.AllFuncs {
		if !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			out = append(out, f)
		}
	}
	P.AllFuncs = out
}

func fnRel(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Pkg != nil {
		return relPkg(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return relPkg(f.Object().Pkg().Path())
	}
	if f.Parent() != nil {
		return fnRel(f.Parent())
	}
	return ""
}

func fnInRepo(f *ssa.Function) bool {
	if f.Pkg != nil {
		return inRepo(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return inRepo(f.Object().Pkg().Path())
	}
	if f.Parent() != nil {
		return fnInRepo(f.Parent())
	}
	return false
}

// Method looks a method up by package, type and name, through value or pointer
// receiver. Nil if there is none.
func (P *Program) Method(rel, typ, name string) *ssa.Function {
	T := P.Type(rel, typ)
	if T == nil {
		return nil
	}
	return P.methodOf(T, name)
}

func (P *Program) methodOf(T types.Type, name string) *ssa.Function {
	if _, ok := T.Underlying().(*types.Interface); ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(T), T} {
		if _, isptr := T.(*types.Pointer); isptr && t != T {
			continue
		}
		ms := P.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				f := P.SSA.MethodValue(s)
				if f != nil && len(f.Blocks) > 0 {
					return f
				}
			}
		}
	}
	return nil
}

func (P *Program) Func(rel, name string) *ssa.Function {
	sp := P.ByPkg[rel]
	if sp == nil {
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (P *Program) Type(rel, name string) *types.Named {
	sp := P.ByPkg[rel]
	if sp == nil {
		return nil
	}
	t, _ := sp.Members[name].(*ssa.Type)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

func (P *Program) Iface(name string) *types.Interface {
	T := P.Type("ziface", name)
	if T == nil {
		return nil
	}
	i, _ := T.Underlying().(*types.Interface)
	return i
}

// Implementers returns the library types (as method functions) implementing an
// interface method.
func (P *Program) Implementers(it *types.Interface, m *types.Func) []*ssa.Function {
	key := m.FullName() + "|" + it.String()
	if r, ok := P.implMemo[key]; ok {
		return r
	}
	var out []*ssa.Function
	for _, T := range P.LibTypes {
		if _, ok := T.Underlying().(*types.Interface); ok {
			continue
		}
		if n, ok := T.(*types.Named); ok && n.TypeParams().Len() > 0 {
			continue
		}
		for _, t := range []types.Type{T, types.NewPointer(T)} {
			if types.Implements(t, it) {
				sel := P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel != nil {
					if f := P.SSA.MethodValue(sel); f != nil && len(f.Blocks) > 0 {
						out = append(out, f)
					}
				}
				break
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	P.implMemo[key] = out
	return out
}

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	rel, err := filepath.Rel(P.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Roots lists the functions of a package that code outside (or another
// goroutine) can start: exported functions and methods, functions used as
// values, and functions nothing calls directly.
func (P *Program) Roots(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.AllFuncs {
		r := fnRel(f)
		ok := len(rels) == 0 && isLib(r)
		for _, x := range rels {
			if x == r {
				ok = true
			}
		}
		if !ok || f.Parent() != nil {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		if P.callers[f] == 0 || P.addrUsed[f] || token.IsExported(f.Name()) {
			out = append(out, f)
		}
	}
	return out
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.String(), modPath+"/", "")
}

// structOf returns the struct type behind a (pointer to a) named struct.
func structOf(t types.Type) (*types.Struct, *types.Named) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	s, _ := t.Underlying().(*types.Struct)
	return s, n
}
