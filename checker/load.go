package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "sigs.k8s.io/controller-tools"

// World is the type-checked, SSA-built program under analysis: every non-test
// package of the repository, with its dependencies' types.
type World struct {
	ranges *rangeCover // which ranges over maps are interpreted, if recorded
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // repository packages
	All    map[string]*packages.Package
	Prog   *ssa.Program
	SSA    map[string]*ssa.Package
	// Funcs are all functions with a body declared in the repository, closures included.
	Funcs []*ssa.Function
	built map[*ssa.Package]bool
	mu    sync.Mutex
	flow  *Flow
}

func loadWorld(dir string) (*World, error) {
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Env: os.Environ(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	w := &World{Dir: dir, All: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	var bad []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		w.All[p.PkgPath] = p
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
			}
		}
	})
	if len(bad) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(bad, "; "))
	}
	for _, p := range pkgs {
		if strings.HasSuffix(p.PkgPath, "/testutils") {
			continue // test helpers only
		}
		w.Pkgs = append(w.Pkgs, p)
		w.Fset = p.Fset
	}
	if len(w.Pkgs) < 15 {
		return nil, fmt.Errorf("only %d repository packages were loaded", len(w.Pkgs))
	}
	sort.Slice(w.Pkgs, func(i, j int) bool { return w.Pkgs[i].PkgPath < w.Pkgs[j].PkgPath })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	for _, sp := range prog.AllPackages() {
		w.SSA[sp.Pkg.Path()] = sp
	}
	for _, p := range w.Pkgs {
		sp := w.SSA[p.PkgPath]
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		sp.Build()
		w.built[sp] = true
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range w.Pkgs {
		sp := w.SSA[p.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg != nil && w.built[f.Pkg] {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(w.Funcs, func(i, j int) bool {
		if a, b := w.Funcs[i].String(), w.Funcs[j].String(); a != b {
			return a < b
		}
		return w.Funcs[i].Pos() < w.Funcs[j].Pos()
	})
	return w, nil
}

// buildDep builds the SSA of a dependency package on demand.
func (w *World) buildDep(path string) *ssa.Package {
	w.mu.Lock()
	defer w.mu.Unlock()
	sp := w.SSA[path]
	if sp != nil && !w.built[sp] {
		sp.Build()
		w.built[sp] = true
	}
	return sp
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Dir, ps.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}

func isRepoPath(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

// pkg returns a repository package by its path below the module root, e.g. "pkg/crd".
func (w *World) pkg(rel string) *packages.Package {
	p := w.All[modPath+"/"+rel]
	if p == nil {
		fatalf("anchor package %s not found", rel)
	}
	return p
}

func (w *World) ssaPkg(rel string) *ssa.Package {
	sp := w.SSA[modPath+"/"+rel]
	if sp == nil {
		fatalf("anchor package %s not found", rel)
	}
	return sp
}

// typ returns a named type declared in a repository package.
func (w *World) typ(rel, name string) types.Type {
	o := w.pkg(rel).Types.Scope().Lookup(name)
	if o == nil {
		fatalf("anchor type %s.%s not found", rel, name)
	}
	return o.Type()
}

func (w *World) depTyp(path, name string) types.Type {
	p := w.All[path]
	if p == nil {
		fatalf("dependency package %s not found", path)
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		fatalf("dependency type %s.%s not found", path, name)
	}
	return o.Type()
}

// fn returns a package-level function of a repository package.
func (w *World) fn(rel, name string) *ssa.Function {
	f := w.ssaPkg(rel).Func(name)
	if f == nil {
		fatalf("anchor function %s.%s not found", rel, name)
	}
	return f
}

// method returns the method of a named repository type (value or pointer receiver).
func (w *World) method(rel, typ, name string) *ssa.Function {
	f := w.methodOf(w.typ(rel, typ), name)
	if f == nil {
		fatalf("anchor method %s.%s.%s not found", rel, typ, name)
	}
	return f
}

func (w *World) methodOf(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := w.Prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := w.Prog.MethodValue(ms.At(i))
				if f != nil && f.Synthetic == "" {
					return f
				}
				if f != nil && tt != t {
					return f
				}
			}
		}
	}
	return nil
}

func fullName(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if o, ok := f.Object().(*types.Func); ok {
		return o.Origin().FullName()
	}
	return f.String()
}

func relName(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// calleeObj resolves the called function object (static or interface method).
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.Origin()
		}
	}
	return nil
}

func calleeName(c *ssa.CallCommon) string {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if o := calleeObj(c); o != nil {
		return o.FullName()
	}
	if f := c.StaticCallee(); f != nil {
		return f.String()
	}
	return ""
}

// eachInstr visits all instructions of a function.
func eachInstr(f *ssa.Function, visit func(ssa.Instruction)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			visit(in)
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		return strings.TrimPrefix(p.Path(), modPath+"/")
	})
}

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// enclosing returns the outermost declared function of f.
func enclosing(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

func fileOf(w *World, p *packages.Package, pos token.Pos) *ast.File {
	for _, f := range p.Syntax {
		if f.FileStart <= pos && pos < f.FileEnd {
			return f
		}
	}
	return nil
}
