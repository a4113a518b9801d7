package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "abstract interpretation of the generator over a grammar of types, type-checking and alias analysis of the code it emits", "type shapes up to three containers deep; each container nil, empty or filled",
		"For every type shape the generator is interpreted on a type-checked description of the declaration, which gives the text it emits. Either it records an error, or that text must type-check with the declaration, declare the copy methods, and, interpreted on every combination of nil, empty and filled containers, give a copy equal to the original that shares no memory with it and leaves it unchanged. Which types get methods is compared with the documented meaning of every combination of the selecting markers.", checkC20)
}

// deepEnv interprets the deepcopy generator on one model package.
type deepEnv struct {
	w       *World
	m       *M
	gen     types.Type
	ctxT    types.Type
	maxStep int // bound on the interpretation, if any
}

// deepDeps are the model packages that model packages import.
var deepDeps = map[string]*types.Package{}

type deepImporter struct{ w *World }

func (d deepImporter) Import(p string) (*types.Package, error) {
	if a := deepDeps[p]; a != nil {
		return a, nil
	}
	if a := d.w.All[p]; a != nil {
		return a.Types, nil
	}
	return nil, fmt.Errorf("package %s is not loaded", p)
}

func newDeepEnv(w *World) *deepEnv {
	e := &deepEnv{w: w, m: inited(w), ctxT: w.typ("pkg/genall", "GenerationContext"), gen: w.typ("pkg/deepcopy", "Generator")}
	m := e.m
	m.maxStep = 1 << 40
	textHooks(m)
	m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("errors")
		return []Out{{st: st}}, true
	}
	nothing := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	m.hooks["(*"+modPath+"/pkg/loader.TypeChecker).Check"] = nothing
	m.hooks["(*"+modPath+"/pkg/loader.Package).NeedTypesInfo"] = nothing
	m.hooks["(*"+modPath+"/pkg/loader.Package).Imports"] = func(st *State, c *Call) ([]Out, bool) {
		return one(st, m.mapOf(st, "imports", c.res.At(0).Type())), true
	}
	m.hooks["go/format.Source"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("formatted")
		st.note("source", c.args[0])
		if st.notes["badformat"] != nil {
			return []Out{{st: st, res: []*Val{nilVal(), errVal("format")}}}, true
		}
		return []Out{{st: st, res: []*Val{bytesVal(strVal("formatted:" + c.args[0].String())), nilVal()}}}, true
	}
	m.hooks["("+modPath+"/pkg/genall.OutputRule).Open"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("opened")
		st.note("file", c.args[len(c.args)-1])
		return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), &Sym{"file", true}), nilVal()}}}, true
	}
	wr := func(st *State, c *Call) ([]Out, bool) {
		if len(c.args[0].refs) > 0 && c.args[0].refs[0].t != nil {
			return nil, false // a buffer
		}
		st.count("written")
		st.note("content", c.args[len(c.args)-1])
		return []Out{{st: st, res: []*Val{m.lenOf(st, c.args[len(c.args)-1], types.NewSlice(types.Typ[types.Byte])), nilVal()}}}, true
	}
	m.hooks["(io.Writer).Write"], m.hooks["(io.WriteCloser).Write"] = wr, wr
	m.hooks["(io.Closer).Close"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("closed")
		return one(st, nilVal()), true
	}
	m.hooks["("+modPath+"/pkg/genall.InputRule).OpenForRead"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), &Sym{"header", true}), nilVal()}}}, true
	}
	m.hooks["io.ReadAll"] = func(st *State, c *Call) ([]Out, bool) {
		h := st.notes["headertext"]
		if h == nil {
			return nil, false
		}
		return []Out{{st: st, res: []*Val{bytesVal(h), nilVal()}}}, true
	}
	return e
}

// modelPkg is a package of the type grammar.
type modelPkg struct {
	src  string
	path string
	pkg  *types.Package
	spec []*ast.TypeSpec
	err  error
}

func (e *deepEnv) typeCheck(path string, srcs ...string) (*types.Package, []*ast.File, *types.Info, error) {
	fset := token.NewFileSet()
	var fs []*ast.File
	for i, s := range srcs {
		f, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), s, parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, nil, err
		}
		fs = append(fs, f)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
	p, err := (&types.Config{Importer: deepImporter{e.w}, Sizes: types.SizesFor("gc", "amd64")}).Check(path, fset, fs, info)
	return p, fs, info, err
}

type deepResult struct {
	text    string
	errors  bool
	nothing bool
	unknown string
	st      *State
}

// generate interprets the generator on a model package; marks gives the markers of a type by name.
func (e *deepEnv) generate(pkg *types.Package, files []*ast.File, info *types.Info, pkgMarks []any, marks func(string) []any, pre func(st *State), gen *Val) []deepResult {
	w := e.w
	m := e.m.fork()
	m.maxStep = 1 << 40
	if e.maxStep > 0 {
		m.maxStep, m.funcsIn = e.maxStep, e.m.funcsIn
	}
	m.splitModels = true
	m.maxRec = 20
	for k, h := range e.m.hooks {
		m.hooks[k] = h
	}
	h := newHostTypes(m)
	st := newState()
	if pre != nil {
		pre(st)
	}
	infoT := w.typ("pkg/markers", "TypeInfo")
	mvT := w.typ("pkg/markers", "MarkerValues")
	mv := func(id string, kvs []any) *Val {
		var out []any
		for i := 0; i+1 < len(kvs); i += 2 {
			out = append(out, strVal(kvs[i].(string)), m.sliceOf(st, fmt.Sprintf("%s.%d", id, i), anyIface, kvs[i+1].(*Val)))
		}
		return m.mapOf(st, id, mvT, out...)
	}
	lp := w.typ("pkg/loader", "Package")
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	rp := m.cellOf(st, "raw", raw, structOf(raw, "Name", strVal(pkg.Name()), "PkgPath", strVal(pkg.Path()), "GoFiles", m.sliceOf(st, "gofiles", types.Typ[types.String], strVal("/src/v1/types.go")), "Dir", strVal("/src/v1"), "Types", h.ptr(pkg),
		"TypesInfo", m.cellOf(st, "typesinfo", w.depTyp("go/types", "Info"), nil)))
	root := m.cellOf(st, "root", lp, structOf(lp, "Package", rp))
	identT, specT := w.depTyp("go/ast", "Ident"), w.depTyp("go/ast", "TypeSpec")
	var infos []*Val
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				n := ts.Name.Name
				id := m.cellOf(st, "ident."+n, identT, structOf(identT, "Name", strVal(n)))
				h.of[id.refs[0].obj] = info.Defs[ts.Name].Type()
				sp := m.cellOf(st, "spec."+n, specT, structOf(specT, "Name", id))
				infos = append(infos, m.cellOf(st, "info."+n, infoT, structOf(infoT, "Name", strVal(n), "Markers", mv("marks."+n, marks(n)), "RawSpec", sp)))
			}
		}
	}
	pm := mv("pkgmarks", pkgMarks)
	m.hooks[modPath+"/pkg/markers.PackageMarkers"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{pm, nilVal()}}}, true
	}
	m.hooks[modPath+"/pkg/markers.EachType"] = func(st *State, c *Call) ([]Out, bool) {
		outs := []Out{{st: st}}
		sig := c.static.Signature.Params().At(2).Type().Underlying().(*types.Signature)
		for _, i := range infos {
			var next []Out
			for _, o := range outs {
				if o.panics != "" {
					next = append(next, o)
					continue
				}
				for _, r := range c.frame.callVal(o.st, c.args[2], []*Val{i}, sig, c.site) {
					next = append(next, Out{st: r.st, panics: r.panics})
				}
			}
			outs = next
		}
		for i := range outs {
			if outs[i].panics == "" {
				outs[i].res = []*Val{nilVal()}
			}
		}
		return outs, true
	}
	rt := fieldType(e.ctxT, "Roots")
	et, _ := arrayElem(rt)
	ctx := m.cellOf(st, "ctx", e.ctxT, structOf(e.ctxT, "Roots", m.sliceOf(st, "roots", et, root),
		"Collector", unkNonNil(fieldType(e.ctxT, "Collector"), &Sym{"collector", true}), "OutputRule", unkNonNil(fieldType(e.ctxT, "OutputRule"), &Sym{"out", true}),
		"InputRule", unkNonNil(fieldType(e.ctxT, "InputRule"), &Sym{"in", true}), "Checker", unkNonNil(fieldType(e.ctxT, "Checker"), &Sym{"checker", true})))
	fn := w.methodOf(e.gen, "Generate")
	if gen == nil {
		gen = zeroVal(e.gen)
	}
	if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
		gen = m.cellOf(st, "gen", e.gen, gen)
	}
	var rs []deepResult
	for _, o := range m.interp(st, fn, gen, ctx) {
		r := deepResult{st: o.st, errors: o.st.notes["errors"] != nil || o.panics == "" && errOf(o) != "nil"}
		src := o.st.notes["source"]
		switch {
		case o.panics != "":
			r.unknown = "panics: " + o.panics
		case src == nil:
			r.nothing = true
		default:
			t, ok := bytesText(src)
			if !ok {
				r.unknown = "the generated text is not determined: " + src.String()
			}
			r.text = t
		}
		if len(m.over) > 0 && r.unknown == "" {
			r.unknown = "the analysis gives up in " + m.over[0]
		}
		rs = append(rs, r)
	}
	return rs
}

const deepDecls = `
type Shallow struct { A int; B string }
type Deep struct { P *int; S []string; M map[string]*Inner; E Empty }
type Inner struct { L []int }
type Empty struct{}
type Private struct { p *int; l []string }
type Nested struct { S Shallow; P Private }
type NamedString string
type NamedSlice []string
type NamedMap map[string]Inner
type NamedPtr *int
type NamedPtrDeep *Deep
type NamedPtrVal *ManualVal
type NamedPtrManual *ManualPtr
type NamedPtrSlice *[]*int
type RecSlice []RecSlice
type RecMap map[string]RecMap
type RecPtrs []*RecPtrs
type AliasInner = Inner
type AliasInt = int
type AliasSlice = []*int
type AliasMap = map[string]AliasInner
type AliasPtr = *Deep
type AliasManual = ManualPtr
type AliasManualPtr = *ManualPtr
type ManualPtr struct { P *int }
func (in *ManualPtr) DeepCopy() *ManualPtr { if in == nil { return nil }; out := new(ManualPtr); if in.P != nil { out.P = new(int); *out.P = *in.P }; return out }
type ManualVal struct { P *int }
func (in ManualVal) DeepCopy() ManualVal { out := ManualVal{}; if in.P != nil { out.P = new(int); *out.P = *in.P }; return out }
type ManualInto struct { P *int }
func (in *ManualInto) DeepCopyInto(out *ManualInto) { *out = *in; if in.P != nil { out.P = new(int); *out.P = *in.P } }
type ManualSlice []*int
func (in ManualSlice) DeepCopy() ManualSlice { if in == nil { return nil }; out := make(ManualSlice, len(in)); for i := range in { if in[i] != nil { out[i] = new(int); *out[i] = *in[i] } }; return out }
type Iface interface{ F() }
`

const deepDeps_ = `
type Dep struct { P *int; L []string }
func (in *Dep) DeepCopyInto(out *Dep) { *out = *in; if in.P != nil { out.P = new(int); *out.P = *in.P }; if in.L != nil { out.L = make([]string, len(in.L)); copy(out.L, in.L) } }
func (in *Dep) DeepCopy() *Dep { if in == nil { return nil }; out := new(Dep); in.DeepCopyInto(out); return out }
type Slice []*int
func (in Slice) DeepCopyInto(out *Slice) { *out = make(Slice, len(in)); for i := range in { if in[i] != nil { (*out)[i] = new(int); *(*out)[i] = *in[i] } } }
func (in Slice) DeepCopy() Slice { if in == nil { return nil }; out := new(Slice); in.DeepCopyInto(out); return *out }
type Name string
type Plain struct { A int; B string }
`

// deepShape is one type of the grammar.
type deepShape struct {
	expr string
	// mustCopy: the generator has to copy it; mustFail: it has to report it.
	mustCopy, mustFail bool
}

func deepShapes(thorough bool) []deepShape {
	leaves := []deepShape{{"int", true, false}, {"string", true, false}, {"bool", true, false}, {"float64", true, false}, {"byte", true, false}, {"NamedString", true, false}, {"AliasInt", true, false},
		{"Shallow", true, false}, {"Deep", true, false}, {"Empty", true, false}, {"Private", true, false}, {"Nested", true, false}, {"AliasInner", true, false}, {"NamedSlice", true, false}, {"NamedMap", true, false}, {"NamedPtr", false, false}, {"NamedPtrDeep", false, false}, {"NamedPtrVal", false, false}, {"NamedPtrManual", false, false}, {"NamedPtrSlice", false, false},
		{"RecSlice", false, false}, {"RecMap", false, false}, {"RecPtrs", false, false},
		{"ManualPtr", true, false}, {"AliasSlice", true, false}, {"AliasMap", true, false}, {"AliasPtr", true, false}, {"AliasManual", true, false}, {"AliasManualPtr", true, false}, {"ManualVal", false, false}, {"ManualInto", true, false}, {"ManualSlice", false, false},
		{"Iface", false, true}, {"interface{}", false, true}, {"error", false, true}, {"func()", false, true}, {"chan int", false, true}, {"[2]*int", false, true}, {"unsafe.Pointer", false, true},
		{"[2]int", false, false}, {"struct{ P *int }", false, false}}
	var r []deepShape
	wraps := []string{"*%s", "[]%s", "map[string]%s", "map[NamedString]%s"}
	level := leaves
	r = append(r, level...)
	depth := 2
	if thorough {
		depth = 3
	}
	for d := 0; d < depth; d++ {
		var next []deepShape
		for i, l := range level {
			for j, wr := range wraps {
				if j == 3 && (d > 0 || i > 3) {
					continue
				}
				if d == 1 && !strings.Contains("int Shallow Deep NamedSlice ManualPtr Iface", strings.TrimLeft(strings.TrimPrefix(l.expr, "map[string]"), "*[]")) {
					continue
				}
				next = append(next, deepShape{fmt.Sprintf(wr, l.expr), l.mustCopy, l.mustFail})
			}
		}
		r = append(r, next...)
		level = next
	}
	return r
}

func checkC20(c *Check) {
	w := c.W
	e := newDeepEnv(w)
	types_ := deepShapes(c.Tier == "thorough")
	off := ifaceOf(types.Typ[types.Bool], boolVal(false))
	ifaceOff := func(n string) []any {
		if n == "Iface" {
			return []any{"kubebuilder:object:generate", off}
		}
		return nil
	}
	on := ifaceOf(types.Typ[types.Bool], boolVal(true))
	pos := w.pos(w.methodOf(e.gen, "Generate").Pos())
	e.checkSelection(c, pos)
	for _, k := range []string{"a", "b"} {
		if deepDeps["dep.example/"+k+"/v1"] != nil {
			continue
		}
		dp, dfs, dinfo, err := e.typeCheck("dep.example/"+k+"/v1", "package v1\n"+deepDeps_)
		if err != nil {
			fatalf("model package: %v", err)
		}
		deepDeps[dp.Path()] = dp
		sp := w.Prog.CreatePackage(dp, dfs, dinfo, true)
		sp.Build()
	}
	pkgOn := []any{"kubebuilder:object:generate", on}
	objDecl := func(n string) []any {
		if n == "T" {
			return []any{"kubebuilder:object:root", on}
		}
		return ifaceOff(n)
	}
	for i, decl := range []string{
		"type T struct { A int; P *Deep }",
		"type T struct { A int }",
		"type T []Deep",
		"type T map[string]*Deep",
		"type T struct { A av1.Dep; B bv1.Dep; C []av1.Dep; D map[string]bv1.Dep; E *av1.Dep; F []*bv1.Dep }",
		"type T struct { A av1.Slice; B *bv1.Slice; C []av1.Slice; D map[string]bv1.Slice }",
		"type T struct { A map[av1.Name]bv1.Name; B *av1.Name; C map[string]*bv1.Dep; D []bv1.Name }",
		"type T struct { A *av1.Plain; B []bv1.Plain; C map[string]av1.Plain }",
		"type T struct { Deep; *Inner; av1.Dep }",
		"type T struct { ManualPtr; ManualInto }",
		"type T struct { A int; b *Deep; c []int; d map[string]av1.Dep }",
		"type T struct { N *T; L []T; M map[string]*T }",
	} {
		head := "package v1\nimport (\"unsafe\"; \"k8s.io/apimachinery/pkg/runtime/schema\"; av1 \"dep.example/a/v1\"; bv1 \"dep.example/b/v1\")\nvar _ unsafe.Pointer\nvar _ av1.Dep\nvar _ bv1.Dep\n"
		recv := "*T"
		if !strings.Contains(decl, "struct") {
			recv = "T"
		}
		src := head + deepDecls + decl + "\nfunc (in " + recv + ") GetObjectKind() schema.ObjectKind { return nil }\n"
		pkg, files, info, err := e.typeCheck(fmt.Sprintf("gen.example/obj%d", i), src)
		if err != nil {
			fatalf("model package %q: %v", decl, err)
		}
		for _, r := range e.generate(pkg, files, info, pkgOn, objDecl, nil, nil) {
			if c.ob(r.unknown == "" && !r.errors, "generates", decl, pos, "%s: %s", decl, r.unknown+" reports an error") {
				e.checkCode(c, decl, pos, src, r.text)
			}
		}
	}
	for i, s := range types_ {
		for _, kind := range []string{"field", "named"} {
			decl := fmt.Sprintf("type T struct { A int; F %s; Z string }", s.expr)
			if kind == "named" {
				if !strings.ContainsAny(s.expr[:1], "*[m") {
					continue
				}
				decl = "type T " + s.expr
			}
			key := decl
			src := "package v1\nimport \"unsafe\"\nvar _ unsafe.Pointer\n" + deepDecls + decl
			pkg, files, info, err := e.typeCheck(fmt.Sprintf("gen.example/case%d%s", i, kind), src)
			if err != nil {
				fatalf("model package %q: %v", decl, err)
			}
			for _, r := range e.generate(pkg, files, info, pkgOn, ifaceOff, nil, nil) {
				if !c.ob(r.unknown == "", "generates", key, pos, "%s: %s", key, r.unknown) {
					continue
				}
				if r.errors {
					c.ob(!s.mustCopy, "copies", key, pos, "%s: is reported as an error although it can be copied", key)
					c.ob(true, "reported", key, pos, "")
					continue
				}
				if strings.HasPrefix(decl, "type T *") {
					// such a type can have no methods, but the rest of the package has to be right
					e.checkCode(c, key, pos, src, r.text)
					continue
				}
				c.ob(!s.mustFail, "reported", key, pos, "%s: has a part that cannot be copied, but is not reported", key)
				if s.mustFail {
					continue
				}
				e.checkCode(c, key, pos, src, r.text)
			}
		}
	}
}

// checkSelection compares the types that get methods with the documented meaning of the markers.
func (e *deepEnv) checkSelection(c *Check, pos string) {
	w := e.w
	boolM := func(b bool) *Val { return ifaceOf(types.Typ[types.Bool], boolVal(b)) }
	rawT := w.typ("pkg/markers", "RawArguments")
	raw := func(s string) *Val { return ifaceOf(rawT, bytesVal(strVal(s))) }
	str := func(s string) *Val { return ifaceOf(types.Typ[types.String], strVal(s)) }
	const obj = "k8s.io/apimachinery/pkg/runtime.Object"
	type sel struct {
		name string
		m    []any
		on   int // 1 yes, -1 no, 0 does not say
	}
	pkgs := []sel{{"none", nil, 0}, {"generate=true", []any{"kubebuilder:object:generate", boolM(true)}, 1}, {"generate=false", []any{"kubebuilder:object:generate", boolM(false)}, -1},
		{"deepcopy-gen=package", []any{"k8s:deepcopy-gen", raw("package")}, 1}, {"deepcopy-gen=package,register", []any{"k8s:deepcopy-gen", raw("package,register")}, 1},
		{"deepcopy-gen=other", []any{"k8s:deepcopy-gen", raw("other")}, -1}}
	tys := []sel{{"none", nil, 0}, {"generate=true", []any{"kubebuilder:object:generate", boolM(true)}, 1}, {"generate=false", []any{"kubebuilder:object:generate", boolM(false)}, -1},
		{"deepcopy-gen=true", []any{"k8s:deepcopy-gen", raw("true")}, 1}, {"deepcopy-gen=false", []any{"k8s:deepcopy-gen", raw("false")}, -1}}
	roots := []sel{{"none", nil, 0}, {"root=true", []any{"kubebuilder:object:root", boolM(true)}, 1}, {"root=false", []any{"kubebuilder:object:root", boolM(false)}, -1},
		{"deepcopy-gen:interfaces=" + obj, []any{"k8s:deepcopy-gen:interfaces", str(obj)}, 1}, {"deepcopy-gen:interfaces=other", []any{"k8s:deepcopy-gen:interfaces", str("x.Other")}, -1}}
	src := `package v1
import "k8s.io/apimachinery/pkg/runtime/schema"
func (*T) GetObjectKind() schema.ObjectKind { return nil }
type T struct { P *int }
type Other struct { S []int }
type hidden struct { S []int }
type Name string
type List []*T
`
	for i, p := range pkgs {
		for j, t := range tys {
			for k, r := range roots {
				key := fmt.Sprintf("package %s, type %s, %s", p.name, t.name, r.name)
				pkg, files, info, err := e.typeCheck(fmt.Sprintf("gen.example/sel%d%d%d", i, j, k), src)
				if err != nil {
					fatalf("model package: %v", err)
				}
				want := map[string]bool{"T": t.on == 1 || t.on == 0 && (p.on == 1 || r.on == 1), "Other": p.on == 1, "List": p.on == 1}
				for _, g := range e.generate(pkg, files, info, p.m, func(n string) []any {
					if n != "T" {
						return nil
					}
					return append(append([]any(nil), t.m...), r.m...)
				}, nil, nil) {
					if !c.ob(g.unknown == "" && !g.errors, "selected", key, pos, "%s: %s", key, g.unknown+" reports an error") {
						continue
					}
					text := g.text
					if g.nothing {
						text = "package v1"
					}
					gen, _, _, err := e.typeCheck(fmt.Sprintf("gen.example/selout%d%d%d", i, j, k), src, text)
					if !want["T"] && want["List"] {
						// the methods of List use those of T
						var errs []error
						gen, errs = e.typeCheckLoose(fmt.Sprintf("gen.example/selout%d%d%d", i, j, k), src, text)
						err = nil
						if len(errs) > 1 {
							err = errs[1]
						}
					}
					if !c.ob(err == nil, "selected", key+" type-checks", pos, "%s: the generated code does not type-check: %v", key, err) {
						continue
					}
					for _, n := range []string{"T", "Other", "hidden", "Name", "List"} {
						ms := types.NewMethodSet(types.NewPointer(gen.Scope().Lookup(n).Type()))
						for _, meth := range []string{"DeepCopy", "DeepCopyInto", "DeepCopyObject"} {
							exp := want[n]
							if meth == "DeepCopyObject" {
								exp = exp && n == "T" && r.on == 1
							}
							c.ob((ms.Lookup(gen, meth) != nil) == exp, "selected", key+" "+n+"."+meth, pos, "%s: method %s of type %s generated: %v, expected: %v", key, meth, n, !exp, exp)
						}
					}
				}
			}
		}
	}
}

func (e *deepEnv) typeCheckLoose(path string, srcs ...string) (*types.Package, []error) {
	fset := token.NewFileSet()
	var fs []*ast.File
	for i, s := range srcs {
		f, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), s, parser.SkipObjectResolution)
		if err != nil {
			return types.NewPackage(path, "v1"), []error{nil, err}
		}
		fs = append(fs, f)
	}
	var errs []error
	p, _ := (&types.Config{Importer: deepImporter{e.w}, Error: func(err error) { errs = append(errs, err) }}).Check(path, fset, fs, nil)
	return p, errs
}

// checkCode type-checks generated code and interprets its copy methods.
func (e *deepEnv) checkCode(c *Check, key, pos, src, text string) {
	path := fmt.Sprintf("gen.example/out%d", len(c.obl))
	pkg, files, info, err := e.typeCheck(path, src, text)
	if !c.ob(err == nil, "compiles", key, pos, "%s: the generated code does not type-check: %v\n%s", key, err, text) {
		return
	}
	t := pkg.Scope().Lookup("T").Type()
	has := func(n string) *types.Func {
		o, _, _ := types.LookupFieldOrMethod(t, true, pkg, n)
		f, _ := o.(*types.Func)
		return f
	}
	into, cp := has("DeepCopyInto"), has("DeepCopy")
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
		return // a pointer type can have no methods
	}
	if !c.ob(into != nil && cp != nil, "methods", key, pos, "%s: the generated code lacks DeepCopyInto or DeepCopy", key) {
		return
	}
	sp := e.w.Prog.CreatePackage(pkg, files, info, false)
	sp.Build()
	m := newM(e.w)
	m.maxStep = 1 << 30
	m.inline[path] = true
	for p := range deepDeps {
		m.inline[p] = true
	}
	m.maxRec = 20
	for _, modes := range deepModes(t) {
		st := newState()
		b := &deepBuilder{m: m, st: st, modes: modes}
		v := b.build(t, 0)
		in := m.cellOf(st, "in", t, v)
		before := m.canon(st, in, types.NewPointer(t), 0)
		label := fmt.Sprintf("%s with containers %v", key, modes)
		check := func(fn *ssa.Function, outs []Out, what string, res func(o Out) *Val, rt types.Type) {
			for _, o := range outs {
				if !c.ob(o.panics == "", "copies", label+" "+what, pos, "%s: the generated %s panics: %s", label, what, o.panics) {
					continue
				}
				out := res(o)
				got := m.canon(o.st, out, rt, 0)
				after := m.canon(o.st, in, types.NewPointer(t), 0)
				c.ob(after == before, "original-unchanged", label+" "+what, pos, "%s: the generated %s changes the original from %s to %s", label, what, before, after)
				c.ob(got == before, "copies", label+" "+what, pos, "%s: the generated %s copies %s to %s", label, what, before, got)
				x, y := map[*Obj]bool{}, map[*Obj]bool{}
				m.reachObjs(o.st, in, x)
				m.reachObjs(o.st, out, y)
				shared := ""
				for ob := range y {
					if x[ob] {
						shared = ob.id
					}
				}
				c.ob(shared == "", "shares-nothing", label+" "+what, pos, "%s: the result of the generated %s shares %s with the original", label, what, shared)
			}
		}
		intoFn, cpFn := e.w.Prog.FuncValue(into), e.w.Prog.FuncValue(cp)
		recv := func(f *ssa.Function) *Val {
			if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok {
				return in
			}
			return v
		}
		out := m.cellOf(st, "out", t, nil)
		if len(modes) > 0 && modes[0] == "nil" && usesNil(t) {
			// DeepCopyInto is documented to need something to copy
		} else {
			check(intoFn, m.interp(st.clone(), intoFn, recv(intoFn), out), "DeepCopyInto", func(o Out) *Val { return out }, types.NewPointer(t))
		}
		if of := has("DeepCopyObject"); of != nil {
			fn := e.w.Prog.FuncValue(of)
			check(fn, m.interp(st.clone(), fn, recv(fn)), "DeepCopyObject", func(o Out) *Val {
				if len(o.res[0].refs) != 1 || o.res[0].refs[0].v == nil {
					return o.res[0]
				}
				r := o.res[0].refs[0].v
				if _, isPtr := o.res[0].refs[0].t.(*types.Pointer); isPtr {
					return r
				}
				return m.cellOf(o.st, "objres", t, r)
			}, types.NewPointer(t))
		}
		check(cpFn, m.interp(st.clone(), cpFn, recv(cpFn)), "DeepCopy", func(o Out) *Val {
			if _, ok := cpFn.Signature.Results().At(0).Type().(*types.Pointer); ok {
				return o.res[0]
			}
			return m.cellOf(o.st, "res", t, o.res[0])
		}, types.NewPointer(t))
		c.ob(len(m.over) == 0, "copies", label+" decided", pos, "%s: the analysis gives up in %v", label, m.over)
	}
}

func usesNil(t types.Type) bool {
	_, isStruct := t.Underlying().(*types.Struct)
	return !isStruct
}

// deepModes lists how the containers of each depth are filled.
func deepModes(t types.Type) [][]string {
	open := map[*types.Named]int{}
	var depth func(t types.Type, d int) int
	depth = func(t types.Type, d int) int {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			if open[n] > 1 {
				return 0 // recursive types are built to two levels
			}
			open[n]++
			defer func() { open[n]-- }()
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return 1 + depth(u.Elem(), d+1)
		case *types.Slice:
			return 1 + depth(u.Elem(), d+1)
		case *types.Map:
			return 1 + depth(u.Elem(), d+1)
		case *types.Struct:
			n := 0
			for i := 0; i < u.NumFields(); i++ {
				if x := depth(u.Field(i).Type(), d+1); x > n {
					n = x
				}
			}
			return n
		}
		return 0
	}
	n := depth(t, 0)
	r := [][]string{nil}
	for i := 0; i < n; i++ {
		var next [][]string
		for _, p := range r {
			for _, k := range []string{"nil", "empty", "full"} {
				next = append(next, append(append([]string(nil), p...), k))
				if i > 0 && p[i-1] != "full" {
					break // what is below a container that holds nothing does not matter
				}
			}
		}
		r = next
	}
	return r
}

type deepBuilder struct {
	m     *M
	st    *State
	modes []string
	n     int
}

func (b *deepBuilder) build(t types.Type, d int) *Val {
	b.n++
	id := fmt.Sprintf("v%d", b.n)
	mode := "nil"
	if d < len(b.modes) {
		mode = b.modes[d]
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if mode == "nil" {
			return nilVal()
		}
		return b.m.cellOf(b.st, id, u.Elem(), b.build(u.Elem(), d+1))
	case *types.Slice:
		switch mode {
		case "nil":
			return nilVal()
		case "empty":
			return b.m.sliceOf(b.st, id, u.Elem())
		}
		return b.m.sliceOf(b.st, id, u.Elem(), b.build(u.Elem(), d+1), b.build(u.Elem(), d+1))
	case *types.Map:
		switch mode {
		case "nil":
			return nilVal()
		case "empty":
			return b.m.mapOf(b.st, id, t)
		}
		return b.m.mapOf(b.st, id, t, strVal("k1"), b.build(u.Elem(), d+1), strVal("k2"), b.build(u.Elem(), d+1))
	case *types.Struct:
		v := *zeroVal(t)
		v.agg = append([]*Val(nil), v.agg...)
		for i := 0; i < u.NumFields(); i++ {
			v.agg[i] = b.build(u.Field(i).Type(), d)
		}
		return &v
	case *types.Array:
		v := *zeroVal(t)
		v.agg = append([]*Val(nil), v.agg...)
		for i := range v.agg {
			v.agg[i] = b.build(u.Elem(), d)
		}
		return &v
	}
	return symIn(t, id)
}

// reachObjs collects the memory reachable from a value.
func (m *M) reachObjs(st *State, v *Val, seen map[*Obj]bool) {
	if v == nil {
		return
	}
	v = m.resolve(st, v)
	for _, r := range v.refs {
		if r.v != nil {
			m.reachObjs(st, r.v, seen)
		}
		for _, b := range r.bind {
			m.reachObjs(st, b, seen)
		}
		if r.obj != nil && !seen[r.obj] {
			seen[r.obj] = true
			m.reachObjs(st, m.content(st, r.obj), seen)
		}
	}
	for _, a := range v.agg {
		m.reachObjs(st, a, seen)
	}
	m.reachObjs(st, v.sum, seen)
	if v.mp != nil {
		for _, k := range v.mp.keys {
			m.reachObjs(st, v.mp.k[k], seen)
			m.reachObjs(st, v.mp.v[k], seen)
		}
	}
}
