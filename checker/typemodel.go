package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Models of go/types and go/ast values: the abstract inputs of code that maps
// Go types. A type is a memory object with a description (tinfo); the methods
// the analysed code calls on it are answered from the description.

type tinfo struct {
	goType string // concrete go/types type: Basic, Named, ...
	basic  types.BasicKind
	name   string
	pkg    *Val // TypeName, Named: *types.Package
	under  *Val // Named: underlying; Alias: right hand side; TypeName: its type
	obj    *Val // Named, Alias: *types.TypeName
	elem   *Val
	key    *Val
	path   string
	scope  map[string]*Val // Scope
	meths  map[string]bool // methods in the method set of a pointer to the type
}

type typeModel struct {
	m     *M
	info  map[*Obj]*tinfo
	basic map[types.BasicKind]*Val // interface values
	of    map[*Obj]*Val            // AST node -> type
	n     int
}

func (tm *typeModel) fork(m *M) *typeModel {
	n := &typeModel{m: m, info: map[*Obj]*tinfo{}, basic: tm.basic, of: map[*Obj]*Val{}, n: tm.n}
	for k, v := range tm.info {
		n.info[k] = v
	}
	for o := range n.info {
		m.models[o] = n.model
	}
	return n
}

// ptr makes a pointer to a modelled go/types object.
func (tm *typeModel) ptr(ti *tinfo) *Val {
	tm.n++
	t := tm.m.w.depTyp("go/types", ti.goType)
	o := &Obj{id: fmt.Sprintf("gotype:%s:%s:%d", ti.goType, ti.name, tm.n), t: t, kind: 'c', sym: &Sym{fmt.Sprintf("%s<%s%d>", ti.goType, ti.name, tm.n), true}}
	tm.info[o] = ti
	tm.m.models[o] = tm.model
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
}

// iface makes the types.Type interface value of a modelled type.
func (tm *typeModel) iface(ti *tinfo) *Val { return tm.toIface(tm.ptr(ti)) }

func (tm *typeModel) toIface(p *Val) *Val {
	ti := tm.info[p.refs[0].obj]
	return ifaceOf(types.NewPointer(tm.m.w.depTyp("go/types", ti.goType)), p)
}

// get finds the description of a *types.X or types.Type value.
func (tm *typeModel) get(v *Val) (*tinfo, *Obj) {
	if v == nil || v.unk || len(v.refs) != 1 {
		return nil, nil
	}
	r := v.refs[0]
	if r.t != nil {
		return tm.get(r.v)
	}
	if r.obj == nil {
		return nil, nil
	}
	return tm.info[r.obj], r.obj
}

func (tm *typeModel) unalias(v *Val) *Val {
	for i := 0; i < 10; i++ {
		ti, _ := tm.get(v)
		if ti == nil || ti.goType != "Alias" {
			return v
		}
		v = ti.under
	}
	return v
}

func (tm *typeModel) underlying(v *Val) *Val {
	v = tm.unalias(v)
	ti, _ := tm.get(v)
	if ti != nil && ti.goType == "Named" {
		return tm.underlying(ti.under)
	}
	return v
}

func (tm *typeModel) identical(a, b *Val) (bool, bool) {
	a, b = tm.unalias(a), tm.unalias(b)
	x, xo := tm.get(a)
	y, yo := tm.get(b)
	if x == nil || y == nil {
		return false, false
	}
	if xo == yo {
		return true, true
	}
	if x.goType != y.goType {
		return false, true
	}
	switch x.goType {
	case "Basic":
		return x.basic == y.basic, true
	case "Named":
		return false, true
	case "Pointer", "Slice", "Array":
		return tm.identical(x.elem, y.elem)
	case "Map":
		k, ok := tm.identical(x.key, y.key)
		if !ok || !k {
			return false, ok
		}
		return tm.identical(x.elem, y.elem)
	}
	return false, false
}

func (tm *typeModel) model(st *State, meth string, c *Call) ([]Out, bool) {
	ti, o := tm.get(c.args[0])
	if ti == nil {
		return nil, false
	}
	self := &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
	v := func(x *Val) ([]Out, bool) {
		if x == nil {
			x = nilVal()
		}
		return one(st, x), true
	}
	switch meth {
	case "String":
		return v(strVal(tm.str(self)))
	case "Underlying":
		return v(tm.underlying(tm.toIface(self)))
	case "Obj":
		return v(ti.obj)
	case "Rhs":
		return v(ti.under)
	case "Origin":
		return v(self)
	case "TypeArgs", "TypeParams":
		return v(nilVal())
	case "Len":
		return v(constVal(int64(4)))
	case "Elem":
		return v(ti.elem)
	case "Key":
		return v(ti.key)
	case "Kind":
		return v(constVal(int64(ti.basic)))
	case "Info":
		return v(constVal(int64(types.Typ[ti.basic].Info())))
	case "Name":
		return v(strVal(ti.name))
	case "Path":
		return v(strVal(ti.path))
	case "Pkg":
		return v(ti.pkg)
	case "Type":
		return v(ti.under)
	case "IsAlias":
		u, _ := tm.get(ti.under)
		return v(boolVal(u != nil && (u.goType == "Alias" || u.goType == "Basic" && u.name != ti.name)))
	case "Exported":
		return v(boolVal(ti.name != "" && strings.ToUpper(ti.name[:1]) == ti.name[:1]))
	case "Scope":
		return v(ti.elem)
	case "Lookup":
		if ti.scope != nil {
			n, ok := c.args[1].str()
			if !ok {
				return nil, false
			}
			return v(ti.scope[n])
		}
	}
	return nil, false
}

func (tm *typeModel) str(v *Val) string {
	ti, o := tm.get(v)
	if ti == nil {
		return "?"
	}
	if ti.name != "" {
		return ti.name
	}
	return o.id
}

// newTypeModel installs the universe and the hooks.
func newTypeModel(m *M) *typeModel {
	tm := &typeModel{m: m, info: map[*Obj]*tinfo{}, basic: map[types.BasicKind]*Val{}, of: map[*Obj]*Val{}}
	gt := m.w.Prog.ImportedPackage("go/types")
	if gt == nil {
		return tm
	}
	var typ []*Val
	uni := map[string]*Val{}
	tnT := types.NewPointer(m.w.depTyp("go/types", "TypeName"))
	for _, b := range types.Typ {
		p := tm.ptr(&tinfo{goType: "Basic", basic: b.Kind(), name: b.Name()})
		tm.basic[b.Kind()] = tm.toIface(p)
		typ = append(typ, p)
		if b.Info()&types.IsUntyped == 0 && b.Kind() != types.Invalid && b.Kind() != types.UnsafePointer {
			uni[b.Name()] = ifaceOf(tnT, tm.ptr(&tinfo{goType: "TypeName", name: b.Name(), under: tm.basic[b.Kind()]}))
		}
	}
	for n, k := range map[string]types.BasicKind{"byte": types.Uint8, "rune": types.Int32} {
		uni[n] = ifaceOf(tnT, tm.ptr(&tinfo{goType: "TypeName", name: n, under: tm.iface(&tinfo{goType: "Basic", basic: k, name: n})}))
	}
	errIface := tm.iface(&tinfo{goType: "Interface", meths: map[string]bool{"Error": true}})
	errObj := &tinfo{goType: "TypeName", name: "error"}
	errTN := tm.ptr(errObj)
	errObj.under = tm.iface(&tinfo{goType: "Named", name: "error", under: errIface, obj: errTN})
	uni["error"] = ifaceOf(tnT, errTN)
	anyObj := &tinfo{goType: "TypeName", name: "any"}
	anyTN := tm.ptr(anyObj)
	anyObj.under = tm.iface(&tinfo{goType: "Alias", name: "any", under: tm.iface(&tinfo{goType: "Interface"}), obj: anyTN})
	uni["any"] = ifaceOf(tnT, anyTN)
	if g := gt.Var("Typ"); g != nil {
		o := &Obj{id: "gotypes.Typ", t: deref(g.Type()), kind: 'a'}
		m.base[o] = &Val{agg: typ}
		m.base[m.global(g)] = &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(typ)}}}
	}
	if g := gt.Var("Universe"); g != nil {
		m.base[m.global(g)] = tm.ptr(&tinfo{goType: "Scope", scope: uni, name: "universe"})
	}
	return tm
}

func (tm *typeModel) hooks() {
	m := tm.m
	m.hooks["go/types.Identical"] = func(st *State, c *Call) ([]Out, bool) {
		eq, ok := tm.identical(c.args[0], c.args[1])
		if !ok {
			return nil, false
		}
		return one(st, boolVal(eq)), true
	}
	m.hooks["go/types.Unalias"] = func(st *State, c *Call) ([]Out, bool) {
		if ti, _ := tm.get(c.args[0]); ti == nil {
			return nil, false
		}
		return one(st, tm.unalias(c.args[0])), true
	}
	m.hooks["(*go/types.Info).TypeOf"] = func(st *State, c *Call) ([]Out, bool) {
		e := c.args[1]
		if len(e.refs) == 1 && e.refs[0].t != nil && !e.unk {
			e = e.refs[0].v
		}
		if len(e.refs) == 1 && e.refs[0].obj != nil {
			if t := tm.of[e.refs[0].obj]; t != nil {
				return one(st, t), true
			}
			if e.refs[0].obj.sym == nil {
				return one(st, nilVal()), true
			}
		}
		return nil, false
	}
	m.hooks["go/types.NewFunc"] = func(st *State, c *Call) ([]Out, bool) {
		n, ok := c.args[2].str()
		if !ok {
			return nil, false
		}
		return one(st, tm.ptr(&tinfo{goType: "Func", name: n})), true
	}
	m.hooks["go/types.NewInterfaceType"] = func(st *State, c *Call) ([]Out, bool) {
		es, ok := m.elems(st, c.args[0])
		if !ok {
			return nil, false
		}
		ms := map[string]bool{}
		for _, e := range es {
			ti, _ := tm.get(e)
			if ti == nil {
				return nil, false
			}
			ms[ti.name] = true
		}
		return one(st, tm.ptr(&tinfo{goType: "Interface", meths: ms})), true
	}
	m.hooks["(*go/types.Interface).Complete"] = func(st *State, c *Call) ([]Out, bool) { return one(st, c.args[0]), true }
	m.hooks["go/types.NewPointer"] = func(st *State, c *Call) ([]Out, bool) {
		if ti, _ := tm.get(c.args[0]); ti == nil {
			return nil, false
		}
		return one(st, tm.ptr(&tinfo{goType: "Pointer", elem: c.args[0]})), true
	}
	m.hooks["go/types.Implements"] = func(st *State, c *Call) ([]Out, bool) {
		t, _ := tm.get(c.args[0])
		i, _ := tm.get(c.args[1])
		if t == nil || i == nil || i.goType != "Interface" {
			return nil, false
		}
		if t.goType == "Pointer" {
			t, _ = tm.get(t.elem)
		}
		ok := len(i.meths) > 0 && t != nil
		for n := range i.meths {
			ok = ok && t.meths[n]
		}
		return one(st, boolVal(ok || len(i.meths) == 0)), true
	}
	m.hooks["go/ast.IsExported"] = func(st *State, c *Call) ([]Out, bool) {
		n, ok := c.args[0].str()
		if !ok || n == "" {
			return nil, false
		}
		return one(st, boolVal(n[0] >= 'A' && n[0] <= 'Z')), true
	}
	m.hooks["go/token.IsExported"] = m.hooks["go/ast.IsExported"]
}

// node makes an AST node cell of the given go/ast type and its expression interface value.
func (tm *typeModel) node(st *State, kind string, typ *Val, kvs ...any) *Val {
	t := tm.m.w.depTyp("go/ast", kind)
	tm.n++
	p := tm.m.cellOf(st, fmt.Sprintf("ast:%s:%d", kind, tm.n), t, structOf(t, kvs...))
	if typ != nil {
		tm.of[p.refs[0].obj] = typ
	}
	return ifaceOf(types.NewPointer(t), p)
}

func astPtr(v *Val) *Val { return v.refs[0].v }

// pkg makes a *types.Package.
func (tm *typeModel) pkg(path string, scope map[string]*Val) *Val {
	name := path[strings.LastIndex(path, "/")+1:]
	if scope == nil {
		scope = map[string]*Val{}
	}
	return tm.ptr(&tinfo{goType: "Package", name: name, path: path, elem: tm.ptr(&tinfo{goType: "Scope", scope: scope, name: "scope"})})
}

// named makes a declared type.
func (tm *typeModel) named(pkg *Val, name string, under *Val) *Val {
	tn := &tinfo{goType: "TypeName", name: name, pkg: pkg}
	p := tm.ptr(tn)
	tn.under = tm.iface(&tinfo{goType: "Named", name: name, under: under, obj: p, pkg: pkg})
	return tn.under
}

func (tm *typeModel) alias(pkg *Val, name string, rhs *Val) *Val {
	tn := &tinfo{goType: "TypeName", name: name, pkg: pkg}
	p := tm.ptr(tn)
	tn.under = tm.iface(&tinfo{goType: "Alias", name: name, under: rhs, obj: p, pkg: pkg})
	return tn.under
}

func (tm *typeModel) universe(name string) *Val {
	g := tm.m.w.Prog.ImportedPackage("go/types").Var("Universe")
	ti, _ := tm.get(tm.m.base[tm.m.global(g)])
	tn, _ := tm.get(ti.scope[name])
	return tn.under
}
