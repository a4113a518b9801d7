package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Builders of abstract values: the input classes the rules quantify over.

// cellOf makes a memory cell with the given content and returns a pointer to it.
func (m *M) cellOf(st *State, id string, t types.Type, content *Val) *Val {
	o := &Obj{id: "in:" + id, t: t, kind: 'c'}
	if content == nil {
		content = zeroVal(t)
	}
	st.mem[o] = content
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
}

func (m *M) sliceOf(st *State, id string, elem types.Type, vs ...*Val) *Val {
	o := &Obj{id: "in:" + id, t: types.NewSlice(elem), kind: 'a'}
	st.mem[o] = &Val{agg: append([]*Val{}, vs...)}
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(vs)}}}
}

// mapOf makes a closed map with constant keys.
func (m *M) mapOf(st *State, id string, t types.Type, kvs ...any) *Val {
	o := &Obj{id: "in:" + id, t: t, kind: 'm'}
	mv := &MapV{k: map[string]*Val{}, v: map[string]*Val{}, may: map[string]bool{}, vt: t.Underlying().(*types.Map).Elem()}
	for i := 0; i+1 < len(kvs); i += 2 {
		k := kvs[i].(*Val)
		key, ok := k.ident()
		if !ok {
			panic("mapOf: unnamed key")
		}
		mv.keys = append(mv.keys, key)
		mv.k[key], mv.v[key] = k, kvs[i+1].(*Val)
	}
	st.mem[o] = &Val{mp: mv}
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
}

func ifaceOf(t types.Type, v *Val) *Val {
	return &Val{nil_: nonBit, refs: []*Ref{{t: t, v: v}}}
}

// symIn is a named input: one unknown runtime value.
func symIn(t types.Type, name string) *Val { return unkVal(t, &Sym{name, true}) }

func fieldIndex(t types.Type, name string) int {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		fatalf("%s is not a struct", typeName(t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	fatalf("field %s.%s not found", typeName(t), name)
	return -1
}

func fieldType(t types.Type, name string) types.Type {
	return deref(t).Underlying().(*types.Struct).Field(fieldIndex(t, name)).Type()
}

func hasField(t types.Type, name string) bool {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// structOf builds a struct value; fields are given as name, value pairs.
func structOf(t types.Type, kvs ...any) *Val {
	v := *zeroVal(t)
	v.agg = append([]*Val(nil), v.agg...)
	for i := 0; i+1 < len(kvs); i += 2 {
		v.agg[fieldIndex(t, kvs[i].(string))] = kvs[i+1].(*Val)
	}
	return &v
}

// getField reads field name of a struct value.
func (m *M) getField(v *Val, t types.Type, name string) *Val {
	return m.child(v, strconv.Itoa(fieldIndex(t, name)))
}

// at reads through a pointer to a struct along a field path.
func (m *M) at(st *State, p *Val, t types.Type, path ...string) *Val {
	v := m.load(st, p, t)
	for _, f := range path {
		v = m.resolve(st, m.child(v, strconv.Itoa(fieldIndex(t, f))))
		t = fieldType(t, f)
	}
	return v
}

// canon renders a value with everything reachable from it, independent of where it is stored.
func (m *M) canon(st *State, v *Val, t types.Type, d int) string {
	if v == nil {
		return "⊥"
	}
	if d > 12 {
		return "…"
	}
	v = m.resolve(st, v)
	if v.unk {
		if v.sym != nil {
			return "$" + v.sym.s
		}
		return "?"
	}
	var p []string
	for _, c := range v.cs {
		p = append(p, c.String())
	}
	if v.nil_&nilBit != 0 {
		p = append(p, "nil")
	}
	for _, r := range v.refs {
		switch {
		case r.t != nil:
			p = append(p, typeName(r.t)+"("+m.canon(st, r.v, r.t, d+1)+")")
		case r.fn != nil:
			p = append(p, "func "+r.fn.String())
		case r.hook != "":
			p = append(p, "func "+r.hook)
		case r.obj != nil:
			c := m.nav(m.content(st, r.obj), r.path)
			isSl := r.obj.kind == 'a'
			if t != nil && !isSl {
				isSl = isSliceT(t)
			}
			if isSl && c != nil {
				if es, ok := m.elems(st, &Val{nil_: nonBit, refs: []*Ref{r}}); ok {
					var et types.Type
					if t != nil {
						et, _ = arrayElem(t)
					}
					var q []string
					for _, e := range es {
						q = append(q, m.canon(st, e, et, d+1))
					}
					p = append(p, "["+strings.Join(q, ", ")+"]")
					break
				}
				p = append(p, "["+m.canon(st, c, nil, d+1)+"…]")
				break
			}
			if r.obj.kind == 'm' && c != nil && c.mp != nil {
				ks := append([]string(nil), c.mp.keys...)
				sort.Strings(ks)
				var q []string
				vt := c.mp.vt
				if mt, ok := r.obj.t.Underlying().(*types.Map); ok {
					vt = mt.Elem()
				}
				for _, k := range ks {
					s := m.canon(st, c.mp.k[k], nil, d+1) + ":" + m.canon(st, c.mp.v[k], vt, d+1)
					if c.mp.may[k] {
						s += "?"
					}
					q = append(q, s)
				}
				sort.Strings(q)
				if c.mp.open {
					q = append(q, "…")
				}
				p = append(p, "map["+strings.Join(q, ", ")+"]")
				break
			}
			var et types.Type
			if t != nil {
				et = deref(t)
			}
			p = append(p, "&"+m.canon(st, c, et, d+1))
		}
	}
	if v.agg != nil {
		var q []string
		var s *types.Struct
		if t != nil {
			s, _ = t.Underlying().(*types.Struct)
		}
		for i, a := range v.agg {
			x := m.canon(st, a, nil, d+1)
			if s != nil && i < s.NumFields() {
				x = m.canon(st, a, s.Field(i).Type(), d+1)
				if a != nil && isZero(a) {
					continue
				}
				x = s.Field(i).Name() + ":" + x
			}
			q = append(q, x)
		}
		p = append(p, "{"+strings.Join(q, " ")+"}")
	}
	if v.sum != nil {
		p = append(p, "["+m.canon(st, v.sum, nil, d+1)+"...]")
	}
	if v.mp != nil {
		p = append(p, "mapv")
	}
	if len(p) == 0 {
		return "⊥"
	}
	sort.Strings(p)
	return strings.Join(p, "|")
}

func isZero(v *Val) bool {
	if v == nil || v.unk || len(v.refs) > 0 || v.sum != nil || v.mp != nil {
		return false
	}
	if v.agg != nil {
		for _, a := range v.agg {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	if v.nil_ != 0 {
		return v.nil_ == nilBit && len(v.cs) == 0
	}
	if len(v.cs) != 1 {
		return false
	}
	switch c := v.cs[0].v.(type) {
	case bool:
		return !c
	case string:
		return c == ""
	case int64:
		return c == 0
	case uint64:
		return c == 0
	case float64:
		return c == 0
	}
	return false
}

// interp runs fn on abstract arguments.
func (m *M) interp(st *State, fn *ssa.Function, args ...*Val) []Out {
	m.stack = nil
	return m.callFn(st, fn, args, nil)
}

// errOf classifies the trailing error result: "nil", "err" or "maybe".
func errOf(o Out) string {
	if o.panics != "" {
		return "panic: " + o.panics
	}
	if len(o.res) == 0 {
		return "nil"
	}
	e := o.res[len(o.res)-1]
	switch {
	case e.isNil():
		return "nil"
	case e.notNil():
		return "err"
	}
	return "maybe"
}

var initCache = map[*World]*M{}

// inited returns a machine whose package variables hold their initial values.
func inited(w *World) *M {
	if m := initCache[w]; m != nil {
		return m.fork()
	}
	m := initedWith(w, nil)
	initCache[w] = m
	return m.fork()
}

// initedWith runs the package initialisers, those of the extra packages last, with further hooks.
func initedWith(w *World, pre func(m *M), extra ...string) *M {
	m := newM(w)
	m.maxStep = 5_000_000
	m.tm = newTypeModel(m)
	m.tm.hooks()
	if pre != nil {
		pre(m)
	}
	var ps []string
	for _, p := range w.Pkgs {
		if strings.HasPrefix(p.PkgPath, modPath+"/pkg/") {
			ps = append(ps, strings.TrimPrefix(p.PkgPath, modPath+"/"))
		}
	}
	for p := range defaultInline {
		if w.SSA[p] != nil {
			w.buildDep(p)
		}
	}
	m.runInits(append(ps, extra...)...)
	// the initial memory is shared between machines: fill the lazily computed keys now
	seen := map[*Val]bool{}
	for _, v := range m.base {
		v.warm(seen)
	}
	for _, ti := range m.tm.info {
		for _, v := range []*Val{ti.pkg, ti.under, ti.obj, ti.elem, ti.key} {
			v.warm(seen)
		}
		for _, v := range ti.scope {
			v.warm(seen)
		}
	}
	for _, v := range m.tm.basic {
		v.warm(seen)
	}
	return m
}

// markerDef is one row of a generator's evaluated marker table.
type markerDef struct {
	Name       string
	Target     int64
	Out        types.Type
	Args       map[string]argInfo
	FieldNames map[string]string
	Strict     bool
	ptr        string // identity of the definition
	help       *helpInfo
}

type helpInfo struct {
	known      bool
	Category   string
	Summary    string
	Details    string
	Fields     map[string][2]string
	Deprecated string // "-" when not deprecated
}

type argInfo struct {
	Type     int64
	Optional bool
	Pointer  bool
	Item     *argInfo
}

func (d markerDef) String() string {
	return fmt.Sprintf("%s(%s)->%s", d.Name, targetName(d.Target), typeName(d.Out))
}

func targetName(t int64) string {
	switch t {
	case 0:
		return "package"
	case 1:
		return "type"
	case 2:
		return "field"
	}
	return fmt.Sprint(t)
}

func (m *M) readArg(st *State, v *Val, t types.Type) argInfo {
	g := func(n string) *Val { return m.resolve(st, m.getField(v, t, n)) }
	a := argInfo{Type: -1}
	if n, ok := g("Type").integer(); ok {
		a.Type = n
	}
	a.Optional, _ = g("Optional").boolean()
	a.Pointer, _ = g("Pointer").boolean()
	if it := g("ItemType"); it.notNil() {
		x := m.readArg(st, m.load(st, it, t), t)
		a.Item = &x
	}
	return a
}

func (m *M) readDef(st *State, p *Val) (markerDef, bool) {
	dt := m.w.typ("pkg/markers", "Definition")
	d := markerDef{Args: map[string]argInfo{}, FieldNames: map[string]string{}}
	id, ok := p.ident()
	if !ok {
		return d, false
	}
	d.ptr = id
	var ok1, ok2 bool
	d.Name, ok1 = m.at(st, p, dt, "Name").str()
	d.Target, ok2 = m.at(st, p, dt, "Target").integer()
	d.Out = m.at(st, p, dt, "Output").rtype()
	d.Strict, _ = m.at(st, p, dt, "Strict").boolean()
	if !ok1 || !ok2 || d.Out == nil {
		return d, false
	}
	at := m.w.typ("pkg/markers", "Argument")
	for _, kv := range m.mapEntries(st, m.at(st, p, dt, "Fields")) {
		k, ok := kv[0].str()
		if !ok {
			return d, false
		}
		d.Args[k] = m.readArg(st, kv[1], at)
	}
	for _, kv := range m.mapEntries(st, m.at(st, p, dt, "FieldNames")) {
		k, ok := kv[0].str()
		v, ok2 := kv[1].str()
		if !ok || !ok2 {
			return d, false
		}
		d.FieldNames[k] = v
	}
	return d, true
}

// mapEntries lists the entries of a closed map.
func (m *M) mapEntries(st *State, v *Val) [][2]*Val {
	if v.isNil() {
		return nil
	}
	if v == nil || v.unk || len(v.refs) != 1 {
		m.fail("map is not determined: %s", v)
	}
	c := m.content(st, v.refs[0].obj)
	if c == nil || c.mp == nil || c.mp.open || len(c.mp.may) > 0 {
		m.fail("map is not determined: %s", c)
	}
	var r [][2]*Val
	ks := append([]string(nil), c.mp.keys...)
	sort.Strings(ks)
	for _, k := range ks {
		r = append(r, [2]*Val{c.mp.k[k], m.resolve(st, c.mp.v[k])})
	}
	return r
}

func (m *M) readHelp(st *State, p *Val) *helpInfo {
	h := &helpInfo{Fields: map[string][2]string{}, Deprecated: "-"}
	if !p.notNil() || len(p.refs) != 1 {
		return h
	}
	ht := m.w.typ("pkg/markers", "DefinitionHelp")
	dt := m.w.typ("pkg/markers", "DetailedHelp")
	h.known = true
	str := func(v *Val) string {
		s, ok := v.str()
		if !ok {
			h.known = false
		}
		return s
	}
	h.Category = str(m.at(st, p, ht, "Category"))
	dv := m.at(st, p, ht, "DetailedHelp")
	h.Summary = str(m.getField(dv, dt, "Summary"))
	h.Details = str(m.getField(dv, dt, "Details"))
	for _, kv := range m.mapEntries(st, m.at(st, p, ht, "FieldHelp")) {
		h.Fields[str(kv[0])] = [2]string{str(m.getField(kv[1], dt, "Summary")), str(m.getField(kv[1], dt, "Details"))}
	}
	if dp := m.at(st, p, ht, "DeprecatedInFavorOf"); !dp.isNil() {
		h.Deprecated = str(m.load(st, dp, types.Typ[types.String]))
	}
	return h
}

// generatorTypes finds the types implementing genall.Generator in the repository's packages.
func generatorTypes(w *World) []*types.Named {
	gi := w.typ("pkg/genall", "Generator").Underlying().(*types.Interface)
	var r []*types.Named
	for _, p := range w.Pkgs {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(nt, gi) || types.Implements(types.NewPointer(nt), gi) {
				r = append(r, nt)
			}
		}
	}
	return r
}

// defRecorder collects the definitions registered, with their help, on the way.
type defRecorder struct {
	defs  []markerDef
	helps map[string]*helpInfo
}

func (r *defRecorder) hook(m *M) {
	r.helps = map[string]*helpInfo{}
	m.hooks["(*"+modPath+"/pkg/markers.Registry).Register"] = func(st *State, c *Call) ([]Out, bool) {
		d, ok := m.readDef(st, c.args[1])
		if !ok {
			m.fail("a registered definition is not determined: %s %s", c.args[1], m.canon(st, c.args[1], nil, 0))
		}
		r.defs = append(r.defs, d)
		return one(st, nilVal()), true
	}
	m.hooks["(*"+modPath+"/pkg/markers.Registry).AddHelp"] = func(st *State, c *Call) ([]Out, bool) {
		id, ok := c.args[1].ident()
		if !ok {
			m.fail("help is added to an undetermined definition")
		}
		r.helps[id] = m.readHelp(st, c.args[2])
		return []Out{{st: st}}, true
	}
}

func (r *defRecorder) table() []markerDef {
	for i := range r.defs {
		r.defs[i].help = r.helps[r.defs[i].ptr]
	}
	return r.defs
}

// markerTable evaluates a generator's RegisterMarkers to the definitions it registers, with their help.
func markerTable(w *World, gen types.Type) []markerDef {
	m := inited(w)
	var rec defRecorder
	rec.hook(m)
	fn := w.methodOf(gen, "RegisterMarkers")
	if fn == nil {
		fatalf("%s.RegisterMarkers not found", typeName(gen))
	}
	st := newState()
	rt := w.typ("pkg/markers", "Registry")
	reg := m.cellOf(st, "registry", rt, nil)
	args := []*Val{recvOf(m, st, fn, gen), reg}
	outs := m.interp(st, fn, args...)
	okOuts := 0
	for _, o := range outs {
		if errOf(o) == "nil" {
			okOuts++
		} else {
			m.fail("%s.RegisterMarkers may fail: %s", typeName(gen), errOf(o))
		}
	}
	if okOuts == 0 {
		m.fail("%s.RegisterMarkers never returns", typeName(gen))
	}
	return rec.table()
}

// optionTable evaluates the initialisers of a command to the options it registers.
func optionTable(w *World, cmd string) ([]markerDef, *M) {
	var rec defRecorder
	m := initedWith(w, rec.hook, cmd)
	return rec.table(), m
}

// recvOf makes the receiver fn expects, a zero value of t or a pointer to one.
func recvOf(m *M, st *State, fn *ssa.Function, t types.Type) *Val {
	rt := fn.Signature.Recv().Type()
	if _, ok := rt.(*types.Pointer); ok {
		return m.cellOf(st, "recv", deref(rt), nil)
	}
	return zeroVal(t)
}

func (v *Val) warm(seen map[*Val]bool) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	for _, r := range v.refs {
		r.key()
		r.v.warm(seen)
		for _, b := range r.bind {
			b.warm(seen)
		}
	}
	for _, a := range v.agg {
		a.warm(seen)
	}
	v.sum.warm(seen)
	if v.mp != nil {
		for k := range v.mp.k {
			v.mp.k[k].warm(seen)
			v.mp.v[k].warm(seen)
		}
		v.mp.ok.warm(seen)
		v.mp.ov.warm(seen)
	}
}
