package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"reflect"
)

// hostTypes describes the type-checked declarations of a model package to the
// analysed code: every go/types object is a memory object whose methods are
// constant-folded.
type hostTypes struct {
	m    *M
	objs map[any]*Obj
	vals map[*Obj]any
	of   map[*Obj]types.Type // syntax node -> type
	n    int
}

func newHostTypes(m *M) *hostTypes {
	h := &hostTypes{m: m, objs: map[any]*Obj{}, vals: map[*Obj]any{}, of: map[*Obj]types.Type{}}
	gt := m.w.Prog.ImportedPackage("go/types")
	if gt == nil {
		fatalf("the deepcopy generator does not use go/types")
	}
	if g := gt.Var("Typ"); g != nil {
		var typ []*Val
		for _, b := range types.Typ {
			typ = append(typ, h.ptr(b))
		}
		o := &Obj{id: "gotypes.Typ", t: deref(g.Type()), kind: 'a'}
		m.base[o] = &Val{agg: typ}
		m.base[m.global(g)] = &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(typ)}}}
	}
	for n, f := range map[string]any{
		"go/types.LookupFieldOrMethod": types.LookupFieldOrMethod, "go/types.Identical": types.Identical, "go/types.Unalias": types.Unalias,
		"go/types.NewPointer": types.NewPointer, "go/types.NewSlice": types.NewSlice, "go/types.IsInterface": types.IsInterface,
		"go/types.Comparable": types.Comparable, "go/types.AssignableTo": types.AssignableTo, "go/types.ConvertibleTo": types.ConvertibleTo,
		"go/types.NewMethodSet": types.NewMethodSet,
		"go/ast.IsExported":     ast.IsExported, "go/token.IsExported": ast.IsExported,
	} {
		f := reflect.ValueOf(f)
		m.hooks[n] = func(st *State, c *Call) ([]Out, bool) { return h.call(st, c, f, c.args) }
	}
	m.hooks["(*go/types.Info).TypeOf"] = func(st *State, c *Call) ([]Out, bool) {
		e := c.args[1]
		if len(e.refs) == 1 && e.refs[0].t != nil && !e.unk {
			e = e.refs[0].v
		}
		if len(e.refs) == 1 && e.refs[0].obj != nil && h.of[e.refs[0].obj] != nil {
			return one(st, h.wrap(h.of[e.refs[0].obj])), true
		}
		return nil, false
	}
	return h
}

// ptr makes the pointer to a go/types object.
func (h *hostTypes) ptr(x any) *Val {
	o := h.objs[x]
	if o == nil {
		h.n++
		t := reflect.TypeOf(x).Elem()
		o = &Obj{id: fmt.Sprintf("host:%s:%d", t.Name(), h.n), t: h.m.w.depTyp("go/types", t.Name()), kind: 'c', sym: &Sym{fmt.Sprintf("%s<%d>", t.Name(), h.n), true}}
		h.objs[x], h.vals[o] = o, x
		h.m.models[o] = h.model
	}
	return &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
}

// wrap makes the interface value of a types.Type or types.Object.
func (h *hostTypes) wrap(x any) *Val {
	p := h.ptr(x)
	return ifaceOf(types.NewPointer(p.refs[0].obj.t), p)
}

func (h *hostTypes) unwrap(v *Val) (any, bool) {
	if v == nil || v.unk || len(v.refs) != 1 {
		return nil, false
	}
	r := v.refs[0]
	if r.t != nil {
		return h.unwrap(r.v)
	}
	if r.obj == nil { // a path leads to an embedded part
		return nil, false
	}
	x, ok := h.vals[r.obj]
	return x, ok
}

func (h *hostTypes) model(st *State, meth string, c *Call) ([]Out, bool) {
	x, ok := h.unwrap(c.args[0])
	if !ok {
		return nil, false
	}
	f := reflect.ValueOf(x).MethodByName(meth)
	if !f.IsValid() {
		return nil, false
	}
	return h.call(st, c, f, c.args[1:])
}

func (h *hostTypes) call(st *State, c *Call, f reflect.Value, args []*Val) (outs []Out, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			outs, ok = []Out{{st: st, panics: fmt.Sprint(r)}}, true
		}
	}()
	ft := f.Type()
	if ft.NumIn() != len(args) {
		return nil, false
	}
	var in []reflect.Value
	for i, a := range args {
		pt := ft.In(i)
		if a.isNil() {
			in = append(in, reflect.Zero(pt))
			continue
		}
		x, isH := h.unwrap(a)
		if !isH {
			var one bool
			if x, one = a.single(); !one {
				return nil, false
			}
		}
		rv := reflect.ValueOf(x)
		if !rv.IsValid() || !rv.CanConvert(pt) {
			return nil, false
		}
		in = append(in, rv.Convert(pt))
	}
	var res []*Val
	for i, r := range f.Call(in) {
		switch r.Kind() {
		case reflect.Interface, reflect.Ptr:
			if r.IsNil() {
				res = append(res, nilVal())
				continue
			}
			e := r
			if r.Kind() == reflect.Interface {
				e = r.Elem()
			}
			if e.Kind() != reflect.Ptr || e.Type().Elem().PkgPath() != "go/types" {
				return nil, false
			}
			if r.Kind() == reflect.Interface {
				res = append(res, h.wrap(e.Interface()))
			} else {
				res = append(res, h.ptr(e.Interface()))
			}
		case reflect.Slice:
			var vs []*Val
			for j := 0; j < r.Len(); j++ {
				if r.Index(j).Kind() != reflect.Int {
					return nil, false
				}
				vs = append(vs, constVal(r.Index(j).Int()))
			}
			if r.IsNil() {
				res = append(res, nilVal())
				continue
			}
			res = append(res, h.m.newSlice(st, c.site, c.res.At(i).Type(), vs))
		default:
			v, ok := h.m.lift(st, r, c, i)
			if !ok {
				if r.CanUint() {
					v = constVal(int64(r.Uint()))
				} else if r.CanInt() {
					v = constVal(r.Int())
				} else {
					return nil, false
				}
			}
			res = append(res, v)
		}
	}
	return []Out{{st: st, res: res}}, true
}

// bytesOf and bytesVal convert between byte slices and the text they hold.
func bytesVal(s *Val) *Val {
	t := types.NewSlice(types.Typ[types.Byte])
	if x, ok := s.str(); ok {
		return unkNonNil(t, &Sym{fmt.Sprintf("bytes(%q)", x), true})
	}
	return unkNonNil(t, &Sym{"bytes(" + s.String() + ")", false})
}

// textHooks models byte buffers and formatted printing into them. The text of a buffer is kept in its first field.
func textHooks(m *M) {
	write := func(st *State, c *Call, w, text *Val) bool {
		if len(w.refs) == 1 && w.refs[0].t != nil && !w.unk {
			w = w.refs[0].v
		}
		if w.unk || len(w.refs) != 1 || w.refs[0].obj == nil || w.refs[0].obj.summary {
			return false
		}
		bt := w.refs[0].obj.t
		if w.refs[0].path != "" || typeName(bt) != "bytes.Buffer" && typeName(bt) != "strings.Builder" {
			return false
		}
		cont := m.load(st, w, bt)
		if len(cont.agg) == 0 {
			return false
		}
		last := len(cont.agg) - 1
		cur := cont.agg[last]
		if _, ok := cur.str(); !ok && !cur.unk && cur.agg == nil {
			cur = strVal("")
		}
		n := &Val{agg: append([]*Val(nil), cont.agg...)}
		n.agg[last] = c.frame.binop(token.ADD, cur, text, types.Typ[types.String], types.Typ[types.String])
		m.store(st, w, n, bt)
		return true
	}
	wrote := func(st *State, c *Call) []Out {
		return []Out{{st: st, res: []*Val{unkVal(types.Typ[types.Int], nil), nilVal()}}}
	}
	text := func(st *State, c *Call, w *Val) (*Val, bool) {
		if w.unk || len(w.refs) != 1 || w.refs[0].obj == nil || w.refs[0].path != "" {
			return nil, false
		}
		cont := m.load(st, w, w.refs[0].obj.t)
		if len(cont.agg) == 0 {
			return nil, false
		}
		cur := cont.agg[len(cont.agg)-1]
		if _, ok := cur.str(); !ok && !cur.unk {
			return strVal(""), true
		}
		return cur, true
	}
	fromBytes := func(v *Val) *Val {
		if s, ok := bytesText(v); ok {
			return strVal(s)
		}
		return unkVal(types.Typ[types.String], mkSym("string", v))
	}
	m.hooks["(*bytes.Buffer).Write"] = func(st *State, c *Call) ([]Out, bool) {
		if !write(st, c, c.args[0], fromBytes(c.args[1])) {
			return nil, false
		}
		return wrote(st, c), true
	}
	m.hooks["(*bytes.Buffer).WriteString"] = func(st *State, c *Call) ([]Out, bool) {
		if !write(st, c, c.args[0], c.args[1]) {
			return nil, false
		}
		return wrote(st, c), true
	}
	m.hooks["(*bytes.Buffer).WriteByte"] = func(st *State, c *Call) ([]Out, bool) {
		n, ok := c.args[1].integer()
		if !ok || !write(st, c, c.args[0], strVal(string(rune(n)))) {
			return nil, false
		}
		return one(st, nilVal()), true
	}
	m.hooks["(*bytes.Buffer).Bytes"] = func(st *State, c *Call) ([]Out, bool) {
		t, ok := text(st, c, c.args[0])
		if !ok {
			return nil, false
		}
		if s, ok := t.str(); ok && s == "" {
			return one(st, nilVal()), true
		}
		return one(st, bytesVal(t)), true
	}
	m.hooks["(*bytes.Buffer).String"] = func(st *State, c *Call) ([]Out, bool) {
		t, ok := text(st, c, c.args[0])
		return one(st, t), ok
	}
	m.hooks["(*bytes.Buffer).Len"] = func(st *State, c *Call) ([]Out, bool) {
		t, ok := text(st, c, c.args[0])
		if !ok {
			return nil, false
		}
		if s, ok := t.str(); ok {
			return one(st, constVal(int64(len(s)))), true
		}
		return nil, false
	}
	m.hooks["fmt.Fprintf"] = func(st *State, c *Call) ([]Out, bool) {
		sub := *c
		sub.args = c.args[1:]
		o, ok := hookSprintf(st, &sub)
		if !ok || len(o) != 1 || !write(o[0].st, c, c.args[0], o[0].res[0]) {
			return nil, false
		}
		return wrote(st, c), true
	}
	join := func(sep, end string) hookFn {
		return func(st *State, c *Call) ([]Out, bool) {
			es, ok := m.elems(st, c.args[1])
			if !ok {
				return nil, false
			}
			t := strVal("")
			add := func(v *Val) {
				t = c.frame.binop(token.ADD, t, v, types.Typ[types.String], types.Typ[types.String])
			}
			for i, e := range es {
				if i > 0 {
					add(strVal(sep))
				}
				x := unkVal(types.Typ[types.String], mkSym("str", e))
				if len(e.refs) == 1 && e.refs[0].t != nil && !e.unk {
					if b, ok := e.refs[0].t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !hasStringer(e.refs[0].t) {
						x = e.refs[0].v
					}
				}
				add(x)
			}
			add(strVal(end))
			if !write(st, c, c.args[0], t) {
				return nil, false
			}
			return wrote(st, c), true
		}
	}
	m.hooks["fmt.Fprintln"] = join(" ", "\n")
	m.hooks["io.WriteString"] = func(st *State, c *Call) ([]Out, bool) {
		if !write(st, c, c.args[0], c.args[1]) {
			return nil, false
		}
		return wrote(st, c), true
	}
}
