package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// A model of reflect.Value: an aggregate of the dynamic type, the value or
// the address of it, and whether it is addressable.

const (
	rvInvalid = uint64(iota)
	rvValue
	rvAddr
)

type reflModel struct{ m *M }

func (rm reflModel) mk(t types.Type, v *Val, mode uint64) *Val {
	return &Val{agg: []*Val{rtypeVal(t), v, constVal(mode)}}
}

func (rm reflModel) invalid() *Val {
	return &Val{agg: []*Val{nilVal(), nilVal(), constVal(rvInvalid)}}
}

// parts reads a modelled reflect.Value; ok is false when it is not determined.
func (rm reflModel) parts(st *State, v *Val) (t types.Type, val *Val, addr *Val, ok bool) {
	v = rm.m.resolve(st, v)
	if v == nil || v.unk || len(v.agg) != 3 {
		return nil, nil, nil, false
	}
	mode, single := v.agg[2].single()
	if !single {
		return nil, nil, nil, false
	}
	switch fmt.Sprint(mode) {
	case "0":
		return nil, nil, nil, true
	}
	t = v.agg[0].rtype()
	if t == nil {
		return nil, nil, nil, false
	}
	if fmt.Sprint(mode) == "2" {
		return t, rm.m.load(st, v.agg[1], t), v.agg[1], true
	}
	return t, v.agg[1], nil, true
}

// of makes the reflect.Value of an interface value.
func (rm reflModel) of(st *State, i *Val) (*Val, bool) {
	i = rm.m.resolve(st, i)
	if i.isNil() {
		return rm.invalid(), true
	}
	if i.unk || i.nil_&nilBit != 0 || len(i.refs) != 1 || i.refs[0].t == nil {
		return nil, false
	}
	return rm.mk(i.refs[0].t, i.refs[0].v, rvValue), true
}

// iface makes the interface value of a reflect.Value.
func (rm reflModel) iface(st *State, t types.Type, v *Val) *Val {
	if types.IsInterface(t) {
		return v
	}
	return ifaceOf(t, v)
}

func (rm reflModel) elem(st *State, t types.Type, v *Val) (*Val, string, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		v = rm.m.resolve(st, v)
		if v.isNil() {
			return rm.invalid(), "", true
		}
		if v.nil_&nilBit != 0 || v.unk {
			return nil, "", false
		}
		return rm.mk(u.Elem(), v, rvAddr), "", true
	case *types.Interface:
		r, ok := rm.of(st, v)
		return r, "", ok
	}
	return nil, "reflect.Value.Elem of " + t.String(), false
}

// addrPath gives the address of a component of what addr points to.
func addrPath(addr *Val, t types.Type, m *M, k string) *Val {
	r := &Val{nil_: nonBit, src: addr.src}
	for _, ref := range m.targets(addr, t) {
		if ref.obj != nil {
			r.refs = append(r.refs, &Ref{obj: ref.obj, path: ref.path + "/" + k})
		}
	}
	return r
}

func (rm reflModel) field(st *State, rv *Val, t types.Type, v, addr *Val, i int) *Val {
	f := t.Underlying().(*types.Struct).Field(i)
	if addr != nil && f.Exported() {
		return rm.mk(f.Type(), addrPath(addr, t, rm.m, strconv.Itoa(i)), rvAddr)
	}
	return rm.mk(f.Type(), rm.m.child(v, strconv.Itoa(i)), rvValue)
}

func (rm reflModel) hooks() {
	m := rm.m
	one1 := func(st *State, v *Val) ([]Out, bool) { return one(st, v), true }
	m.hooks["reflect.ValueOf"] = func(st *State, c *Call) ([]Out, bool) {
		v, ok := rm.of(st, c.args[0])
		if !ok {
			return nil, false
		}
		return one1(st, v)
	}
	m.hooks["reflect.Zero"] = func(st *State, c *Call) ([]Out, bool) {
		t := c.args[0].rtype()
		if t == nil {
			return nil, false
		}
		return one1(st, rm.mk(t, zeroVal(t), rvValue))
	}
	m.hooks["reflect.New"] = func(st *State, c *Call) ([]Out, bool) {
		t := c.args[0].rtype()
		if t == nil {
			return nil, false
		}
		o := m.alloc(st, "reflect.New:"+m.siteID(c.site), t, 'c')
		st.mem[o] = zeroVal(t)
		return one1(st, rm.mk(types.NewPointer(t), &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}, rvValue))
	}
	m.hooks["reflect.MakeMap"] = func(st *State, c *Call) ([]Out, bool) {
		t := c.args[0].rtype()
		if t == nil {
			return nil, false
		}
		o := m.alloc(st, "reflect.MakeMap:"+m.siteID(c.site), t, 'm')
		st.mem[o] = &Val{mp: &MapV{k: map[string]*Val{}, v: map[string]*Val{}, may: map[string]bool{}, vt: t.Underlying().(*types.Map).Elem()}}
		return one1(st, rm.mk(t, &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}, rvValue))
	}
	for _, n := range []string{"PointerTo", "PtrTo", "SliceOf"} {
		n := n
		m.hooks["reflect."+n] = func(st *State, c *Call) ([]Out, bool) {
			t := c.args[0].rtype()
			if t == nil {
				return nil, false
			}
			if n == "SliceOf" {
				return one1(st, rtypeVal(types.NewSlice(t)))
			}
			return one1(st, rtypeVal(types.NewPointer(t)))
		}
	}
	m.hooks["reflect.MapOf"] = func(st *State, c *Call) ([]Out, bool) {
		k, e := c.args[0].rtype(), c.args[1].rtype()
		if k == nil || e == nil {
			return nil, false
		}
		return one1(st, rtypeVal(types.NewMap(k, e)))
	}
	m.hooks["(reflect.Type).Comparable"] = func(st *State, c *Call) ([]Out, bool) {
		t := c.args[0].rtype()
		if t == nil {
			return nil, false
		}
		return one1(st, boolVal(types.Comparable(t)))
	}
	m.hooks["(reflect.Type).ConvertibleTo"] = func(st *State, c *Call) ([]Out, bool) {
		t, u := c.args[0].rtype(), c.args[1].rtype()
		if t == nil || u == nil {
			return nil, false
		}
		return one1(st, boolVal(types.ConvertibleTo(t, u)))
	}
	m.hooks["(reflect.Type).AssignableTo"] = func(st *State, c *Call) ([]Out, bool) {
		t, u := c.args[0].rtype(), c.args[1].rtype()
		if t == nil || u == nil {
			return nil, false
		}
		return one1(st, boolVal(types.AssignableTo(t, u)))
	}
	m.hooks["reflect.Indirect"] = func(st *State, c *Call) ([]Out, bool) {
		t, v, _, ok := rm.parts(st, c.args[0])
		if !ok || t == nil {
			return nil, false
		}
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			return one1(st, c.args[0])
		}
		e, _, ok := rm.elem(st, t, v)
		if !ok {
			return nil, false
		}
		return one1(st, e)
	}
	appendHook := func(st *State, c *Call) ([]Out, bool) {
		t, v, _, ok := rm.parts(st, c.args[0])
		if !ok || t == nil {
			return nil, false
		}
		xs, ok := m.elems(st, v)
		if !ok {
			return nil, false
		}
		et, _ := arrayElem(t)
		all := append([]*Val(nil), xs...)
		if strings.HasSuffix(c.name, "AppendSlice") {
			_, w, _, ok := rm.parts(st, c.args[1])
			ys, ok2 := m.elems(st, w)
			if !ok || !ok2 {
				return nil, false
			}
			all = append(all, ys...)
		} else {
			ys, ok := m.elems(st, c.args[1])
			if !ok {
				return nil, false
			}
			for _, y := range ys {
				yt, yv, _, ok := rm.parts(st, y)
				if !ok {
					return nil, false
				}
				if yt == nil || !types.AssignableTo(yt, et) {
					c.frame.panicOut(st, c.site, fmt.Sprintf("reflect.Append of %v to %v", yt, t))
					return nil, true
				}
				if types.IsInterface(et) && !types.IsInterface(yt) {
					yv = ifaceOf(yt, yv)
				}
				all = append(all, yv)
			}
		}
		if len(all) == 0 {
			return one1(st, rm.mk(t, v, rvValue))
		}
		at := types.NewArray(et, int64(len(all)))
		o := m.alloc(st, c.name+":"+m.siteID(c.site), at, 'a')
		st.mem[o] = &Val{agg: all}
		return one1(st, rm.mk(t, &Val{nil_: nonBit, refs: []*Ref{{obj: o, ln: len(all)}}}, rvValue))
	}
	m.hooks["reflect.Append"], m.hooks["reflect.AppendSlice"] = appendHook, appendHook
	for _, n := range []string{"Kind", "Type", "IsNil", "IsZero", "IsValid", "CanSet", "CanAddr", "CanInterface", "Interface", "Elem", "Addr", "NumField", "Field", "FieldByName", "Len", "Index", "Set",
		"SetString", "SetBool", "SetInt", "SetFloat", "SetMapIndex", "Convert", "String", "Int", "Bool", "Float", "CanInt", "CanUint", "CanFloat", "OverflowInt", "OverflowUint", "OverflowFloat"} {
		m.hooks["(reflect.Value)."+n] = rm.method
	}
}

func (rm reflModel) method(st *State, c *Call) ([]Out, bool) {
	m := rm.m
	n := c.name[strings.LastIndex(c.name, ".")+1:]
	t, v, addr, ok := rm.parts(st, c.args[0])
	if !ok {
		return nil, false
	}
	panics := func(why string) ([]Out, bool) {
		c.frame.panicOut(st, c.site, "reflect.Value."+n+": "+why)
		return nil, true
	}
	ret := func(v *Val) ([]Out, bool) { return one(st, v), true }
	if t == nil {
		switch n {
		case "Kind":
			return ret(constVal(uint64(reflect.Invalid)))
		case "IsValid":
			return ret(boolVal(false))
		case "CanSet", "CanAddr", "CanInterface":
			return ret(boolVal(false))
		case "String":
			return ret(strVal("<invalid Value>"))
		}
		return panics("on the zero Value")
	}
	v = m.resolve(st, v)
	kind, _ := kindOf(t)
	basic, _ := t.Underlying().(*types.Basic)
	// splitting on what is not known of a value
	nilness := func() ([]Out, bool) {
		if v.isNil() {
			return ret(boolVal(true))
		}
		if v.notNil() {
			return ret(boolVal(false))
		}
		return nil, false
	}
	set := func(nt types.Type, nv *Val) ([]Out, bool) {
		if addr == nil {
			return panics("of an unaddressable value")
		}
		if nt == nil {
			return panics("with the zero Value")
		}
		if !types.AssignableTo(nt, t) {
			return panics(fmt.Sprintf("value of type %s is not assignable to type %s", nt, t))
		}
		if types.IsInterface(t) && !types.IsInterface(nt) {
			nv = ifaceOf(nt, nv)
		}
		m.store(st, addr, nv, t)
		return []Out{{st: st}}, true
	}
	switch n {
	case "Kind":
		return ret(constVal(uint64(kind)))
	case "Type":
		return ret(rtypeVal(t))
	case "IsValid", "CanInterface":
		return ret(boolVal(true))
	case "CanSet", "CanAddr":
		return ret(boolVal(addr != nil))
	case "IsNil":
		switch kind {
		case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer:
			return nilness()
		}
		return panics("on " + t.String())
	case "IsZero":
		if isZero(v) {
			return ret(boolVal(true))
		}
		if cv, ok := v.single(); ok {
			return ret(boolVal(fmt.Sprint(cv) == "0" || fmt.Sprint(cv) == "" || fmt.Sprint(cv) == "false"))
		}
		if v.nil_ == nonBit {
			return ret(boolVal(false))
		}
		return nil, false
	case "Interface":
		return ret(rm.iface(st, t, v))
	case "Elem":
		e, why, ok := rm.elem(st, t, v)
		if why != "" {
			return panics(why)
		}
		if !ok {
			return nil, false
		}
		return ret(e)
	case "Addr":
		if addr == nil {
			return panics("of an unaddressable value")
		}
		return ret(rm.mk(types.NewPointer(t), addr, rvValue))
	case "NumField":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return panics("on " + t.String())
		}
		return ret(constVal(int64(s.NumFields())))
	case "Field":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return panics("on " + t.String())
		}
		i, ok := c.args[1].integer()
		if !ok {
			return nil, false
		}
		if i < 0 || int(i) >= s.NumFields() {
			return panics("index out of range")
		}
		return ret(rm.field(st, c.args[0], t, v, addr, int(i)))
	case "FieldByName":
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return panics("on " + t.String())
		}
		name, ok := c.args[1].str()
		if !ok {
			return nil, false
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return ret(rm.field(st, c.args[0], t, v, addr, i))
			}
		}
		return ret(rm.invalid())
	case "Len":
		switch kind {
		case reflect.Slice:
			return ret(m.lenOf(st, v, t))
		case reflect.Map, reflect.String, reflect.Array:
			return ret(m.lenOf(st, v, t))
		}
		return panics("on " + t.String())
	case "Index":
		es, ok := m.elems(st, v)
		i, iok := c.args[1].integer()
		if !ok || !iok || kind != reflect.Slice {
			return nil, false
		}
		if i < 0 || int(i) >= len(es) {
			return panics("index out of range")
		}
		et, _ := arrayElem(t)
		r := v.refs[0]
		return ret(rm.mk(et, &Val{nil_: nonBit, refs: []*Ref{{obj: r.obj, path: r.path + "/" + strconv.Itoa(r.off+int(i))}}}, rvAddr))
	case "Set":
		nt, nv, _, ok := rm.parts(st, c.args[1])
		if !ok {
			// a value that is not determined
			if addr == nil {
				return panics("of an unaddressable value")
			}
			m.store(st, addr, unkVal(t, &Sym{"set." + m.siteID(c.site), false}), t)
			return []Out{{st: st}}, true
		}
		return set(nt, nv)
	case "SetString", "SetBool", "SetInt", "SetFloat":
		want := map[string]types.BasicInfo{"SetString": types.IsString, "SetBool": types.IsBoolean, "SetInt": types.IsInteger, "SetFloat": types.IsFloat}[n]
		if basic == nil || basic.Info()&want == 0 || n == "SetInt" && basic.Info()&types.IsUnsigned != 0 {
			return panics("on " + t.String())
		}
		return set(t, c.args[1])
	case "SetMapIndex":
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			return panics("on " + t.String())
		}
		if v.isNil() {
			return panics("assignment to entry in nil map")
		}
		kt, kv, _, ok1 := rm.parts(st, c.args[1])
		et, ev, _, ok2 := rm.parts(st, c.args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		if kt == nil || !types.AssignableTo(kt, mt.Key()) {
			return panics(fmt.Sprintf("key of type %v in %s", kt, t))
		}
		if et == nil {
			m.mapDelete(st, v, kv)
			return []Out{{st: st}}, true
		}
		if !types.AssignableTo(et, mt.Elem()) {
			return panics(fmt.Sprintf("value of type %v in %s", et, t))
		}
		if types.IsInterface(mt.Elem()) && !types.IsInterface(et) {
			ev = ifaceOf(et, ev)
		}
		m.mapStore(st, v, kv, ev, t)
		return []Out{{st: st}}, true
	case "Convert":
		nt := c.args[1].rtype()
		if nt == nil {
			return nil, false
		}
		if !types.ConvertibleTo(t, nt) {
			return panics(fmt.Sprintf("%s cannot be converted to %s", t, nt))
		}
		if types.IsInterface(nt) && !types.IsInterface(t) {
			return ret(rm.mk(nt, ifaceOf(t, v), rvValue))
		}
		if b, ok := nt.Underlying().(*types.Basic); ok && basic != nil && (b.Info()&types.IsNumeric != 0) && basic.Info()&types.IsNumeric != 0 && b.Kind() != basic.Kind() {
			return ret(rm.mk(nt, reflConv(v, b), rvValue))
		}
		return ret(rm.mk(nt, v, rvValue))
	case "String":
		if kind == reflect.String {
			return ret(v)
		}
		return ret(strVal("<" + t.String() + " Value>"))
	case "Bool", "Int", "Float":
		return ret(v)
	case "CanInt":
		return ret(boolVal(basic != nil && basic.Info()&types.IsInteger != 0 && basic.Info()&types.IsUnsigned == 0))
	case "CanUint":
		return ret(boolVal(basic != nil && basic.Info()&types.IsUnsigned != 0))
	case "CanFloat":
		return ret(boolVal(basic != nil && basic.Info()&types.IsFloat != 0))
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		if n == "OverflowInt" && (basic == nil || basic.Info()&types.IsInteger == 0 || basic.Info()&types.IsUnsigned != 0) {
			return panics("on " + t.String())
		}
		x, ok := c.args[1].integer()
		size := uint(0)
		if n == "OverflowInt" {
			if size = map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32}[basic.Kind()]; size == 0 {
				return ret(boolVal(false))
			}
		}
		if ok && n == "OverflowInt" {
			return ret(boolVal((x<<(64-size))>>(64-size) != x))
		}
		return ret(unkVal(types.Typ[types.Bool], c.sym()))
	}
	return nil, false
}

// reflConv converts a numeric constant to a basic type.
func reflConv(v *Val, b *types.Basic) *Val {
	if x, ok := v.integer(); ok {
		switch {
		case b.Info()&types.IsUnsigned != 0:
			return constVal(uint64(x))
		case b.Info()&types.IsInteger != 0:
			return constVal(x)
		case b.Info()&types.IsFloat != 0:
			return constVal(float64(x))
		}
	}
	if v.unk && v.sym != nil {
		return unkVal(types.Typ[b.Kind()], &Sym{b.Name() + "(" + v.sym.s + ")", v.sym.uniq})
	}
	return unkVal(types.Typ[b.Kind()], nil)
}
