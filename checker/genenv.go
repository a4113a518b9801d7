package main

import (
	"fmt"
	"go/types"
	"strings"
)

// genEnv interprets a generator on abstract packages: each root has a table
// of package markers, and what the generator asks to be written is recorded
// at the call of the output context.
type genEnv struct {
	w     *World
	m     *M
	roots []*Val // loader packages
	marks map[*Obj][]any
	ctxT  types.Type
}

type written struct {
	name, header string
	objs         []string
	undetermined string
}

func newGenEnv(w *World) *genEnv {
	e := &genEnv{w: w, m: inited(w), marks: map[*Obj][]any{}, ctxT: w.typ("pkg/genall", "GenerationContext")}
	m := e.m
	m.maxStep = 1 << 40
	for _, p := range []string{metaV1, "k8s.io/api/rbac/v1", "k8s.io/api/admissionregistration/v1"} {
		sp := w.buildDep(p)
		m.inline[p] = true
		if g, c := sp.Var("SchemeGroupVersion"), sp.Const("GroupName"); g != nil && c != nil && p != metaV1 {
			t := deref(g.Type())
			m.base[m.global(g)] = structOf(t, "Group", constOf(c.Value), "Version", strVal("v1"))
		}
	}
	mp := modPath + "/pkg/"
	addErr := func(st *State, c *Call) ([]Out, bool) {
		if len(c.args) > 1 && c.args[1].isNil() {
			return []Out{{st: st}}, true
		}
		st.count("errors")
		return []Out{{st: st}}, true
	}
	m.hooks["(*"+mp+"loader.Package).AddError"] = addErr
	m.hooks[mp+"markers.PackageMarkers"] = func(st *State, c *Call) ([]Out, bool) {
		var kvs []any
		if len(c.args) == 2 && len(c.args[1].refs) == 1 && c.args[1].refs[0].obj != nil && !c.args[1].unk {
			kvs = e.marks[c.args[1].refs[0].obj]
		} else {
			m.fail("markers of an undetermined package")
		}
		// the collector hands out its own cached map
		return []Out{{st: st, res: []*Val{e.cached(st, c.args[1].refs[0].obj, kvs, c.res.At(0).Type()), nilVal()}}}, true
	}
	m.hooks["("+mp+"genall.GenerationContext).WriteYAML"] = func(st *State, c *Call) ([]Out, bool) {
		n := int64(0)
		if v, ok := st.notes["writes"].integer(); ok {
			n = v
		}
		st.count("writes")
		k := fmt.Sprintf("write%d.", n)
		st.note(k+"name", c.args[1])
		st.note(k+"header", c.args[2])
		es, ok := m.elems(st, c.args[3])
		if !ok && !c.args[3].isNil() {
			st.note(k+"undetermined", strVal(m.canon(st, c.args[3], nil, 0)))
		}
		for i, o := range es {
			st.note(fmt.Sprintf("%sobj%d", k, i), strVal(e.show(st, o)))
		}
		st.note(k+"n", constVal(int64(len(es))))
		st.note(k+"options", strVal(m.canon(st, c.args[4], nil, 0)))
		return one(st, nilVal()), true
	}
	return e
}

// show renders an object to be written, whether it is handed over as a value or a pointer.
func (e *genEnv) show(st *State, o *Val) string {
	if len(o.refs) == 1 && o.refs[0].t != nil && !o.unk && o.nil_ == nonBit {
		t, v := o.refs[0].t, o.refs[0].v
		if p, ok := t.(*types.Pointer); ok {
			if v.isNil() {
				return "nil"
			}
			t, v = p.Elem(), e.m.load(st, v, p.Elem())
		}
		return typeName(t) + e.m.canon(st, v, t, 0)
	}
	return "?" + e.m.canon(st, o, nil, 0)
}

func (e *genEnv) cached(st *State, o *Obj, kvs []any, t types.Type) *Val {
	k := "cached:" + o.id
	if v := st.notes[k]; v != nil {
		return v
	}
	var out []any
	for i := 0; i+1 < len(kvs); i += 2 {
		out = append(out, strVal(kvs[i].(string)), e.m.sliceOf(st, fmt.Sprintf("%s.%d", o.id, i), anyIface, kvs[i+1].([]*Val)...))
	}
	v := e.m.mapOf(st, k, t, out...)
	st.notes[k] = v
	return v
}

// root adds a package with the given markers: name, []*Val pairs.
func (e *genEnv) root(st *State, name string, kvs ...any) {
	pt := e.w.typ("pkg/loader", "Package")
	o := &Obj{id: "in:root." + name, t: pt, kind: 'c'}
	st.mem[o] = unkVal(pt, &Sym{"root." + name, true})
	e.roots = append(e.roots, &Val{nil_: nonBit, refs: []*Ref{{obj: o}}})
	e.marks[o] = kvs
}

func (e *genEnv) ctx(st *State) *Val {
	rt := fieldType(e.ctxT, "Roots")
	et, _ := arrayElem(rt)
	return e.m.cellOf(st, "ctx", e.ctxT, structOf(e.ctxT, "Roots", e.m.sliceOf(st, "roots", et, e.roots...),
		"Collector", unkNonNil(fieldType(e.ctxT, "Collector"), &Sym{"collector", true}), "OutputRule", unkNonNil(fieldType(e.ctxT, "OutputRule"), &Sym{"out", true}),
		"InputRule", unkNonNil(fieldType(e.ctxT, "InputRule"), &Sym{"in", true}), "Checker", unkNonNil(fieldType(e.ctxT, "Checker"), &Sym{"checker", true})))
}

// writes reads what was written in an outcome; ok is false when it is not determined.
func (e *genEnv) writes(st *State) ([]written, string) {
	if st.notes["writes"] == nil {
		return nil, ""
	}
	n, ok := st.notes["writes"].integer()
	if !ok || n > 2 {
		return nil, "the number of written files is undetermined"
	}
	var r []written
	for i := int64(0); i < n; i++ {
		k := fmt.Sprintf("write%d.", i)
		w := written{name: e.m.canon(st, st.notes[k+"name"], nil, 0), header: e.m.canon(st, st.notes[k+"header"], nil, 0)}
		if u := st.notes[k+"undetermined"]; u != nil {
			return nil, "written objects undetermined: " + u.String()
		}
		c, ok := st.notes[k+"n"].integer()
		if !ok {
			return nil, "number of written objects undetermined"
		}
		for j := int64(0); j < c; j++ {
			s, ok := st.notes[fmt.Sprintf("%sobj%d", k, j)].str()
			if !ok {
				return nil, "written object undetermined: " + st.notes[fmt.Sprintf("%sobj%d", k, j)].String()
			}
			w.objs = append(w.objs, s)
		}
		r = append(r, w)
	}
	return r, ""
}

func (e *genEnv) errors(o Out) string {
	if er := errOf(o); er != "nil" {
		return er
	}
	if o.st.notes["errors"] != nil {
		if _, ok := o.st.notes["errors"].integer(); !ok {
			return "maybe"
		}
		return "err"
	}
	return "nil"
}

func (w written) String() string {
	return w.name + ": " + strings.Join(w.objs, " --- ")
}
