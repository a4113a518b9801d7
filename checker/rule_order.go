package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C08: the order in which markers are written, and the order Go leaves open,
// have no influence on the schema.

// markerInst is one marker with one value.
type markerInst struct {
	name, label string
	t           types.Type
	mk          func(m *M, st *State, t types.Type) *Val
	json        string
}

func (i markerInst) String() string {
	if i.label == "" {
		return i.name
	}
	return i.name + "=" + i.label
}

// declBases are the declarations markers are applied to.
func declBases() []typeCase {
	str := func(e *schemaEnv) *Val { return e.ident("string", e.tm.basic[types.String]) }
	return []typeCase{
		{label: "string", mk: str},
		{label: "int32", mk: func(e *schemaEnv) *Val { return e.ident("int32", e.tm.basic[types.Int32]) }},
		{label: "[]string", mk: func(e *schemaEnv) *Val { return e.array(str(e), false) }},
		{label: "[]int32", mk: func(e *schemaEnv) *Val { return e.array(e.ident("int32", e.tm.basic[types.Int32]), false) }},
		{label: "map[string]string", mk: func(e *schemaEnv) *Val { return e.mapT(str(e), str(e)) }},
		{label: "Foo", mk: func(e *schemaEnv) *Val { return e.ident("Foo", e.tm.named(e.tpkg, "Foo", e.strUnder())) }},
	}
}

// orderInsts gives every schema marker one or more values.
func orderInsts(w *World) []markerInst {
	sm, _ := schemaMarkers(w)
	specs := applySpecs()
	var r []markerInst
	for _, n := range sortedKeys(sm) {
		sp, ok := specs[baseMarker(n)]
		if !ok {
			continue
		}
		t := sm[n]
		konst := func(vs ...any) {
			for _, v := range vs {
				v := v
				r = append(r, markerInst{name: n, label: fmt.Sprint(v), t: t, mk: func(m *M, st *State, t types.Type) *Val { return constVal(v) }})
			}
		}
		switch b := baseMarker(n); b {
		case vPrefix + "Type":
			konst("string", "integer", "array", "object", "")
		case "listType":
			konst("map", "set")
		case "mapType":
			konst("granular")
		case "structType":
			konst("atomic")
		case "kubebuilder:default", "default", "kubebuilder:example":
			mk := func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Value", unkNonNil(fieldType(t, "Value"), &Sym{"json{}" + n, true}))
			}
			r = append(r, markerInst{name: n, label: "{}", t: t, mk: mk, json: "{}"})
			r = append(r, markerInst{name: n, label: "x", t: t, mk: func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Value", unkNonNil(fieldType(t, "Value"), &Sym{"json\"x\"" + n, true}))
			}})
		default:
			v := sp.vals[0]
			r = append(r, markerInst{name: n, t: t, mk: v.mk})
		}
	}
	return r
}

// orderEnv applies markers directly and through the pipeline.
type orderEnv struct {
	*schemaEnv
	w *World
}

func newOrderEnv(w *World) *orderEnv {
	e := &orderEnv{newSchemaEnv(w), w}
	e.m.hooks["encoding/json.Marshal"] = func(st *State, c *Call) ([]Out, bool) {
		s := symOf(c.args[0])
		if s == nil || !strings.HasPrefix(s.s, "json") {
			return nil, false
		}
		j := "{}"
		if strings.HasPrefix(s.s, `json"x"`) {
			j = `"` + s.s[len(`json"x"`):] + `"`
		}
		return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), mkSym("bytes", strVal(j))), nilVal()}}}, true
	}
	return e
}

// result is the outcome of applying markers: each schema with the number of errors.
type orderResult struct {
	set  map[string]bool
	snap map[string]string // of the only outcome
	errs int64
}

func (r orderResult) String() string { return strings.Join(sortedKeys(r.set), " or ") }

func (e *orderEnv) put(r *orderResult, st *State, v *Val, errs int64) {
	s := e.jsp.Underlying().(*types.Struct)
	snap := map[string]string{}
	for i := 0; i < s.NumFields(); i++ {
		snap[s.Field(i).Name()] = e.m.canon(st, e.m.child(v, fmt.Sprint(i)), s.Field(i).Type(), 0)
	}
	r.set[fmt.Sprintf("%s with %d errors", e.m.canon(st, v, e.jsp, 0), errs)] = true
	r.snap, r.errs = snap, errs
}

// direct applies the markers one after the other to the schema of the bare declaration.
func (e *orderEnv) direct(base typeCase, insts ...markerInst) orderResult {
	e.reset()
	x := base.mk(e.schemaEnv)
	outs := e.schemaEnv.run("T", e.info("T", x, nil))
	if len(outs) != 1 || !outs[0].known {
		e.m.fail("declaration %s has no single schema", base.label)
	}
	type cur struct {
		st   *State
		errs int64
	}
	st := outs[0].st
	root := e.m.cellOf(st, "schema", e.jsp, outs[0].val)
	cs := []cur{{st, 0}}
	for k, in := range insts {
		var next []cur
		fn := applyMethod(e.w, in.t)
		for _, c := range cs {
			p := root
			if strings.HasPrefix(in.name, vPrefix+"items:") {
				v := e.m.load(c.st, root, e.jsp)
				it := e.m.resolve(c.st, e.m.getField(v, e.jsp, "Items"))
				ty, _ := e.m.getField(v, e.jsp, "Type").str()
				if it.isNil() || ty != "array" {
					c.errs++
					next = append(next, c)
					continue
				}
				sop := deref(fieldType(e.jsp, "Items"))
				p = e.m.at(c.st, it, sop, "Schema")
				if p.isNil() {
					c.errs++
					next = append(next, c)
					continue
				}
			}
			v := in.mk(e.m, c.st, in.t)
			if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
				v = e.m.cellOf(c.st, fmt.Sprintf("marker%d", k), in.t, v)
			}
			e.m.maxStep = e.m.steps + 200000
			for _, o := range e.m.interp(c.st, fn, v, p) {
				n := cur{o.st, c.errs}
				if errOf(o) != "nil" {
					n.errs++
				}
				next = append(next, n)
			}
		}
		cs = next
	}
	r := orderResult{set: map[string]bool{}}
	for _, c := range cs {
		e.put(&r, c.st, e.m.load(c.st, root, e.jsp), c.errs)
	}
	return r
}

// pipeline applies the markers as markers of the declaration.
func (e *orderEnv) pipeline(base typeCase, adverse int, onField bool, insts ...markerInst) orderResult {
	e.reset()
	e.m.adverse = adverse
	x := base.mk(e.schemaEnv)
	by := map[string][]*Val{}
	var names []string
	for k, in := range insts {
		v := in.mk(e.m, e.st, in.t)
		t := in.t
		if _, ok := applyMethod(e.w, in.t).Signature.Recv().Type().(*types.Pointer); ok {
			v = e.m.cellOf(e.st, fmt.Sprintf("marker%d", k), in.t, v)
			t = types.NewPointer(in.t)
		}
		if by[in.name] == nil {
			names = append(names, in.name)
		}
		by[in.name] = append(by[in.name], ifaceOf(t, v))
	}
	var kv []any
	for _, n := range names {
		kv = append(kv, strVal(n), e.markerVals("mv:"+n, by[n]...))
	}
	mm := e.markerMap("mm", kv...)
	r := orderResult{set: map[string]bool{}}
	var outs []schemaOut
	if onField {
		st := e.tm.node(e.st, "StructType", e.tm.iface(&tinfo{goType: "Struct"}))
		outs = e.schemaEnv.run("T", e.info("T", st, nil, e.field("F", `json:"f"`, x, mm)))
	} else {
		outs = e.schemaEnv.run("T", e.info("T", x, mm))
	}
	for _, o := range outs {
		if o.panics != "" || !o.known {
			r.set["panics: "+o.panics] = true
			continue
		}
		v := o.val
		if onField {
			es := e.m.mapEntries(o.st, e.m.getField(v, e.jsp, "Properties"))
			if len(es) != 1 {
				r.set["no property"] = true
				continue
			}
			c := *es[0][1]
			c.agg = append([]*Val(nil), c.agg...)
			c.agg[fieldIndex(e.jsp, "Description")] = symIn(types.Typ[types.String], "doc")
			v = &c
		}
		e.put(&r, o.st, v, o.errors)
	}
	return r
}

// effect is what a marker changed between two results.
func effect(before, after orderResult) string {
	var r []string
	for _, f := range diffSnap(before.snap, after.snap) {
		r = append(r, f+"="+after.snap[f])
	}
	return fmt.Sprintf("%s errors %d", strings.Join(r, " "), after.errs-before.errs)
}

func checkOrder(c *Check) {
	w := c.W
	insts := orderInsts(w)
	envs := make([]*orderEnv, 8)
	for i := range envs {
		envs[i] = newOrderEnv(w)
	}
	pos := w.pos(w.method("pkg/crd", "Parser", "NeedSchemaFor").Pos())
	bases := declBases()
	n := len(insts)
	type pair struct{ i, j int }
	c.par(len(bases)*n, func(c *Check, worker, k int) {
		base, i := bases[k/n], k%n
		e := envs[worker]
		a := insts[i]
		r0 := e.direct(base)
		ra := e.direct(base, a)
		// alone
		c.ob(e.pipeline(base, 0, false, a).String() == ra.String(), "applied", a.name, pos, "%s on %s gives %s, applying it alone gives %s", a, base.label, e.pipeline(base, 0, false, a), ra)
		for j := i + 1; j < n; j++ {
			b := insts[j]
			if a.name == b.name {
				continue
			}
			rb := e.direct(base, b)
			ab := e.direct(base, a, b)
			ba := e.direct(base, b, a)
			eff := func(x orderResult, y orderResult) string { return effect(x, y) }
			aDep := len(ab.set) == 1 && len(ba.set) == 1 && eff(rb, ba) != eff(r0, ra) // a behaves differently after b
			bDep := len(ab.set) == 1 && len(ba.set) == 1 && eff(ra, ab) != eff(r0, rb)
			same := ab.String() == ba.String()
			key := a.name + "~" + b.name
			if same && !(c.Tier == "thorough" || i%4 == 0 || aDep || bDep) {
				c.ob(true, "independent", key, pos, "")
				continue
			}
			for _, onField := range []bool{false, true} {
				p1 := e.pipeline(base, 0, onField, a, b)
				p2 := e.pipeline(base, 1, onField, a, b)
				if p3 := e.pipeline(base, 2, onField, a, b); p2.String() == p1.String() {
					p2 = p3
				}
				where := fmt.Sprintf("%s and %s on %s", a, b, base.label)
				c.ob(p1.String() == p2.String(), "fixed-order", key, pos, "%s: the schema depends on the order the markers are met in: %s, or %s", where, p1, p2)
				switch {
				case same:
					c.ob(p1.String() == ab.String(), "both-applied", key, pos, "%s: gives %s, expected %s", where, p1, ab)
				case bDep && !aDep:
					c.ob(p1.String() == ab.String(), "dependent-last", key, pos, "%s: %s depends on %s but is not applied after it: gives %s, expected %s", where, b.name, a.name, p1, ab)
				case aDep && !bDep:
					c.ob(p1.String() == ba.String(), "dependent-last", key, pos, "%s: %s depends on %s but is not applied after it: gives %s, expected %s", where, a.name, b.name, p1, ba)
				default:
					c.ob(p1.String() == ab.String() || p1.String() == ba.String(), "both-applied", key, pos, "%s: gives %s, expected %s or %s", where, p1, ab, ba)
				}
			}
		}
	})
	_ = pair{}
	// repeated markers keep the order of the source
	sort.Slice(insts, func(i, j int) bool { return insts[i].String() < insts[j].String() })
	for _, rep := range []string{"listMapKey", vPrefix + "XValidation"} {
		for _, in := range insts {
			if in.name != rep {
				continue
			}
			e := envs[0]
			base := bases[2]
			mk := func(s string) markerInst {
				x := in
				x.mk = func(m *M, st *State, t types.Type) *Val {
					str := types.Typ[types.String]
					if t.Underlying().String() == "string" {
						return symIn(str, s)
					}
					return structOf(t, "Rule", symIn(str, s))
				}
				return x
			}
			a, b := mk("first"), mk("second")
			pre := []markerInst{}
			if rep == "listMapKey" {
				for _, x := range insts {
					if x.name == "listType" && x.label == "map" {
						pre = append(pre, x)
					}
				}
			}
			want := e.direct(base, append(append([]markerInst{}, pre...), a, b)...)
			for adv := range 3 {
				got := e.pipeline(base, adv, false, append(append([]markerInst{}, pre...), a, b)...)
				c.ob(got.String() == want.String() && want.errs == 0, "source-order", rep, pos, "two %s markers give %s, expected %s", rep, got, want)
			}
		}
	}
	c.fact("marker_instances", n)
}

func init() {
	register("C08", "abstract interpretation over marker pairs, both resolutions of every open order",
		"Pairs suffice for conflicts and dependencies between two markers; three-way interactions are covered only as far as they are made of pairs. Repetition is checked for the accumulating markers.",
		"For every pair of registered schema markers and every class of declaration the two orders of application are interpreted directly; where they differ, the effect analysis says which marker depends on the other. The declaration is then interpreted with both markers through NeedSchemaFor, with map iteration and unstable sorting resolved both ways: both resolutions must agree, and equal the application of the dependent marker last.",
		func(c *Check) {
			checkOrder(c)
			c.atLeast("fixed-order", 500)
			c.atLeast("dependent-last", 50)
			c.atLeast("source-order", 4)
		})
}
