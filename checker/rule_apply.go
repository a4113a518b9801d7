package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06, C07, C08: what applying each schema marker does, for every class of
// schema and marker value.

const apiextPath = "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
const vPrefix = "kubebuilder:validation:"

type schemaCell struct {
	typ  string
	ios  bool
	list string // "-" for nil
}

func (s schemaCell) String() string {
	return fmt.Sprintf("type=%q intOrString=%v listType=%s", s.typ, s.ios, s.list)
}

var schemaTypes = []string{"", "string", "integer", "number", "boolean", "array", "object", "other"}

func allCells() []schemaCell {
	var r []schemaCell
	for _, t := range schemaTypes {
		for _, i := range []bool{false, true} {
			for _, l := range []string{"-", "map", "set", "atomic"} {
				r = append(r, schemaCell{t, i, l})
			}
		}
	}
	return r
}

// valClass is one class of marker values with what applying it must do.
type valClass struct {
	label string
	mk    func(m *M, st *State, t types.Type) *Val
	// ok: the value is acceptable for a schema of this class
	ok func(c schemaCell) bool
	// want is the canonical content of the target field afterwards
	want func(c schemaCell) []string
	// json, when set, is the JSON form of the marker's value; "error" when it has none
	json string
}

type applySpec struct {
	field string // JSONSchemaProps field; "" when the marker itself changes nothing
	guard func(c schemaCell) bool
	vals  []valClass
	// set when an accepted value may also leave the schema alone
	noop func(label string) bool
}

func always(schemaCell) bool { return true }
func numeric(c schemaCell) bool {
	return c.typ == "integer" || c.typ == "number"
}
func textual(c schemaCell) bool { return c.typ == "string" || c.ios }
func arrayT(c schemaCell) bool  { return c.typ == "array" }
func objectT(c schemaCell) bool { return c.typ == "object" }

func lit(s ...string) func(schemaCell) []string { return func(schemaCell) []string { return s } }

func symClass(want string) valClass {
	return valClass{label: "any value", mk: func(m *M, st *State, t types.Type) *Val { return symIn(t, "mv") }, want: lit(want)}
}

func constClass(v any, ok func(schemaCell) bool, want string) valClass {
	return valClass{label: fmt.Sprint(v), mk: func(m *M, st *State, t types.Type) *Val { return constVal(v) }, ok: ok, want: lit(want)}
}

func floatSpec(field string) applySpec {
	integral := func(c schemaCell) bool { return c.typ != "integer" }
	s := applySpec{field: field, guard: numeric}
	for _, f := range []float64{0, 2, -3, 1e15} {
		s.vals = append(s.vals, constClass(f, always, "&"+fmt.Sprint(f)))
	}
	for _, f := range []float64{2.5, -0.5, 1e-9, math.Inf(1), math.Inf(-1)} {
		s.vals = append(s.vals, constClass(f, integral, "&"+fmt.Sprint(f)))
	}
	// any value: undetermined on integers, so only the effect is checked there
	s.vals = append(s.vals, valClass{label: "any value", mk: func(m *M, st *State, t types.Type) *Val { return symIn(t, "mv") }, want: lit("&$mv")})
	return s
}

func enumStrSpec(field string, guard func(schemaCell) bool, good []string, ptr bool) applySpec {
	s := applySpec{field: field, guard: guard}
	amp := ""
	if ptr {
		amp = "&"
	}
	for _, v := range good {
		s.vals = append(s.vals, constClass(v, always, amp+fmt.Sprintf("%q", v)))
	}
	never := func(schemaCell) bool { return false }
	for _, v := range []string{"", "x", strings.ToUpper(good[0]), good[0] + " ", "array", "integer"} {
		s.vals = append(s.vals, constClass(v, never, ""))
	}
	return s
}

var anyIface = types.NewInterfaceType(nil, nil)

// jsonField: a struct marker with one Value field of any type, marshalled.
func jsonValueSpec(field string, emptyList bool) applySpec {
	mk := func(m *M, st *State, t types.Type) *Val {
		return structOf(t, "Value", unkNonNil(fieldType(t, "Value"), &Sym{"mv", true}))
	}
	// the JSON forms the code tells apart
	empty := func(c schemaCell) []string {
		if emptyList && c.typ == "array" {
			return []string{`&{Raw:$bytes("[]")}`}
		}
		return []string{`&{Raw:$bytes("{}")}`}
	}
	return applySpec{field: field, guard: always, vals: []valClass{
		{label: "empty object", mk: mk, ok: always, want: empty, json: "{}"},
		{label: "empty list", mk: mk, ok: always, want: lit(`&{Raw:$bytes("[]")}`), json: "[]"},
		{label: "null", mk: mk, ok: always, want: lit(`&{Raw:$bytes("null")}`), json: "null"},
		{label: "text", mk: mk, ok: always, want: lit(`&{Raw:$bytes("\"a\"")}`), json: `"a"`},
		{label: "unmarshalable", mk: mk, ok: func(schemaCell) bool { return false }, want: lit(""), json: "error"},
	}}
}

func unitSpec(field, want string) applySpec {
	return applySpec{field: field, guard: always, vals: []valClass{{label: "set", mk: func(m *M, st *State, t types.Type) *Val { return zeroVal(t) }, ok: always, want: lit(want)}}}
}

// applySpecs is the documented effect of each marker name (without the items: infix).
func applySpecs() map[string]applySpec {
	prefixed := map[string]applySpec{
		"Maximum":                floatSpec("Maximum"),
		"Minimum":                floatSpec("Minimum"),
		"MultipleOf":             floatSpec("MultipleOf"),
		"ExclusiveMaximum":       {field: "ExclusiveMaximum", guard: numeric, vals: []valClass{constClass(true, always, "true"), constClass(false, always, "false")}},
		"ExclusiveMinimum":       {field: "ExclusiveMinimum", guard: numeric, vals: []valClass{constClass(true, always, "true"), constClass(false, always, "false")}},
		"UniqueItems":            {field: "UniqueItems", guard: arrayT, vals: []valClass{constClass(true, always, "true"), constClass(false, always, "false")}},
		"MaxLength":              {field: "MaxLength", guard: textual, vals: []valClass{symClass("&$mv")}},
		"MinLength":              {field: "MinLength", guard: textual, vals: []valClass{symClass("&$mv")}},
		"Pattern":                {field: "Pattern", guard: textual, vals: []valClass{symClass("$mv")}},
		"MaxItems":               {field: "MaxItems", guard: arrayT, vals: []valClass{symClass("&$mv")}},
		"MinItems":               {field: "MinItems", guard: arrayT, vals: []valClass{symClass("&$mv")}},
		"MaxProperties":          {field: "MaxProperties", guard: objectT, vals: []valClass{symClass("&$mv")}},
		"MinProperties":          {field: "MinProperties", guard: objectT, vals: []valClass{symClass("&$mv")}},
		"Format":                 {field: "Format", guard: always, vals: []valClass{symClass("$mv")}},
		"Type":                   {field: "Type", guard: always, vals: []valClass{symClass("$mv")}},
		"XPreserveUnknownFields": unitSpec("XPreserveUnknownFields", "&true"),
		"XEmbeddedResource":      unitSpec("XEmbeddedResource", "true"),
		"EmbeddedResource":       unitSpec("XEmbeddedResource", "true"),
		"XIntOrString":           unitSpec("XIntOrString", "true"),
		"Enum": {field: "Enum", guard: always, vals: []valClass{{label: "two values", mk: func(m *M, st *State, t types.Type) *Val {
			et, _ := arrayElem(t)
			return m.sliceOf(st, "enum", et, unkNonNil(et, &Sym{"e0", true}), unkNonNil(et, &Sym{"e1", true}))
		}, want: lit("[{Raw:$encoding/json.Marshal(e0)#0}, {Raw:$encoding/json.Marshal(e1)#0}]")}}},
		"XValidation": xvalidationSpec(),
	}
	r := map[string]applySpec{
		"nullable":            unitSpec("Nullable", "true"),
		"kubebuilder:default": jsonValueSpec("Default", true),
		"default":             withNilNoop(jsonValueSpec("Default", false)),
		"kubebuilder:example": jsonValueSpec("Example", false),
		"kubebuilder:pruning:PreserveUnknownFields": unitSpec("XPreserveUnknownFields", "&true"),
		"kubebuilder:title":                         titleSpec(),
		"listType":                                  enumStrSpec("XListType", arrayT, []string{"map", "set", "atomic"}, true),
		"mapType":                                   enumStrSpec("XMapType", objectT, []string{"granular", "atomic"}, true),
		"structType":                                enumStrSpec("XMapType", func(c schemaCell) bool { return c.typ == "object" || c.typ == "" }, []string{"granular", "atomic"}, true),
		"listMapKey": {field: "XListMapKeys", guard: func(c schemaCell) bool { return c.typ == "array" && c.list == "map" },
			vals: []valClass{symClass("[$s.XListMapKeys, $mv]")}},
	}
	for k, v := range prefixed {
		r[vPrefix+k] = v
	}
	return r
}

func withNilNoop(s applySpec) applySpec {
	s.vals = append(s.vals, valClass{label: "nil", mk: func(m *M, st *State, t types.Type) *Val { return structOf(t, "Value", nilVal()) }, ok: always, want: lit("=")})
	return s
}

func titleSpec() applySpec {
	str := func(m *M, st *State, t types.Type) *Val {
		return structOf(t, "Value", ifaceOf(types.Typ[types.String], symIn(types.Typ[types.String], "mv")))
	}
	num := func(m *M, st *State, t types.Type) *Val {
		return structOf(t, "Value", ifaceOf(types.Typ[types.Int], symIn(types.Typ[types.Int], "mv")))
	}
	s := applySpec{field: "Title", guard: always, vals: []valClass{
		{label: "string", mk: str, ok: always, want: lit("$mv")},
		{label: "number", mk: num, ok: func(schemaCell) bool { return false }, want: lit("")},
	}}
	return withNilNoop(s)
}

func xvalidationSpec() applySpec {
	mk := func(reason *Val) func(m *M, st *State, t types.Type) *Val {
		return func(m *M, st *State, t types.Type) *Val {
			s := types.Typ[types.String]
			return structOf(t, "Rule", symIn(s, "mv.rule"), "Message", symIn(s, "mv.message"), "MessageExpression", symIn(s, "mv.expr"),
				"Reason", reason, "FieldPath", symIn(s, "mv.path"), "OptionalOldSelf", unkVal(fieldType(t, "OptionalOldSelf"), &Sym{"mv.old", true}))
		}
	}
	want := func(r string) func(schemaCell) []string {
		return lit("[$s.XValidations, {Rule:$mv.rule Message:$mv.message MessageExpression:$mv.expr" + r + " FieldPath:$mv.path OptionalOldSelf:$mv.old}]")
	}
	s := applySpec{field: "XValidations", guard: always}
	s.vals = append(s.vals, valClass{label: "no reason", mk: mk(strVal("")), ok: always, want: want("")})
	for _, r := range []string{"FieldValueRequired", "FieldValueInvalid", "FieldValueForbidden", "FieldValueDuplicate"} {
		s.vals = append(s.vals, valClass{label: r, mk: mk(strVal(r)), ok: always, want: want(fmt.Sprintf(" Reason:&%q", r))})
	}
	for _, r := range []string{"x", "fieldvalueinvalid", "FieldValueNotFound", " "} {
		s.vals = append(s.vals, valClass{label: r, mk: mk(strVal(r)), ok: func(schemaCell) bool { return false }, want: lit("")})
	}
	return s
}

type applyEnv struct {
	w   *World
	m   *M
	jsp types.Type
}

func newApplyEnv(w *World) *applyEnv {
	return &applyEnv{w: w, m: inited(w), jsp: w.depTyp(apiextPath, "JSONSchemaProps")}
}

// schema builds a schema of the given class; everything else in it is an unknown named after its field.
func (e *applyEnv) schema(st *State, id string, c schemaCell) *Val {
	s := e.jsp.Underlying().(*types.Struct)
	v := &Val{agg: make([]*Val, s.NumFields())}
	for i := range v.agg {
		f := s.Field(i)
		n := "s." + f.Name()
		switch {
		case f.Name() == "Type":
			v.agg[i] = strVal(c.typ)
		case f.Name() == "XIntOrString":
			v.agg[i] = boolVal(c.ios)
		case f.Name() == "XListType":
			if c.list == "-" {
				v.agg[i] = nilVal()
			} else {
				v.agg[i] = e.m.cellOf(st, id+".XListType", deref(f.Type()), strVal(c.list))
			}
		case isSliceT(f.Type()):
			et, _ := arrayElem(f.Type())
			v.agg[i] = e.m.sliceOf(st, id+"."+f.Name(), et, symIn(et, n))
		case isPtrLike(f.Type()):
			v.agg[i] = unkVal(f.Type(), &Sym{n, true})
		default:
			v.agg[i] = symIn(f.Type(), n)
		}
	}
	return e.m.cellOf(st, id, e.jsp, v)
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// snap renders every field of the schema p points to.
func (e *applyEnv) snap(st *State, p *Val) map[string]string {
	s := e.jsp.Underlying().(*types.Struct)
	r := map[string]string{}
	v := e.m.load(st, p, e.jsp)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x := e.m.child(v, fmt.Sprint(i))
		if x != nil && x.unk && x.sym != nil && x.sym.s == "s."+f.Name() {
			r[f.Name()] = "$" + x.sym.s // an assumption made about it on the path does not change it
			continue
		}
		r[f.Name()] = e.m.canon(st, x, f.Type(), 0)
	}
	return r
}

func diffSnap(a, b map[string]string) []string {
	var r []string
	for k := range a {
		if a[k] != b[k] {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func applyMethod(w *World, t types.Type) *ssa.Function { return w.methodOf(t, "ApplyToSchema") }

// schemaMarkers lists the CRD generator's markers that are applied to schemas, by name; rows differ in target only.
func schemaMarkers(w *World) (map[string]types.Type, []markerDef) {
	crd := w.typ("pkg/crd", "Generator")
	defs := markerTable(w, crd)
	r := map[string]types.Type{}
	for _, d := range defs {
		if d.Target != 0 && applyMethod(w, d.Out) != nil {
			r[d.Name] = d.Out
		}
	}
	return r, defs
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// runApply interprets ApplyToSchema of marker type t with one value class on one schema class.
func (e *applyEnv) run(t types.Type, vc valClass, cell schemaCell) (before map[string]string, outs []Out, p *Val) {
	st := newState()
	p = e.schema(st, "schema", cell)
	before = e.snap(st, p)
	fn := applyMethod(e.w, t)
	v := vc.mk(e.m, st, t)
	if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
		v = e.m.cellOf(st, "marker", t, v)
	}
	e.m.maxStep = e.m.steps + 200000
	delete(e.m.hooks, "encoding/json.Marshal")
	if vc.json != "" {
		e.m.hooks["encoding/json.Marshal"] = func(st *State, c *Call) ([]Out, bool) {
			if vc.json == "error" {
				return []Out{{st: st, res: []*Val{nilVal(), errVal("json")}}}, true
			}
			return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), mkSym("bytes", strVal(vc.json))), nilVal()}}}, true
		}
	}
	return before, e.m.interp(st, fn, v, p), p
}
func baseMarker(name string) string {
	return strings.Replace(name, vPrefix+"items:", vPrefix, 1)
}

func checkApply(c *Check, effects bool) {
	w := c.W
	sm, defs := schemaMarkers(w)
	specs := applySpecs()
	e := newApplyEnv(w)
	var names []string
	for n := range sm {
		names = append(names, n)
	}
	sort.Strings(names)
	type key struct {
		t, spec string
	}
	done := map[key]bool{}
	for _, n := range names {
		sp, ok := specs[baseMarker(n)]
		if !ok {
			continue // not a marker these rules know; C05 reports unknown names
		}
		t := sm[n]
		k := key{typeName(t), baseMarker(n)}
		if done[k] {
			continue
		}
		done[k] = true
		fn := applyMethod(w, t)
		pos := w.pos(fn.Pos())
		for _, cell := range allCells() {
			for _, vc := range sp.vals {
				before, outs, p := e.run(t, vc, cell)
				where := fmt.Sprintf("%s value %s on %s", n, vc.label, cell)
				if len(outs) == 0 {
					c.bad("applies", n, pos, "%s: no outcome", where)
				}
				mustOK := sp.guard(cell) && (vc.ok == nil || vc.ok(cell))
				mustErr := !sp.guard(cell) || vc.ok != nil && !vc.ok(cell)
				sawOK := false
				for _, o := range outs {
					er := errOf(o)
					after := e.snap(o.st, p)
					ch := diffSnap(before, after)
					if !effects { // C07
						switch {
						case er != "nil" && er != "err":
							c.bad("accept-reject", n, pos, "%s: outcome is %s", where, er)
						case mustErr:
							c.ob(er == "err", "accept-reject", n, pos, "%s is accepted, although the constraint is not defined for it", where)
						case vc.ok != nil && mustOK:
							c.ob(er == "nil", "accept-reject", n, pos, "%s is rejected, although the constraint is defined for it", where)
						}
						if er == "err" {
							c.ob(len(ch) == 0, "reject-keeps-schema", n, pos, "%s is rejected but changes %s", where, strings.Join(ch, ", "))
						}
						if er == "nil" {
							sawOK = true
						}
						continue
					}
					// C06
					if er != "nil" || !mustOK {
						continue
					}
					want := vc.want(cell)
					if len(want) == 1 && want[0] == "=" {
						c.ob(len(ch) == 0, "argument-lands", n, pos, "%s changes %s", where, strings.Join(ch, ", "))
						continue
					}
					got := after[sp.field]
					c.ob(contains(want, got), "argument-lands", n, pos, "%s sets %s to %s, expected %s", where, sp.field, got, strings.Join(want, " or "))
					var other []string
					for _, f := range ch {
						if f != sp.field {
							other = append(other, f)
						}
					}
					c.ob(len(other) == 0, "argument-lands-only", n, pos, "%s also changes %s", where, strings.Join(other, ", "))
				}
				if !effects && vc.ok == nil && mustOK {
					c.ob(sawOK, "accept-reject", n, pos, "%s is always rejected, although the constraint is defined for it", where)
				}
			}
		}
	}
	c.fact("schema_marker_names", len(names))
	c.fact("marker_definitions", len(defs))
}

func init() {
	register("C07", "abstract interpretation over enumerated schema classes",
		"Each marker's application is interpreted on the type-checked SSA for every class of schema (type, int-or-string, list type) and marker value; sound for those classes because all other schema content is an unknown.",
		"Abstract interpretation (constants, points-to, nilness, named unknowns) of every registered marker's ApplyToSchema decides, per class of schema and marker value, whether it is accepted, and that a rejected marker changes no field of the schema.",
		func(c *Check) {
			checkApply(c, false)
			c.atLeast("accept-reject", 3000)
			c.atLeast("reject-keeps-schema", 1000)
		})
	register("C06", "abstract interpretation with labelled inputs",
		"Marker arguments are tracked as named unknowns through the application code to the manifest fields they reach.",
		"Every argument of a marker is followed as a named unknown through the abstract interpretation of the code that applies it; the documented field must end up holding exactly that unknown and no other field may change.",
		func(c *Check) {
			checkApply(c, true)
			c.atLeast("argument-lands", 1000)
			checkCRDMarkers(c)
			checkGeneratorLanding(c)
			checkArgumentNames(c)
			c.atLeast("crd-argument-lands-only", 1000)
		})
}
