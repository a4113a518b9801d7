package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C10", "abstract interpretation of the schema merge, field by field of the schema type, comparing the constraints of its result with those of its inputs", "for every field: present on either or both sides, equal or different, merged two and three ways, directly, below a property and below additional properties, alone and among all other fields; all pairs of bound and exclusivity",
		"The set of constraints a schema stands for is the union of those of its parts (itself and what its allOf lists), with a bound and its exclusivity counting as one constraint. For each field of the schema type, schemas with that field on one, the other or both sides are merged abstractly; the result must stand for exactly the constraints of the inputs, at the top level unless they conflict.", checkC10)
}

// mergeEnv builds schemas and reads the constraints they stand for.
type mergeEnv struct {
	*schemaPlaces
	w *World
}

// sample makes a distinctive non-zero value of type t; tag tells values apart, n is a number for it.
func (e *mergeEnv) sample(st *State, t types.Type, tag string, n int) *Val {
	if types.Identical(t, e.t) {
		return structOf(e.t, "ID", strVal(tag))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return strVal(tag)
		case u.Info()&types.IsBoolean != 0:
			return boolVal(true)
		case u.Info()&types.IsInteger != 0:
			return constVal(int64(n))
		case u.Info()&types.IsFloat != 0:
			return constVal(float64(n))
		}
	case *types.Pointer:
		return e.m.cellOf(st, "sample."+tag+types.TypeString(t, nil), u.Elem(), e.sample(st, u.Elem(), tag, n))
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return e.m.sliceOf(st, "sample."+tag, u.Elem(), constVal(int64(n)), constVal(int64(n+1)))
		}
		return e.m.sliceOf(st, "sample."+tag+types.TypeString(t, nil), u.Elem(), e.sample(st, u.Elem(), tag, n), e.sample(st, u.Elem(), tag+"2", n+10))
	case *types.Map:
		return e.m.mapOf(st, "sample."+tag+types.TypeString(t, nil), t, strVal(tag), e.sample(st, u.Elem(), tag, n), strVal("both"), e.sample(st, u.Elem(), tag, n))
	case *types.Struct:
		v := *zeroVal(t)
		v.agg = append([]*Val(nil), v.agg...)
		whole, but, _ := strings.Cut(tag, " but ") // "A but F": as A, except for field F
		for i := 0; i < u.NumFields(); i++ {
			if t, n := whole, n; u.Field(i).Name() == but {
				t, n = whole+" changed", n+3
				v.agg[i] = e.sample(st, u.Field(i).Type(), t, n)
				if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					v.agg[i] = boolVal(false)
				}
			} else {
				v.agg[i] = e.sample(st, u.Field(i).Type(), whole, n)
			}
		}
		return &v
	}
	fatalf("no sample of type %s", t)
	return nil
}

// docField tells whether a field documents a schema instead of constraining values.
func docField(f string) bool {
	return f == "Title" || f == "Description" || f == "Example" || f == "ExternalDocs"
}

// constraints adds what a schema stands for to set.
func (e *mergeEnv) constraints(st *State, v *Val, at string, set map[string]bool) {
	v = e.m.resolve(st, v)
	get := func(f string) *Val { return e.m.resolve(st, e.m.getField(v, e.t, f)) }
	u := e.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f, ft := u.Field(i).Name(), u.Field(i).Type()
		x := get(f)
		if isZero(x) || docField(f) {
			continue
		}
		val := e.m.canon(st, x, ft, 0)
		switch f {
		case "AllOf":
			es, ok := e.m.elems(st, x)
			if !ok {
				set[at+"?AllOf"] = true
			}
			for _, s := range es {
				e.constraints(st, s, at, set)
			}
		case "Maximum", "Minimum":
			set[at+f+"="+val+" exclusive="+e.m.canon(st, get("Exclusive"+f), nil, 0)] = true
		case "ExclusiveMaximum", "ExclusiveMinimum":
			if isZero(get(strings.TrimPrefix(f, "Exclusive"))) {
				set[at+f+" of nothing"] = true
			}
		case "Required", "XValidations":
			es, ok := e.m.elems(st, x)
			if !ok {
				set[at+"?"+f] = true
			}
			for _, s := range es {
				set[at+f+"="+e.m.canon(st, s, ft.Underlying().(*types.Slice).Elem(), 0)] = true
			}
		case "Properties":
			for _, kv := range e.m.mapEntries(st, x) {
				k, _ := kv[0].str()
				set[at+f+"{"+k+"}"] = true
				e.constraints(st, kv[1], at+f+"{"+k+"}/", set)
			}
		case "AdditionalProperties":
			o := e.m.load(st, x, ft.Underlying().(*types.Pointer).Elem())
			set[at+f+" allows="+e.m.canon(st, e.m.getField(o, deref(ft), "Allows"), nil, 0)] = true
			s := e.m.resolve(st, e.m.getField(o, deref(ft), "Schema"))
			if !isZero(s) {
				e.constraints(st, e.m.load(st, s, e.t), at+f+"/", set)
			}
		default:
			set[at+f+"="+val] = true
		}
	}
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// loose tells fields for which one of several values is kept: a conflict of types is reported, and
// the two extensions say how a value is treated, not which values are valid.
func looseField(k string) string {
	if i := strings.LastIndex(k, "/"); i >= 0 {
		k = k[i+1:]
	}
	f, _, _ := strings.Cut(k, "=")
	switch f {
	case "Type", "XMapType", "XPreserveUnknownFields":
		return f
	}
	return ""
}

// compare reports where got does not stand for what want does.
func (c *Check) compare(rule, what, pos string, got, want map[string]bool) {
	for _, k := range sortedSet(want) {
		if got[k] {
			c.ob(true, rule, what, pos, "")
			continue
		}
		kept := false
		if l := looseField(k); l != "" {
			pre := k[:strings.Index(k, l+"=")] + l + "="
			for g := range got {
				kept = kept || strings.HasPrefix(g, pre) && want[g]
			}
		}
		c.ob(kept, rule, what, pos, "%s: the constraint %s is lost; the result has %s", what, k, strings.Join(sortedSet(got), "; "))
	}
	for _, k := range sortedSet(got) {
		c.ob(want[k], rule, what+" extra", pos, "%s: the constraint %s appears from nowhere", what, k)
	}
}

// spec describes a schema: the values of its fields by tag, and what it embeds.
type spec struct {
	f     map[string]string // field → tag
	where string            // "", "Properties" or "AdditionalProperties": the place the fields are put
	all   []*spec
}

func (e *mergeEnv) make(st *State, s *spec) *Val {
	v := *zeroVal(e.t)
	v.agg = append([]*Val(nil), v.agg...)
	var fs []string
	for f := range s.f {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		tag := s.f[f]
		n := 5
		if len(tag) > 0 && tag[0] != 'A' {
			n = 7 + int(tag[0]-'A')
		}
		i := fieldIndex(e.t, f)
		if f == "Type" {
			tag = map[byte]string{'A': "object", 'B': "string", 'C': "integer"}[tag[0]]
		}
		v.agg[i] = e.sample(st, fieldType(e.t, f), tag, n)
		if f == "XPreserveUnknownFields" && tag != "A" {
			v.agg[i] = e.m.cellOf(st, "preserve", types.Typ[types.Bool], boolVal(false))
		}
	}
	r := &v
	switch s.where {
	case "Properties":
		r = structOf(e.t, "Properties", e.m.mapOf(st, "props", fieldType(e.t, "Properties"), strVal("p"), r))
	case "AdditionalProperties":
		ob := deref(fieldType(e.t, "AdditionalProperties"))
		r = structOf(e.t, "AdditionalProperties", e.m.cellOf(st, "addl", ob, structOf(ob, "Allows", boolVal(true), "Schema", e.m.cellOf(st, "addlschema", e.t, r))))
	}
	if len(s.all) > 0 {
		var es []*Val
		for _, a := range s.all {
			es = append(es, e.make(st, a))
		}
		x := *r
		x.agg = append([]*Val(nil), r.agg...)
		x.agg[fieldIndex(e.t, "AllOf")] = e.m.sliceOf(st, "allof", e.t, es...)
		r = &x
	}
	return r
}

type mergeCase struct {
	what     string
	s        *spec
	conflict bool // the parts have different values for some field
	types    bool // the parts have different types
}

func checkC10(c *Check) {
	w := c.W
	base := inited(w)
	newSchemaPlaces(w, base)
	fn := w.fn("pkg/crd", "FlattenEmbedded")
	pos := w.pos(fn.Pos())
	recT := fn.Signature.Params().At(1).Type()
	env := func() *mergeEnv {
		m := base.fork()
		e := &mergeEnv{newSchemaPlaces(w, m), w}
		m.maxRec = 8
		return e
	}
	st0 := w.depTyp(apiextPkg, "JSONSchemaProps").Underlying().(*types.Struct)
	var fields, docs []string
	for i := 0; i < st0.NumFields(); i++ {
		switch f := st0.Field(i).Name(); {
		case f == "AllOf" || f == "ExclusiveMaximum" || f == "ExclusiveMinimum":
		case docField(f):
			docs = append(docs, f)
		default:
			fields = append(fields, f)
		}
	}
	c.fact("fields of the schema type", len(fields))

	var cases []mergeCase
	isBool := func(f string) bool {
		b, ok := fieldType(w.depTyp(apiextPkg, "JSONSchemaProps"), f).Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	one := func(f, tag, where string, all ...*spec) *spec {
		s := &spec{f: map[string]string{}, where: where, all: all}
		if tag != "" {
			s.f[f] = tag
		}
		return s
	}
	for _, f := range fields {
		for _, where := range []string{"", "Properties", "AdditionalProperties"} {
			for _, tags := range []string{"A-", "-A", "AA", "AB", "-AB", "AAB", "ABC", "-BA", "A-B", "(AB)", "A(B)", "(A)B", "((A))B", "A((B)C)"} {
				if where != "" && len(tags) > 2 {
					continue
				}
				var s *spec
				distinct := map[byte]bool{}
				for i := range tags {
					if tags[i] >= 'A' {
						distinct[tags[i]] = true
					}
				}
				if strings.Contains(tags, "(") {
					// the outer schema has no value; what it embeds embeds more
					var parse func() []*spec
					i := 0
					parse = func() []*spec {
						var r []*spec
						for i < len(tags) && tags[i] != ')' {
							if tags[i] == '(' {
								i++
								in := parse()
								i++
								r = append(r, one(f, "", where, in...))
								continue
							}
							r = append(r, one(f, string(tags[i]), where))
							i++
						}
						return r
					}
					s = one(f, "", where, parse()...)
				} else {
					v := func(i int) string { return strings.Trim(tags[i:i+1], "-") }
					s = one(f, v(0), where)
					for i := 1; i < len(tags); i++ {
						s.all = append(s.all, one(f, v(i), where))
					}
				}
				ptr := false
				switch fieldType(w.depTyp(apiextPkg, "JSONSchemaProps"), f).Underlying().(type) {
				case *types.Basic:
				default:
					ptr = strings.Count(tags, "A") > 1
				}
				cases = append(cases, mergeCase{f + " " + tags + " " + where, s, (len(distinct) > 1 || ptr) && !isBool(f), len(distinct) > 1 && f == "Type"})
			}
		}
		// values that differ in one respect only
		if sl, ok := fieldType(w.depTyp(apiextPkg, "JSONSchemaProps"), f).Underlying().(*types.Slice); ok {
			if es, ok := sl.Elem().Underlying().(*types.Struct); ok && !types.Identical(sl.Elem(), w.depTyp(apiextPkg, "JSONSchemaProps")) {
				for i := 0; i < es.NumFields(); i++ {
					s := one(f, "A", "", one(f, "A but "+es.Field(i).Name(), ""))
					cases = append(cases, mergeCase{f + " differing in " + es.Field(i).Name(), s, true, false})
				}
			}
		}
		// among all other fields
		full := func(tag string, but string) *spec {
			s := &spec{f: map[string]string{}}
			for _, g := range fields {
				if g != but {
					s.f[g] = tag
				}
			}
			return s
		}
		a, b := full("A", f), full("A", "")
		cases = append(cases, mergeCase{f + " missing from the outer of two full schemas", &spec{f: a.f, all: []*spec{b}}, true, false})
		a, b = full("A", ""), full("B", f)
		cases = append(cases, mergeCase{f + " missing from the inner of two full schemas", &spec{f: a.f, all: []*spec{b}}, true, f != "Type"})
		cases = append(cases, mergeCase{f + " missing from both", &spec{f: full("A", f).f, all: []*spec{full("B", f)}}, true, f != "Type"})
	}
	// conflicts about different fields, one after the other
	for _, f := range fields {
		for _, g := range fields {
			if f != g {
				s := &spec{f: map[string]string{f: "A", g: "A"}, all: []*spec{one(f, "B", ""), one(g, "B", ""), one(f, "C", "")}}
				cases = append(cases, mergeCase{f + " then " + g, s, true, f == "Type" || g == "Type"})
			}
		}
	}
	// bounds
	for _, f := range []string{"Maximum", "Minimum"} {
		mk := func(k int) *spec {
			s := &spec{f: map[string]string{}}
			if k > 0 {
				s.f[f] = map[int]string{1: "A", 2: "A", 3: "B", 4: "B"}[k]
				if k%2 == 0 {
					s.f["Exclusive"+f] = "A"
				}
			}
			return s
		}
		for i := 0; i < 125; i++ {
			s := mk(i % 5)
			s.all = []*spec{mk(i / 5 % 5), mk(i / 25)}
			cases = append(cases, mergeCase{fmt.Sprintf("%s %d%d%d", f, i%5, i/5%5, i/25), s, true, false})
		}
	}

	c.par(len(cases), func(c *Check, wk, i int) {
		cs := cases[i]
		e := env()
		st := newState()
		in := e.make(st, cs.s)
		want := map[string]bool{}
		e.constraints(st, in, "", want)
		e.m.hooks["("+types.TypeString(recT, nil)+").AddError"] = func(st *State, cl *Call) ([]Out, bool) {
			st.count("errors")
			return []Out{{st: st}}, true
		}
		outs := e.m.interp(st, fn, e.m.cellOf(st, "in", e.t, in), unkNonNil(recT, &Sym{"recorder", true}))
		if !c.ob(len(outs) > 0 && len(e.m.over) == 0, "decided", cs.what, pos, "%s: the merge is not determined: %d outcomes, %v", cs.what, len(outs), e.m.over) {
			return
		}
		for _, o := range outs {
			if !c.ob(o.panics == "", "decided", cs.what+" panics", pos, "%s: the merge panics: %s", cs.what, o.panics) {
				continue
			}
			res := e.m.load(o.st, o.res[0], e.t)
			got := map[string]bool{}
			e.constraints(o.st, res, "", got)
			c.compare("kept", cs.what, pos, got, want)
			errs := o.st.notes["errors"] != nil
			c.ob(errs == cs.types, "reported", cs.what, pos, "%s: conflicting types: %v, but errors are reported: %v", cs.what, cs.types, errs)
			if !cs.conflict {
				left := ""
				e.each(o.st, e.t, res, "", func(path string, v *Val) {
					if strings.Contains(path, "AllOf") {
						left = path
					}
				})
				c.ob(left == "", "merged", cs.what, pos, "%s: nothing conflicts, but %s is left apart", cs.what, left)
			}
		}
	})
	c.checkFieldMerge(env, fields, docs)
	c.atLeast("kept", 3000)
}

// checkFieldMerge interprets the flattening of fields that refer to a type and say more about it.
func (c *Check) checkFieldMerge(env func() *mergeEnv, fields, docs []string) {
	w := c.W
	fl, ps, ti, lp := w.typ("pkg/crd", "Flattener"), w.typ("pkg/crd", "Parser"), w.typ("pkg/crd", "TypeIdent"), w.typ("pkg/loader", "Package")
	fn, emb := w.methodOf(fl, "FlattenType"), w.fn("pkg/crd", "FlattenEmbedded")
	pos := w.pos(fn.Pos())
	recT := emb.Signature.Params().At(1).Type()
	type fc struct {
		f, typ, field string // the tags of the type and of the field that refers to it
		docs          bool
		order         int
	}
	var cases []fc
	for _, f := range append(append([]string(nil), fields...), docs...) {
		if f == "Ref" {
			continue
		}
		for o := 0; o < 3; o++ {
			for _, t := range []string{"AB", "A-", "-B", "AA"} {
				cases = append(cases, fc{f, strings.Trim(t[:1], "-"), strings.Trim(t[1:], "-"), docField(f), o})
			}
		}
	}
	c.par(len(cases), func(c *Check, wk, i int) {
		cs := cases[i]
		e := env()
		m := e.m
		st := newState()
		what := fmt.Sprintf("%s %q on the type, %q on a field, order %d", cs.f, cs.typ, cs.field, cs.order)
		m.hooks[w.methodOf(ps, "NeedSchemaFor").String()] = func(st *State, cl *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		errs := func(st *State, cl *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
		m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = errs
		m.hooks["("+types.TypeString(recT, nil)+").AddError"] = errs
		raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
		pkg := m.cellOf(st, "pkg", lp, structOf(lp, "Package", m.cellOf(st, "raw", raw, structOf(raw, "PkgPath", strVal("example.com/v1"), "Name", strVal("v1")))))
		ident := func(n string) *Val { return structOf(ti, "Package", pkg, "Name", strVal(n)) }
		tspec, fspec := &spec{f: map[string]string{}}, &spec{f: map[string]string{}}
		if cs.docs {
			for _, d := range docs {
				tspec.f[d] = "A"
			}
		}
		if delete(tspec.f, cs.f); cs.typ != "" {
			tspec.f[cs.f] = cs.typ
		}
		if cs.field != "" {
			fspec.f[cs.f] = cs.field
		}
		with := func(v *Val, f string, x *Val) *Val {
			r := *v
			r.agg = append([]*Val(nil), v.agg...)
			r.agg[fieldIndex(e.t, f)] = x
			return &r
		}
		ref := func(v *Val) *Val {
			return with(v, "Ref", m.cellOf(st, "ref.T", types.Typ[types.String], strVal("#/definitions/T")))
		}
		typ, fld := e.make(st, tspec), e.make(st, fspec)
		said, plain := ref(fld), ref(zeroVal(e.t))
		var root *Val
		switch cs.order {
		case 0:
			root = structOf(e.t, "OneOf", m.sliceOf(st, "oneof", e.t, said, plain))
		case 1:
			root = structOf(e.t, "OneOf", m.sliceOf(st, "oneof", e.t, plain, said))
		case 2:
			root = structOf(e.t, "Properties", m.mapOf(st, "properties", fieldType(e.t, "Properties"), strVal("said"), said, strVal("plain"), plain))
		}
		schemata := m.mapOf(st, "schemata", fieldType(ps, "Schemata"), ident("Root"), root, ident("T"), typ)
		flv := m.cellOf(st, "flattener", fl, structOf(fl, "Parser", m.cellOf(st, "parser", ps, structOf(ps, "Schemata", schemata))))
		before := m.canon(st, schemata, fieldType(ps, "Schemata"), 0)
		wantPlain, wantSaid := map[string]bool{}, map[string]bool{}
		e.constraints(st, typ, "", wantPlain)
		e.constraints(st, typ, "", wantSaid)
		e.constraints(st, fld, "", wantSaid)
		wantDoc := func(d string, withField bool) string {
			x := m.resolve(st, m.getField(typ, e.t, d))
			if y := m.resolve(st, m.getField(fld, e.t, d)); withField && !isZero(y) {
				x = y
			}
			if isZero(x) {
				return "none"
			}
			return m.canon(st, x, fieldType(e.t, d), 0)
		}
		check := func(o *State, stage string, root *Val) {
			at := map[string]*Val{}
			switch cs.order {
			case 2:
				for _, kv := range m.mapEntries(o, m.resolve(o, m.getField(root, e.t, "Properties"))) {
					k, _ := kv[0].str()
					at[k] = kv[1]
				}
			default:
				if es, _ := m.elems(o, m.getField(root, e.t, "OneOf")); len(es) == 2 {
					at["said"], at["plain"] = es[cs.order], es[1-cs.order]
				}
			}
			for _, k := range []string{"said", "plain"} {
				v := m.resolve(o, at[k])
				if !c.ob(v != nil && v.agg != nil, "field", what+" "+k+stage, pos, "%s: the field is lost after %s", what, stage) {
					continue
				}
				got := map[string]bool{}
				e.constraints(o, v, "", got)
				want := wantPlain
				if k == "said" {
					want = wantSaid
				}
				c.compare("field", what+": field "+k+" after "+stage, pos, got, want)
				for _, d := range docs {
					g := "none"
					if x := m.resolve(o, m.getField(v, e.t, d)); !isZero(x) {
						g = m.canon(o, x, fieldType(e.t, d), 0)
					}
					wd := wantDoc(d, k == "said")
					c.ob(g == wd, "documentation", what+" "+k+" "+d+stage, pos, "%s: after %s the %s of field %s is %s, expected %s", what, stage, d, k, g, wd)
				}
			}
		}
		outs := m.interp(st, fn, flv, ident("Root"))
		if !c.ob(len(outs) > 0 && len(m.over) == 0, "decided", what, pos, "%s: flattening is not determined: %d outcomes, %v", what, len(outs), m.over) {
			return
		}
		for _, o := range outs {
			if !c.ob(o.panics == "" && o.st.notes["errors"] == nil && o.res[0].notNil(), "decided", what+" fails", pos, "%s: flattening fails: %s", what, o.panics) {
				continue
			}
			check(o.st, "flattening", m.load(o.st, o.res[0], e.t))
			c.ob(m.canon(o.st, schemata, fieldType(ps, "Schemata"), 0) == before, "unchanged", what, pos, "%s: flattening changes the schemas it reads", what)
			// again from the cache
			again := m.interp(o.st.clone(), fn, flv, ident("Root"))
			for _, p := range again {
				if c.ob(p.panics == "" && p.res[0].notNil(), "decided", what+" again", pos, "%s: flattening again fails: %s", what, p.panics) {
					check(p.st, "flattening again", m.load(p.st, p.res[0], e.t))
				}
			}
			merged := m.interp(o.st.clone(), emb, o.res[0], unkNonNil(recT, &Sym{"recorder", true}))
			for _, p := range merged {
				if c.ob(p.panics == "", "decided", what+" merging", pos, "%s: merging panics: %s", what, p.panics) {
					check(p.st, "merging", m.load(p.st, p.res[0], e.t))
					c.ob((p.st.notes["errors"] != nil) == (cs.f == "Type" && cs.typ+cs.field == "AB"), "reported", what, pos, "%s: errors reported: %v", what, p.st.notes["errors"] != nil)
				}
			}
			c.ob(len(again) > 0 && len(merged) > 0, "decided", what+" next", pos, "%s: the next step is not determined", what)
		}
	})
	c.atLeast("field", 1000)
}
