package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C18, C19, C08 on schemas: NeedSchemaFor interpreted on abstract type declarations.

// schemaEnv is one scenario: a machine, a state and a package to declare types in.
type schemaEnv struct {
	w                     *World
	m                     *M
	tm                    *typeModel
	st                    *State
	lp, pp                types.Type // loader.Package, packages.Package
	tpkg                  *Val       // *types.Package of the package under analysis
	pkg                   *Val       // *loader.Package
	pkgs                  map[string]*Val
	kvs                   []any
	dangerous, ignoreUnex bool
	pkgMarkers            []any
	jsp                   types.Type
}

const pkgPathUnder = "example.com/api/v1"

func newSchemaEnv(w *World) *schemaEnv {
	m := inited(w)
	e := &schemaEnv{w: w, m: m, tm: m.tm, jsp: w.depTyp(apiextPath, "JSONSchemaProps")}
	e.lp = w.typ("pkg/loader", "Package")
	e.pp = w.depTyp("golang.org/x/tools/go/packages", "Package")
	e.reset()
	e.hooks()
	return e
}

// reset starts another scenario on the same machine.
func (e *schemaEnv) reset() {
	e.st, e.pkgs, e.kvs, e.pkgMarkers = newState(), map[string]*Val{}, nil, nil
	e.dangerous, e.ignoreUnex, e.m.adverse = false, false, 0
	e.tpkg = e.tm.pkg(pkgPathUnder, nil)
	e.pkg = e.loaderPkg(pkgPathUnder, e.tpkg)
}

func (e *schemaEnv) loaderPkg(path string, tp *Val) *Val {
	m, st := e.m, e.st
	info := m.cellOf(st, "typesinfo:"+path, e.w.depTyp("go/types", "Info"), nil)
	p := m.cellOf(st, "packages.Package:"+path, e.pp, structOf(e.pp, "ID", strVal(path), "Name", strVal(path[strings.LastIndex(path, "/")+1:]), "PkgPath", strVal(path), "Types", tp, "TypesInfo", info))
	r := m.cellOf(st, "pkg:"+path, e.lp, structOf(e.lp, "Package", p))
	e.pkgs[path] = r
	return r
}

// importPkg makes another package known to the one under analysis.
func (e *schemaEnv) importPkg(path string) *Val {
	tp := e.tm.pkg(path, nil)
	key := path
	if i := strings.LastIndex(path, "/vendor/"); i >= 0 {
		key = path[i+len("/vendor/"):]
	}
	e.kvs = append(e.kvs, strVal(key), e.loaderPkg(path, tp))
	return tp
}

func (e *schemaEnv) hooks() {
	m := e.m
	mp := modPath + "/pkg/"
	nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	m.hooks["(*"+mp+"crd.Parser).NeedPackage"] = nop
	m.hooks["(*"+mp+"crd.Parser).AddPackage"] = nop
	m.hooks["(*"+mp+"loader.Package).NeedTypesInfo"] = nop
	m.hooks["(*"+mp+"loader.Package).NeedSyntax"] = nop
	m.hooks["(*"+mp+"loader.Package).AddError"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("errors")
		return []Out{{st: st}}, true
	}
	m.hooks["(*"+mp+"loader.Package).Imports"] = func(st *State, c *Call) ([]Out, bool) {
		return one(st, m.mapOf(st, "imports", c.res.At(0).Type(), e.kvs...)), true
	}
	m.hooks[mp+"markers.PackageMarkers"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{m.mapOf(st, "pkgmarkers", c.res.At(0).Type(), e.pkgMarkers...), nilVal()}}}, true
	}
	m.hooks["(*"+mp+"crd.Parser).NeedSchemaFor"] = func(st *State, c *Call) ([]Out, bool) {
		ti := e.w.typ("pkg/crd", "TypeIdent")
		n, ok := m.getField(c.args[1], ti, "Name").str()
		p := m.getField(c.args[1], ti, "Package")
		path := "?"
		for k, v := range e.pkgs {
			if sameRef(v, p) {
				path = k
			}
		}
		if !ok {
			n = "?"
		}
		st.count("req:" + path + "." + n)
		return []Out{{st: st}}, true
	}
}

func sameRef(a, b *Val) bool {
	return a != nil && b != nil && len(a.refs) == 1 && len(b.refs) == 1 && a.refs[0].obj != nil && a.refs[0].obj == b.refs[0].obj && !b.unk
}

// markerVals makes a MarkerValues map entry list for one name.
func (e *schemaEnv) markerVals(id string, vs ...*Val) *Val {
	return e.m.sliceOf(e.st, id, anyIface, vs...)
}

func (e *schemaEnv) markerMap(id string, kvs ...any) *Val {
	return e.m.mapOf(e.st, id, e.w.typ("pkg/markers", "MarkerValues"), kvs...)
}

// decl is an abstract type declaration.
func (e *schemaEnv) info(name string, spec *Val, markers *Val, fields ...*Val) *Val {
	m, st := e.m, e.st
	tit := e.w.typ("pkg/markers", "TypeInfo")
	fit := e.w.typ("pkg/markers", "FieldInfo")
	sp := astPtr(e.tm.node(st, "TypeSpec", nil, "Type", spec, "Name", astPtr(e.tm.node(st, "Ident", nil, "Name", strVal(name)))))
	if markers == nil {
		markers = nilVal()
	}
	fs := nilVal()
	if len(fields) > 0 {
		fs = m.sliceOf(st, "fields", fit, fields...)
	}
	return m.cellOf(st, "info:"+name, tit, structOf(tit, "Name", strVal(name), "Doc", symIn(types.Typ[types.String], "doc"), "Markers", markers, "Fields", fs, "RawSpec", sp))
}

func (e *schemaEnv) field(name, tag string, typ *Val, markers *Val) *Val {
	fit := e.w.typ("pkg/markers", "FieldInfo")
	if markers == nil {
		markers = nilVal()
	}
	raw := astPtr(e.tm.node(e.st, "Field", nil, "Type", typ))
	return structOf(fit, "Name", strVal(name), "Doc", symIn(types.Typ[types.String], "fielddoc."+name), "Tag", strVal(tag), "Markers", markers, "RawField", raw)
}

type schemaOut struct {
	st     *State
	panics string
	canon  string
	val    *Val
	errors int64
	reqs   []string
	known  bool
}

// run interprets NeedSchemaFor for the named declaration.
func (e *schemaEnv) run(name string, info *Val) []schemaOut {
	m := e.m
	pt := e.w.typ("pkg/crd", "Parser")
	ti := e.w.typ("pkg/crd", "TypeIdent")
	id := structOf(ti, "Package", e.pkg, "Name", strVal(name))
	typesT := fieldType(pt, "Types")
	parser := m.cellOf(e.st, "parser", pt, structOf(pt, "Types", m.mapOf(e.st, "types", typesT, id, info),
		"AllowDangerousTypes", boolVal(e.dangerous), "IgnoreUnexportedFields", boolVal(e.ignoreUnex)))
	fn := e.w.methodOf(pt, "NeedSchemaFor")
	if fn == nil {
		fatalf("crd.Parser.NeedSchemaFor not found")
	}
	m.maxStep = m.steps + 2_000_000
	var r []schemaOut
	for _, o := range m.interp(e.st, fn, parser, id) {
		so := schemaOut{st: o.st, panics: o.panics}
		if n, ok := o.st.notes["errors"].integer(); ok {
			so.errors = n
		} else if o.st.notes["errors"] != nil {
			so.errors = -1
		}
		for k := range o.st.notes {
			if strings.HasPrefix(k, "req:") {
				so.reqs = append(so.reqs, k[4:])
			}
		}
		sort.Strings(so.reqs)
		if o.panics == "" {
			for _, kv := range m.mapEntries(o.st, m.at(o.st, parser, pt, "Schemata")) {
				k, ok := kv[0].ident()
				k2, _ := id.ident()
				if ok && k == k2 {
					so.val, so.known = kv[1], true
					so.canon = m.canon(o.st, kv[1], e.jsp, 0)
				}
			}
		}
		r = append(r, so)
	}
	return r
}

// want is one expectation on every outcome of a scenario.
func expectSchema(c *Check, rule, key, pos string, outs []schemaOut, wantErr bool, want string, reqs ...string) {
	if len(outs) == 0 {
		c.bad(rule, key, pos, "%s: no outcome", key)
	}
	for _, o := range outs {
		switch {
		case o.panics != "":
			c.bad(rule, key, pos, "%s: panics: %s", key, o.panics)
		case wantErr:
			c.ob(o.errors > 0, rule, key, pos, "%s: no error is reported; the schema is %s", key, o.canon)
		default:
			c.ob(o.errors == 0, rule, key, pos, "%s: is rejected", key)
			c.ob(o.known && o.canon == want, rule, key, pos, "%s: the schema is %s, expected %s", key, o.canon, want)
			got := strings.Join(o.reqs, " ")
			c.ob(got == strings.Join(reqs, " "), rule, key, pos, "%s: schemas requested: [%s], expected [%s]", key, got, strings.Join(reqs, " "))
		}
	}
}

func basicWant(k types.BasicKind, dangerous bool) (string, bool) {
	switch k {
	case types.Bool:
		return `Type:"boolean"`, true
	case types.String:
		return `Type:"string"`, true
	case types.Int, types.Int8, types.Int16, types.Uint, types.Uint8, types.Uint16, types.Uintptr:
		return `Type:"integer"`, true
	case types.Int32, types.Uint32:
		return `Type:"integer" Format:"int32"`, true
	case types.Int64, types.Uint64:
		return `Type:"integer" Format:"int64"`, true
	case types.Float32, types.Float64:
		return `Type:"number"`, dangerous
	}
	return "", false
}

// typeCase is one class of Go types with its documented schema (in canonical form, without the description).
type typeCase struct {
	label string
	mk    func(e *schemaEnv) *Val // the AST expression
	want  string
	err   bool
	reqs  []string
}

func (e *schemaEnv) ident(name string, t *Val) *Val {
	return e.tm.node(e.st, "Ident", t, "Name", strVal(name))
}

func (e *schemaEnv) sel(pkg, name string, t *Val) *Val {
	return e.tm.node(e.st, "SelectorExpr", t, "X", e.ident(pkg, nilVal()), "Sel", astPtr(e.ident(name, t)))
}

func (e *schemaEnv) strUnder() *Val { return e.tm.basic[types.String] }

// elemCases are the types usable anywhere: declarations, elements, map values and fields.
func elemCases(dangerous bool) []typeCase {
	var r []typeCase
	for _, b := range types.Typ {
		if b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid || b.Kind() == types.UnsafePointer {
			continue
		}
		b := b
		w, ok := basicWant(b.Kind(), dangerous)
		r = append(r, typeCase{label: b.Name(), mk: func(e *schemaEnv) *Val { return e.ident(b.Name(), e.tm.basic[b.Kind()]) }, want: w, err: !ok})
	}
	for _, n := range []string{"byte", "rune"} {
		w := `Type:"integer"`
		if n == "rune" {
			w += ` Format:"int32"`
		}
		n := n
		r = append(r, typeCase{label: n, mk: func(e *schemaEnv) *Val { return e.ident(n, e.tm.universe(n)) }, want: w})
	}
	ref := func(l string) string { return fmt.Sprintf("Ref:&%q", "#/definitions/"+l) }
	r = append(r,
		typeCase{label: "local named type", mk: func(e *schemaEnv) *Val { return e.ident("Foo", e.tm.named(e.tpkg, "Foo", e.strUnder())) },
			want: ref("Foo"), reqs: []string{pkgPathUnder + ".Foo"}},
		typeCase{label: "local alias of string", mk: func(e *schemaEnv) *Val { return e.ident("Foo", e.tm.alias(e.tpkg, "Foo", e.strUnder())) },
			want: ref("Foo") + ` Type:"string"`, reqs: []string{pkgPathUnder + ".Foo"}},
		typeCase{label: "local alias of int64", mk: func(e *schemaEnv) *Val {
			return e.ident("Foo", e.tm.alias(e.tpkg, "Foo", e.tm.basic[types.Int64]))
		}, want: ref("Foo") + ` Type:"integer" Format:"int64"`, reqs: []string{pkgPathUnder + ".Foo"}},
		typeCase{label: "dot-imported type", mk: func(e *schemaEnv) *Val {
			return e.ident("Foo", e.tm.named(e.importPkg("other.org/a/b"), "Foo", e.strUnder()))
		}, want: ref("other.org~1a~1b~0Foo"), reqs: []string{"other.org/a/b.Foo"}},
		typeCase{label: "type of another package", mk: func(e *schemaEnv) *Val {
			return e.sel("b", "Foo", e.tm.named(e.importPkg("other.org/a/b"), "Foo", e.strUnder()))
		}, want: ref("other.org~1a~1b~0Foo"), reqs: []string{"other.org/a/b.Foo"}},
		typeCase{label: "type of a vendored package", mk: func(e *schemaEnv) *Val {
			return e.sel("b", "Foo", e.tm.named(e.importPkg("example.com/vendor/other.org/b"), "Foo", e.strUnder()))
		}, want: ref("other.org~1b~0Foo"), reqs: []string{"example.com/vendor/other.org/b.Foo"}},
		typeCase{label: "renamed type of another package", mk: func(e *schemaEnv) *Val {
			return e.sel("b", "Foo", e.tm.alias(e.importPkg("other.org/b"), "Foo", e.strUnder()))
		}, want: ref("other.org~1b~0Foo"), reqs: []string{"other.org/b.Foo"}},
		typeCase{label: "undefined identifier", mk: func(e *schemaEnv) *Val { return e.ident("Foo", e.tm.basic[types.Invalid]) }, err: true},
		typeCase{label: "undefined qualified identifier", mk: func(e *schemaEnv) *Val { return e.sel("b", "Foo", e.tm.basic[types.Invalid]) }, err: true},
		typeCase{label: "error", mk: func(e *schemaEnv) *Val { return e.ident("error", e.tm.universe("error")) }, err: true},
		typeCase{label: "any", mk: func(e *schemaEnv) *Val { return e.ident("any", e.tm.universe("any")) }, err: true},
		typeCase{label: "unsafe.Pointer", mk: func(e *schemaEnv) *Val { return e.sel("unsafe", "Pointer", e.tm.basic[types.UnsafePointer]) }, err: true},
		typeCase{label: "alias of complex128", mk: func(e *schemaEnv) *Val {
			return e.ident("Foo", e.tm.alias(e.tpkg, "Foo", e.tm.basic[types.Complex128]))
		}, err: true},
	)
	return r
}

func wrapWant(pre, inner, post string) string { return pre + "{" + inner + "}" + post }

// byteElems are the element types that make a slice a byte slice.
func byteElems() []typeCase {
	return []typeCase{
		{label: "byte", mk: func(e *schemaEnv) *Val { return e.ident("byte", e.tm.universe("byte")) }},
		{label: "uint8", mk: func(e *schemaEnv) *Val { return e.ident("uint8", e.tm.basic[types.Uint8]) }},
	}
}

func (e *schemaEnv) array(elt *Val, n bool) *Val {
	goT, ln := "Slice", nilVal()
	if n {
		goT = "Array"
		ln = e.tm.node(e.st, "BasicLit", e.tm.basic[types.Int], "Value", strVal("4"))
	}
	return e.tm.node(e.st, "ArrayType", e.tm.iface(&tinfo{goType: goT, elem: e.typeOf(elt)}), "Len", ln, "Elt", elt)
}

func (e *schemaEnv) typeOf(x *Val) *Val {
	if t := e.tm.of[astPtr(x).refs[0].obj]; t != nil {
		return t
	}
	return nilVal()
}

func (e *schemaEnv) star(x *Val) *Val {
	return e.tm.node(e.st, "StarExpr", e.tm.iface(&tinfo{goType: "Pointer", elem: e.typeOf(x)}), "X", x)
}

func (e *schemaEnv) mapT(k, v *Val) *Val {
	return e.tm.node(e.st, "MapType", e.tm.iface(&tinfo{goType: "Map", key: e.typeOf(k), elem: e.typeOf(v)}), "Key", k, "Value", v)
}

// keyCases are the map key types: label, accepted.
func keyCases() []typeCase {
	str := func(e *schemaEnv) *Val { return e.tm.basic[types.String] }
	r := []typeCase{
		{label: "named string", mk: func(e *schemaEnv) *Val { return e.ident("K", e.tm.named(e.tpkg, "K", str(e))) }},
		{label: "alias of string", mk: func(e *schemaEnv) *Val { return e.ident("K", e.tm.alias(e.tpkg, "K", str(e))) }},
		{label: "alias of named string", mk: func(e *schemaEnv) *Val {
			return e.ident("K", e.tm.alias(e.tpkg, "K", e.tm.named(e.tpkg, "N", str(e))))
		}},
		{label: "named int", err: true, mk: func(e *schemaEnv) *Val { return e.ident("K", e.tm.named(e.tpkg, "K", e.tm.basic[types.Int])) }},
		{label: "alias of int", err: true, mk: func(e *schemaEnv) *Val { return e.ident("K", e.tm.alias(e.tpkg, "K", e.tm.basic[types.Int])) }},
		{label: "struct", err: true, mk: func(e *schemaEnv) *Val {
			return e.ident("K", e.tm.named(e.tpkg, "K", e.tm.iface(&tinfo{goType: "Struct"})))
		}},
		{label: "interface", err: true, mk: func(e *schemaEnv) *Val { return e.ident("any", e.tm.universe("any")) }},
		{label: "pointer", err: true, mk: func(e *schemaEnv) *Val { return e.star(e.ident("string", str(e))) }},
		{label: "array", err: true, mk: func(e *schemaEnv) *Val { return e.array(e.ident("string", str(e)), true) }},
	}
	for _, b := range types.Typ {
		if b.Info()&types.IsUntyped != 0 || b.Kind() == types.Invalid || b.Kind() == types.UnsafePointer {
			continue
		}
		b := b
		r = append(r, typeCase{label: b.Name(), err: b.Kind() != types.String, mk: func(e *schemaEnv) *Val { return e.ident(b.Name(), e.tm.basic[b.Kind()]) }})
	}
	return r
}

// unsupportedNodes are the go/ast type expressions no schema is documented for.
func unsupportedNodes(w *World) []typeCase {
	sc := w.All["go/ast"].Types.Scope()
	expr := sc.Lookup("Expr").Type().Underlying().(*types.Interface)
	skip := map[string]bool{"Ident": true, "SelectorExpr": true, "ArrayType": true, "MapType": true, "StarExpr": true, "ParenExpr": true, "StructType": true}
	var r []typeCase
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || skip[n] || types.IsInterface(tn.Type()) || tn.IsAlias() {
			continue
		}
		if !types.Implements(types.NewPointer(tn.Type()), expr) {
			continue
		}
		n := n
		r = append(r, typeCase{label: "ast." + n, err: true, mk: func(e *schemaEnv) *Val { return e.tm.node(e.st, n, e.tm.iface(&tinfo{goType: "Signature"})) }})
	}
	return r
}

// typeCases enumerates type expressions up to one level of composition over every leaf class.
func typeCases(w *World, dangerous bool) []typeCase {
	leaf := elemCases(dangerous)
	r := append([]typeCase(nil), leaf...)
	isByte := map[string]bool{"byte": true, "uint8": true}
	strKey := func(e *schemaEnv) *Val { return e.ident("string", e.tm.basic[types.String]) }
	byteStr := `Type:"string" Format:"byte"`
	add := func(label, want string, err bool, reqs []string, mk func(e *schemaEnv) *Val) {
		r = append(r, typeCase{label: label, mk: mk, want: want, err: err, reqs: reqs})
	}
	arr := func(in string) string { return `Type:"array" Items:&{Schema:&{` + in + `}}` }
	obj := func(in string) string {
		return `Type:"object" AdditionalProperties:&{Allows:true Schema:&{` + in + `}}`
	}
	comp := func(in typeCase) {
		mk, want := in.mk, in.want
		if isByte[in.label] {
			add("[]"+in.label, byteStr, false, nil, func(e *schemaEnv) *Val { return e.array(mk(e), false) })
		} else {
			add("[]"+in.label, arr(want), in.err, in.reqs, func(e *schemaEnv) *Val { return e.array(mk(e), false) })
		}
		add("[4]"+in.label, arr(want), in.err, in.reqs, func(e *schemaEnv) *Val { return e.array(mk(e), true) })
		add("*"+in.label, want, in.err, in.reqs, func(e *schemaEnv) *Val { return e.star(mk(e)) })
		add("map[string]"+in.label, obj(want), in.err, in.reqs, func(e *schemaEnv) *Val { return e.mapT(strKey(e), mk(e)) })
	}
	for _, l := range leaf {
		comp(l)
	}
	// second level over representative inner types
	for _, in := range append([]typeCase(nil), r...) {
		switch in.label {
		case "[]byte", "[]string", "*string", "map[string]string", "[]local named type", "map[string]type of another package", "[4]uint8", "[]complex64", "map[string]any":
			comp(in)
		}
	}
	for _, k := range keyCases() {
		mk := k.mk
		add("map["+k.label+"]string", obj(`Type:"string"`), k.err, nil, func(e *schemaEnv) *Val { return e.mapT(mk(e), e.ident("string", e.tm.basic[types.String])) })
	}
	for _, u := range unsupportedNodes(w) {
		r = append(r, u)
		comp(u)
	}
	st := typeCase{label: "unnamed struct", err: true, mk: func(e *schemaEnv) *Val {
		return e.tm.node(e.st, "StructType", e.tm.iface(&tinfo{goType: "Struct"}))
	}}
	comp(st)
	return r
}

// orderProps rewrites the wanted property list into declaration order of the schema type.
func (e *schemaEnv) orderProps(want string) string {
	if want == "" {
		return ""
	}
	var parts []string
	depth, start := 0, 0
	inq := false
	for i := 0; i < len(want); i++ {
		switch ch := want[i]; {
		case ch == '"':
			inq = !inq
		case inq:
		case ch == '{' || ch == '[':
			depth++
		case ch == '}' || ch == ']':
			depth--
		case ch == ' ' && depth == 0:
			parts = append(parts, want[start:i])
			start = i + 1
		}
	}
	parts = append(parts, want[start:])
	sort.SliceStable(parts, func(i, j int) bool {
		return fieldIndex(e.jsp, parts[i][:strings.Index(parts[i], ":")]) < fieldIndex(e.jsp, parts[j][:strings.Index(parts[j], ":")])
	})
	for i, p := range parts {
		if k := strings.Index(p, "Schema:&{"); k >= 0 {
			end := strings.LastIndex(p, "}}")
			parts[i] = p[:k+len("Schema:&{")] + e.orderProps(p[k+len("Schema:&{"):end]) + p[end:]
		}
	}
	return strings.Join(parts, " ")
}

func checkTypeMapping(c *Check) {
	w := c.W
	pos := w.pos(w.method("pkg/crd", "Parser", "NeedSchemaFor").Pos())
	n := 0
	for _, dangerous := range []bool{false, true} {
		for _, tc := range typeCases(w, dangerous) {
			n++
			e := newSchemaEnv(w)
			e.dangerous = dangerous
			x := tc.mk(e)
			want := ""
			if !tc.err {
				want = "{" + e.orderProps("Description:$doc "+tc.want) + "}"
			}
			key := fmt.Sprintf("type T %s (dangerous types allowed: %v)", tc.label, dangerous)
			expectSchema(c, "declared-type", key, pos, e.run("T", e.info("T", x, nil)), tc.err, want, tc.reqs...)
			// the same type as the type of a field
			e = newSchemaEnv(w)
			e.dangerous = dangerous
			x = tc.mk(e)
			st := e.tm.node(e.st, "StructType", e.tm.iface(&tinfo{goType: "Struct"}))
			f := e.field("F", `json:"f"`, x, nil)
			want = ""
			if !tc.err {
				want = `{Type:"object" Required:["f"] Properties:map["f":{` + e.orderProps("Description:$fielddoc.F "+tc.want) + `}]}`
				want = "{Description:$doc " + want[1:]
			}
			key = fmt.Sprintf("field of type %s (dangerous types allowed: %v)", tc.label, dangerous)
			expectSchema(c, "field-type", key, pos, e.run("T", e.info("T", st, nil, f)), tc.err, want, tc.reqs...)
		}
	}
	c.fact("type_classes", n)
	// a type of a package that is only imported indirectly cannot be followed
	for _, sel := range []bool{false, true} {
		e := newSchemaEnv(w)
		t := e.tm.named(e.tm.pkg("hidden.org/x", nil), "Foo", e.strUnder())
		x := e.ident("Foo", t)
		if sel {
			x = e.sel("x", "Foo", t)
		}
		expectSchema(c, "declared-type", "type of a package not imported directly", pos, e.run("T", e.info("T", x, nil)), true, "")
	}
}

const (
	metaV1 = "k8s.io/apimachinery/pkg/apis/meta/v1"
)

func knownTypeWants() map[string]map[string]string {
	quantity := `"^(\\+|-)?(([0-9]+(\\.[0-9]*)?)|(\\.[0-9]+))(([KMGTPE]i)|[numkMGTPE]|([eE](\\+|-)?(([0-9]+(\\.[0-9]*)?)|(\\.[0-9]+))))?$"`
	ios := `AnyOf:[{Type:"integer"}, {Type:"string"}]`
	j := map[string]string{"JSON": "{XPreserveUnknownFields:&true}"}
	return map[string]map[string]string{
		metaV1: {"ObjectMeta": `{Type:"object"}`, "Time": `{Type:"string" Format:"date-time"}`, "MicroTime": `{Type:"string" Format:"date-time"}`,
			"Duration": `{Type:"string"}`, "Fields": `{Type:"object" AdditionalProperties:&{Allows:true}}`},
		"k8s.io/apimachinery/pkg/api/resource":                          {"Quantity": `{Pattern:` + quantity + ` ` + ios + ` XIntOrString:true}`},
		"k8s.io/apimachinery/pkg/runtime":                               {"RawExtension": `{Type:"object" XPreserveUnknownFields:&true}`},
		"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured":             {"Unstructured": `{Type:"object"}`},
		"k8s.io/apimachinery/pkg/util/intstr":                           {"IntOrString": `{` + ios + ` XIntOrString:true}`},
		"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1beta1": j,
		"k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1":      j,
	}
}

// checkKnownTypes interprets AddKnownTypes and the overrides it installs.
func checkKnownTypes(c *Check) {
	w := c.W
	fn := w.fn("pkg/crd", "AddKnownTypes")
	pos := w.pos(fn.Pos())
	pt := w.typ("pkg/crd", "Parser")
	for _, embedded := range []bool{false, true} {
		for _, path := range sortedKeys(knownTypeWants()) {
			want := knownTypeWants()[path]
			if embedded && path == metaV1 {
				strT := `{Type:"string"}`
				strMap := `{Type:"object" AdditionalProperties:&{Schema:&{Type:"string"}}}`
				want["ObjectMeta"] = `{Type:"object" Properties:map["annotations":` + strMap + `, "finalizers":{Type:"array" Items:&{Schema:&` + strT + `}}, "labels":` + strMap + `, "name":` + strT + `, "namespace":` + strT + `]}`
			}
			e := newSchemaEnv(w)
			m := e.m
			m.hooks["(*"+modPath+"/pkg/crd.Parser).AddPackage"] = func(st *State, c *Call) ([]Out, bool) {
				st.count("addpackage")
				return []Out{{st: st}}, true
			}
			delete(m.hooks, "(*"+modPath+"/pkg/crd.Parser).NeedPackage")
			parser := m.cellOf(e.st, "parser", pt, structOf(pt, "GenerateEmbeddedObjectMeta", boolVal(embedded)))
			outs := m.interp(e.st, fn, parser)
			if len(outs) != 1 || outs[0].panics != "" {
				m.fail("AddKnownTypes has no single outcome")
			}
			st := outs[0].st
			e.st = st
			pkg := e.loaderPkg(path, e.tm.pkg(path, nil))
			key := fmt.Sprintf("%s (embedded metadata %v)", path, embedded)
			for _, o := range m.interp(st, w.methodOf(pt, "NeedPackage"), parser, pkg) {
				if o.panics != "" {
					c.bad("known-type", key, pos, "%s: panics: %s", key, o.panics)
					continue
				}
				got := map[string]string{}
				for _, kv := range m.mapEntries(o.st, m.at(o.st, parser, pt, "Schemata")) {
					n, _ := m.getField(kv[0], w.typ("pkg/crd", "TypeIdent"), "Name").str()
					if sameRef(m.getField(kv[0], w.typ("pkg/crd", "TypeIdent"), "Package"), pkg) {
						got[n] = m.canon(o.st, kv[1], e.jsp, 0)
					}
				}
				for _, n := range sortedKeys(want) {
					c.ob(got[n] == want[n], "known-type", path+"."+n, pos, "%s.%s has the schema %s, expected %s", key, n, got[n], want[n])
				}
				if path != "k8s.io/apimachinery/pkg/api/resource" && path != "k8s.io/apimachinery/pkg/util/intstr" {
					c.ob(o.st.notes["addpackage"] != nil, "known-package-types", path, pos, "the other types of %s are not indexed", path)
				}
			}
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- C19 ----

type tagClass struct {
	tag          string
	name         string // JSON name
	inline, omit bool
	skip, bad    bool
}

func tagClasses() []tagClass {
	return []tagClass{
		{tag: `json:"n"`, name: "n"},
		{tag: `json:"n,omitempty"`, name: "n", omit: true},
		{tag: `json:"n,inline"`, name: "n", inline: true},
		{tag: `json:"n,omitempty,inline"`, name: "n", inline: true, omit: true},
		{tag: `json:"n,string,omitempty"`, name: "n", omit: true},
		{tag: `json:"n,string"`, name: "n"},
		{tag: `json:"omitempty"`, name: "omitempty"},
		{tag: `json:"inline"`, name: "inline"},
		{tag: `json:",inline"`, inline: true},
		{tag: `json:",omitempty"`, inline: true, omit: true},
		{tag: `json:""`, inline: true},
		{tag: `json:"-"`, skip: true},
		{tag: `json:"-,"`, name: "-"},
		{tag: `json:"-,omitempty"`, name: "-", omit: true},
		{tag: `protobuf:"1" json:"n"`, name: "n"},
		{tag: `yaml:"n"`, bad: true},
		{tag: ``, bad: true},
	}
}

func checkRequired(c *Check) {
	w := c.W
	pos := w.pos(w.method("pkg/crd", "Parser", "NeedSchemaFor").Pos())
	names := []string{"kubebuilder:validation:Optional", "kubebuilder:validation:Required", "optional", "required"}
	unit := func() *Val { return ifaceOf(types.NewStruct(nil, nil), &Val{agg: []*Val{}}) }
	envs := make([]*schemaEnv, 8)
	for i := range envs {
		envs[i] = newSchemaEnv(w)
	}
	c.par(16, func(c *Check, worker, mask int) {
		e := envs[worker]
		for pm := 0; pm < 4; pm++ { // package markers: none, Optional, Required, both
			for _, tc := range tagClasses() {
				for ex := 0; ex < 6; ex++ {
					e.reset()
					fname := []string{"Mid", "mid", ""}[ex%3]
					e.ignoreUnex = ex >= 3
					var kv []any
					var on []string
					for i, n := range names {
						if mask>>i&1 == 1 {
							kv = append(kv, strVal(n), e.markerVals("mv"+n, unit()))
							on = append(on, n)
						}
					}
					for i, n := range names[:2] {
						if pm>>i&1 == 1 {
							e.pkgMarkers = append(e.pkgMarkers, strVal(n), e.markerVals("pm"+n, unit()))
							on = append(on, "package "+n)
						}
					}
					str := func() *Val { return e.ident("string", e.tm.basic[types.String]) }
					fs := []*Val{
						e.field("A", `json:"a"`, str(), nil),
						e.field(fname, tc.tag, str(), e.markerMap("mm", kv...)),
						e.field("Z", `json:"z,omitempty"`, str(), nil),
						e.field("Y", `json:"y"`, str(), nil),
					}
					st := e.tm.node(e.st, "StructType", e.tm.iface(&tinfo{goType: "Struct"}))
					outs := e.run("T", e.info("T", st, nil, fs...))
					key := fmt.Sprintf("field %q tag `%s` markers [%s] ignoreUnexported %v", fname, tc.tag, strings.Join(on, " "), e.ignoreUnex)
					id := fmt.Sprintf("tag `%s`", tc.tag)
					left := tc.skip || tc.bad || e.ignoreUnex && fname == "mid"
					optDefault := pm&1 == 1
					req := false
					switch {
					case mask&1 != 0:
					case mask&2 != 0:
						req = true
					case mask&4 != 0:
					case mask&8 != 0:
						req = true
					default:
						req = !optDefault && !tc.inline && !tc.omit
					}
					if !left && tc.inline && req {
						continue // what requiring an inlined field means is not documented
					}
					var wantReq, wantProps []string
					add := func(n string, r bool) {
						wantProps = append(wantProps, n)
						if r {
							wantReq = append(wantReq, n)
						}
					}
					add("a", !optDefault)
					inl := 0
					if !left {
						if tc.inline {
							inl = 1
						} else {
							add(tc.name, req)
						}
					}
					add("z", false)
					add("y", !optDefault)
					for _, o := range outs {
						if o.panics != "" || !o.known {
							c.bad("required", id, pos, "%s: panics: %s", key, o.panics)
							continue
						}
						wantErr := tc.bad && !(e.ignoreUnex && fname == "mid")
						c.ob((o.errors > 0) == wantErr, "no-tag-is-error", id, pos, "%s: errors reported: %d", key, o.errors)
						gotReq, ok1 := e.m.strSlice(o.st, e.m.getField(o.val, e.jsp, "Required"))
						c.ob(ok1 && strings.Join(gotReq, " ") == strings.Join(wantReq, " "), "required", id, pos, "%s: required is [%s], expected [%s]", key, strings.Join(gotReq, " "), strings.Join(wantReq, " "))
						var props []string
						for _, kv := range e.m.mapEntries(o.st, e.m.getField(o.val, e.jsp, "Properties")) {
							n, _ := kv[0].str()
							props = append(props, n)
						}
						sort.Strings(props)
						sort.Strings(wantProps)
						c.ob(strings.Join(props, " ") == strings.Join(wantProps, " "), "present", id, pos, "%s: properties are [%s], expected [%s]", key, strings.Join(props, " "), strings.Join(wantProps, " "))
						all, ok := e.m.elems(o.st, e.m.getField(o.val, e.jsp, "AllOf"))
						c.ob(ok && len(all) == inl, "present", id, pos, "%s: %d embedded schemas, expected %d", key, len(all), inl)
					}
				}
			}
		}
	})
}

func init() {
	register("C18", "abstract interpretation over enumerated type classes",
		"Exhaustive over the kinds of basic types, the go/ast type expressions and one or two levels of composition; deeper nestings follow because the code under analysis recurses on the same functions.",
		"NeedSchemaFor is interpreted on the type-checked SSA for every basic kind, named, aliased, imported and undefined type, every composition with slices, arrays, pointers and maps, every map key class and every other go/ast expression; the resulting schema (or the reporting of an error) is compared with the documented mapping. The fixed schemas of the known packages are evaluated the same way.",
		func(c *Check) {
			checkTypeMapping(c)
			checkKnownTypes(c)
			c.atLeast("declared-type", 600)
			c.atLeast("field-type", 600)
			c.atLeast("known-type", 20)
		})
	register("C19", "abstract interpretation over enumerated field classes",
		"Exhaustive over the four requiredness markers, the package defaults, the JSON tag classes, exportedness and the ignore option.",
		"NeedSchemaFor is interpreted for a struct whose middle field runs through all combinations of requiredness markers, package default, JSON tag class, name class and ignoreUnexportedFields; the required list, the property names and the errors must be those of the documented precedence.",
		func(c *Check) {
			checkRequired(c)
			c.atLeast("required", 3000)
		})
}
