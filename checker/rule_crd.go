package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C17", "conditional constant propagation over CRD assembly", "every combination of storage, served and skip markers over up to three versions",
		"The assembly of a CRD is interpreted abstractly for every combination of version markers over one to three versions (declared in any order, with packages of other groups and without the type among them, and with repeated versions); names, versions, storage, served, the schema of each version and the reported errors must be the documented ones whatever order maps are visited in. The generator is interpreted down to the write call: file name, bare top-level metadata in every version, and the transforms handed to the writer, which must remove exactly the status and the creation timestamp.", checkC17)
}

type crdPkg struct {
	path, version, group string
	noType               bool
	marks                []string
}

type crdAsm struct {
	*schemaEnv
	outT map[string]types.Type // marker name -> value type
	gkT  types.Type
	gvT  types.Type
}

const schemaPkg = "k8s.io/apimachinery/pkg/runtime/schema"

func newCRDAsm(w *World) *crdAsm {
	e := &crdAsm{schemaEnv: newSchemaEnv(w), outT: map[string]types.Type{}, gkT: w.depTyp(schemaPkg, "GroupKind"), gvT: w.depTyp(schemaPkg, "GroupVersion")}
	for _, d := range markerTable(w, w.typ("pkg/crd", "Generator")) {
		if d.Target == 1 {
			e.outT[d.Name] = d.Out
		}
	}
	m := e.m
	w.buildDep(apiextPath)
	m.inline[apiextPath] = true
	if g := w.buildDep(apiextPath).Var("SchemeGroupVersion"); g != nil {
		m.base[m.global(g)] = structOf(deref(g.Type()), "Group", strVal("apiextensions.k8s.io"), "Version", strVal("v1"))
	}
	m.hooks["github.com/gobuffalo/flect.Pluralize"] = func(st *State, c *Call) ([]Out, bool) {
		if s, ok := c.args[0].str(); ok {
			return one(st, strVal(s+"<plural>")), true
		}
		return nil, false
	}
	return e
}

// marks builds the marker values of a type.
func (e *crdAsm) marks(id string, ms []string) *Val {
	by := map[string][]*Val{}
	var names []string
	add := func(name string, kvs ...any) {
		t := e.outT[name]
		if t == nil {
			fatalf("no type marker %s is registered", name)
		}
		v := zeroVal(t)
		if len(kvs) > 0 {
			v = structOf(t, kvs...)
		}
		if by[name] == nil {
			names = append(names, name)
		}
		by[name] = append(by[name], ifaceOf(t, v))
	}
	for _, x := range ms {
		k, arg, _ := strings.Cut(x, ":")
		switch k {
		case "storage":
			add("kubebuilder:storageversion")
		case "unserved":
			add("kubebuilder:unservedversion")
		case "skip":
			add("kubebuilder:skipversion")
		case "deprecated":
			add("kubebuilder:deprecatedversion")
		case "status":
			add("kubebuilder:subresource:status")
		case "column":
			add("kubebuilder:printcolumn", "Name", strVal(arg))
		case "resource":
			add("kubebuilder:resource", "Path", strVal(arg))
		case "cluster":
			add("kubebuilder:resource", "Scope", strVal("Cluster"))
		default:
			panic(x)
		}
	}
	var kvs []any
	for _, n := range names {
		kvs = append(kvs, strVal(n), e.markerVals(id+n, by[n]...))
	}
	return e.markerMap(id, kvs...)
}

type crdWant struct {
	exists             bool
	err                bool
	plural, scope      string
	versions           []string
	served, storage    map[string]bool
	schema             map[string]string
	depr, status, cols map[string]string
}

func wantCRD(pkgs []crdPkg) crdWant {
	w := crdWant{plural: "foo<plural>", scope: "Namespaced", served: map[string]bool{}, storage: map[string]bool{}, schema: map[string]string{}, depr: map[string]string{}, status: map[string]string{}, cols: map[string]string{}}
	mine := []crdPkg{}
	for _, p := range pkgs {
		if p.group == "g.io" && !p.noType {
			mine = append(mine, p)
		}
	}
	sort.SliceStable(mine, func(i, j int) bool {
		if mine[i].version != mine[j].version {
			return mine[i].version < mine[j].version
		}
		return mine[i].path < mine[j].path
	})
	seen := map[string]bool{}
	for _, p := range mine {
		if seen[p.version] {
			w.err = true // another package defines the same version
			continue
		}
		seen[p.version] = true
		has := map[string]bool{}
		var cols []string
		for _, x := range p.marks {
			k, arg, _ := strings.Cut(x, ":")
			has[k] = true
			switch k {
			case "resource":
				w.plural, w.scope = arg, "Namespaced"
			case "cluster":
				w.scope = "Cluster"
			case "column":
				cols = append(cols, arg)
			}
		}
		if has["skip"] {
			continue
		}
		w.versions = append(w.versions, p.version)
		w.served[p.version], w.storage[p.version], w.schema[p.version] = !has["unserved"], has["storage"], "schema of "+p.path
		w.depr[p.version], w.status[p.version], w.cols[p.version] = fmt.Sprint(has["deprecated"]), fmt.Sprint(has["status"]), strings.Join(cols, ",")
	}
	w.exists = len(w.versions) > 0
	if !w.exists {
		return w
	}
	if len(w.versions) == 1 {
		w.storage[w.versions[0]] = true
	}
	st, sv := false, false
	for _, v := range w.versions {
		st, sv = st || w.storage[v], sv || w.served[v]
	}
	w.err = w.err || !st || !sv
	return w
}

func (e *crdAsm) check(c *Check, key string, pkgs []crdPkg, adverse int) {
	w, m := e.w, e.m
	e.reset()
	m.adverse = adverse
	pt, ti := w.typ("pkg/crd", "Parser"), w.typ("pkg/crd", "TypeIdent")
	fn := w.methodOf(pt, "NeedCRDFor")
	if fn == nil {
		fatalf("crd.Parser.NeedCRDFor not found")
	}
	pos := w.pos(fn.Pos())
	var gvs, tys, flat []any
	for _, p := range pkgs {
		lp := e.loaderPkg(p.path, e.tm.pkg(p.path, nil))
		gvs = append(gvs, lp, structOf(e.gvT, "Group", strVal(p.group), "Version", strVal(p.version)))
		id := structOf(ti, "Package", lp, "Name", strVal("Foo"))
		if !p.noType {
			tys = append(tys, id, e.info("Foo", e.ident("x", nilVal()), e.marks("marks:"+p.path, p.marks)))
		}
		flat = append(flat, id, structOf(e.jsp, "Type", strVal("object"), "Title", strVal("schema of "+p.path)))
		oid := structOf(ti, "Package", lp, "Name", strVal("Bar"))
		tys = append(tys, oid, e.info("Bar", e.ident("x", nilVal()), e.marks("bar:"+p.path, []string{"skip", "storage", "resource:bars"})))
	}
	mk := func(f string, kvs []any) *Val { return m.mapOf(e.st, f, fieldType(pt, f), kvs...) }
	parser := m.cellOf(e.st, "parser", pt, structOf(pt, "Types", mk("Types", tys), "GroupVersions", mk("GroupVersions", gvs), "FlattenedSchemata", mk("FlattenedSchemata", flat)))
	gk := structOf(e.gkT, "Group", strVal("g.io"), "Kind", strVal("Foo"))
	m.maxStep = m.steps + 3_000_000
	want := wantCRD(pkgs)
	label := fmt.Sprintf("packages %+v", pkgs)
	outs := m.interp(e.st, fn, parser, gk, nilVal())
	if len(outs) == 0 {
		c.bad("crd", key, pos, "%s: no outcome", label)
	}
	crdT := w.depTyp(apiextPath, "CustomResourceDefinition")
	for _, o := range outs {
		if o.panics != "" {
			c.bad("crd", key, pos, "%s: panics: %s", label, o.panics)
			continue
		}
		ents := m.mapEntries(o.st, m.at(o.st, parser, pt, "CustomResourceDefinitions"))
		if c.ob((len(ents) == 1) == want.exists && len(ents) <= 1, "crd-exists", key, pos, "%s: %d CRDs result, expected %v", label, len(ents), want.exists); (len(ents) == 1) != want.exists {
			continue
		}
		errs := o.st.notes["errors"] != nil
		c.ob(errs == want.err, "crd-errors", key, pos, "%s: errors reported %v, expected %v", label, errs, want.err)
		if !want.exists {
			continue
		}
		kid, _ := ents[0][0].ident()
		gid, _ := gk.ident()
		c.ob(kid == gid, "crd-exists", key, pos, "%s: the CRD is recorded under %s", label, kid)
		v := m.resolve(o.st, ents[0][1])
		get := func(v *Val, t types.Type, path ...string) (*Val, types.Type) {
			for _, f := range path {
				v = m.resolve(o.st, m.child(v, fmt.Sprint(fieldIndex(t, f))))
				t = fieldType(t, f)
			}
			return v, t
		}
		s := func(v *Val, t types.Type, path ...string) string {
			x, _ := get(v, t, path...)
			if y, ok := x.str(); ok {
				return y
			}
			if b, ok := x.boolean(); ok {
				return fmt.Sprint(b)
			}
			return "?" + m.canon(o.st, x, nil, 0)
		}
		for _, f := range []struct {
			path []string
			want string
		}{
			{[]string{"ObjectMeta", "Name"}, want.plural + ".g.io"}, {[]string{"Spec", "Group"}, "g.io"}, {[]string{"Spec", "Names", "Plural"}, want.plural}, {[]string{"Spec", "Scope"}, want.scope},
			{[]string{"Spec", "Names", "Kind"}, "Foo"}, {[]string{"Spec", "Names", "ListKind"}, "FooList"}, {[]string{"Spec", "Names", "Singular"}, "foo"},
			{[]string{"TypeMeta", "Kind"}, "CustomResourceDefinition"}, {[]string{"TypeMeta", "APIVersion"}, "apiextensions.k8s.io/v1"},
		} {
			if want.scope == "Namespaced" && f.path[len(f.path)-1] == "Scope" && s(v, crdT, f.path...) == "" {
				continue
			}
			c.ob(s(v, crdT, f.path...) == f.want, "crd-names", key, pos, "%s: %s is %q, expected %q", label, strings.Join(f.path, "."), s(v, crdT, f.path...), f.want)
		}
		vv, vt := get(v, crdT, "Spec", "Versions")
		et, _ := arrayElem(vt)
		es, ok := m.elems(o.st, vv)
		if !ok {
			c.bad("crd-versions", key, pos, "%s: versions undetermined", label)
			continue
		}
		var names []string
		for _, x := range es {
			names = append(names, s(x, et, "Name"))
		}
		if c.ob(fmt.Sprint(names) == fmt.Sprint(want.versions), "crd-versions", key, pos, "%s: versions %v, expected %v", label, names, want.versions); fmt.Sprint(names) != fmt.Sprint(want.versions) {
			continue
		}
		for i, x := range es {
			n := names[i]
			c.ob(s(x, et, "Served") == fmt.Sprint(want.served[n]), "version-served", key, pos, "%s: version %s served is %s, expected %v", label, n, s(x, et, "Served"), want.served[n])
			c.ob(s(x, et, "Storage") == fmt.Sprint(want.storage[n]), "version-storage", key, pos, "%s: version %s storage is %s, expected %v", label, n, s(x, et, "Storage"), want.storage[n])
			c.ob(s(x, et, "Deprecated") == want.depr[n], "version-markers", key, pos, "%s: version %s deprecated is %s, expected %s", label, n, s(x, et, "Deprecated"), want.depr[n])
			sub, subT := get(x, et, "Subresources")
			hasStatus := sub.notNil() && !m.at(o.st, sub, deref(subT), "Status").isNil()
			c.ob(fmt.Sprint(hasStatus) == want.status[n], "version-markers", key, pos, "%s: version %s has status subresource %v, expected %s", label, n, hasStatus, want.status[n])
			cv, ct := get(x, et, "AdditionalPrinterColumns")
			var cols []string
			if cs, ok := m.elems(o.st, cv); ok {
				ce, _ := arrayElem(ct)
				for _, y := range cs {
					cols = append(cols, s(y, ce, "Name"))
				}
			} else if !cv.isNil() {
				cols = []string{"undetermined"}
			}
			c.ob(strings.Join(cols, ",") == want.cols[n], "version-markers", key, pos, "%s: version %s has columns %v, expected %s", label, n, cols, want.cols[n])
			sp, spT := get(x, et, "Schema")
			title := "none"
			if sp.notNil() {
				y := m.at(o.st, sp, deref(spT), "OpenAPIV3Schema")
				if y.notNil() {
					title, _ = m.at(o.st, y, e.jsp, "Title").str()
				}
			}
			c.ob(title == want.schema[n], "version-schema", key, pos, "%s: version %s has the %s, expected the %s", label, n, title, want.schema[n])
		}
	}
}

func checkC17(c *Check) {
	w := c.W
	type job struct {
		key  string
		pkgs []crdPkg
	}
	var jobs []job
	opts := [][]string{nil, {"storage"}, {"unserved"}, {"storage", "unserved"}, {"skip"}, {"skip", "storage"}, {"skip", "unserved"}}
	p := func(n string, marks ...string) crdPkg {
		return crdPkg{path: "example.com/" + n, version: n, group: "g.io", marks: marks}
	}
	other := crdPkg{path: "example.com/other", version: "v1", group: "h.io", marks: []string{"storage", "unserved", "resource:hs"}}
	bare := crdPkg{path: "example.com/bare", version: "v0", group: "g.io", noType: true}
	for _, a := range opts {
		jobs = append(jobs, job{"one version", []crdPkg{p("v1", a...)}}, job{"one version", []crdPkg{other, p("v1", a...), bare}})
		for _, b := range opts {
			jobs = append(jobs, job{"two versions", []crdPkg{p("v1", a...), p("v2", b...)}}, job{"two versions", []crdPkg{p("v2", b...), bare, p("v1beta1", a...), other}})
			for _, d := range opts {
				jobs = append(jobs, job{"three versions", []crdPkg{p("v2", a...), p("v1alpha1", b...), p("v1", d...)}})
			}
		}
	}
	for _, m := range [][]string{{"resource:things"}, {"cluster"}, {"resource:things", "storage"}, {"deprecated"}, {"status"}, {"column:a", "column:b"}, {"deprecated", "status", "column:a"}, {"storage", "deprecated", "status", "column:a"}} {
		jobs = append(jobs, job{"version markers", []crdPkg{p("v1", m...)}}, job{"version markers", []crdPkg{p("v1", m...), p("v2", "storage")}}, job{"version markers", []crdPkg{p("v2", m...), p("v1", "storage"), p("v3", "status")}},
			job{"version markers", []crdPkg{p("v2", append([]string{"skip"}, m...)...), p("v1", "storage")}})
	}
	// two packages define the same version
	dup := p("v1", "storage")
	dup.path = "example.com/again/v1"
	jobs = append(jobs, job{"repeated version", []crdPkg{p("v1"), dup}}, job{"repeated version", []crdPkg{p("v2"), p("v1", "storage"), dup}})
	jobs = append(jobs, job{"no version", nil}, job{"no version", []crdPkg{bare, other}})
	envs := make([]*crdAsm, 8)
	for i := range envs {
		envs[i] = newCRDAsm(w)
	}
	c.par(len(jobs), func(c *Check, worker, i int) {
		for adverse := range 3 {
			envs[worker].check(c, jobs[i].key, jobs[i].pkgs, adverse)
		}
	})
	c.fact("version_combinations", len(jobs))
	c.atLeast("version-storage", 500)
	checkCRDWrite(c)
	checkGroupVersion(c)
}

// checkCRDWrite interprets the generator down to the write call.
func checkCRDWrite(c *Check) {
	w := c.W
	gt := w.typ("pkg/crd", "Generator")
	fn := w.methodOf(gt, "Generate")
	pt := w.typ("pkg/crd", "Parser")
	crdT := w.depTyp(apiextPath, "CustomResourceDefinition")
	jsp := w.depTyp(apiextPath, "JSONSchemaProps")
	gkT := w.depTyp(schemaPkg, "GroupKind")
	mp := modPath + "/pkg/"
	str := types.Typ[types.String]
	pos := w.pos(fn.Pos())
	strI := func(s string) *Val { return ifaceOf(str, strVal(s)) }
	objT := types.NewMap(str, anyIface)
	nestT := types.NewMap(anyIface, anyIface)
	for _, preserve := range []string{"", "true", "false"} {
		e := newGenEnv(w)
		m := e.m
		w.buildDep(apiextPath)
		m.inline[apiextPath] = true
		if g := w.buildDep(apiextPath).Var("SchemeGroupVersion"); g != nil {
			m.base[m.global(g)] = structOf(deref(g.Type()), "Group", strVal("apiextensions.k8s.io"), "Version", strVal("v1"))
		}
		nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		m.hooks["(*"+mp+"crd.Parser).NeedPackage"] = nop
		m.hooks[mp+"crd.AddKnownTypes"] = nop
		m.hooks[mp+"crd.FindMetav1"] = func(st *State, c *Call) ([]Out, bool) {
			return one(st, unkNonNil(c.res.At(0).Type(), &Sym{"metav1", true})), true
		}
		m.hooks[mp+"version.Version"] = func(st *State, c *Call) ([]Out, bool) { return one(st, strVal("the-version")), true }
		kinds := []*Val{}
		for _, k := range []string{"Foo", "Gone", "Bar"} {
			kinds = append(kinds, structOf(gkT, "Group", strVal("g.io"), "Kind", strVal(k)))
		}
		m.hooks[mp+"crd.FindKubeKinds"] = func(st *State, c *Call) ([]Out, bool) { return one(st, m.sliceOf(st, "kinds", gkT, kinds...)), true }
		m.hooks["(*"+mp+"crd.Parser).NeedCRDFor"] = func(st *State, cl *Call) ([]Out, bool) {
			kind, _ := m.getField(cl.args[1], gkT, "Kind").str()
			if kind == "Gone" {
				return []Out{{st: st}}, true
			}
			var vers []*Val
			verT := w.depTyp(apiextPath, "CustomResourceDefinitionVersion")
			for i, props := range [][]any{
				{strVal("metadata"), structOf(jsp, "Type", strVal("object"), "Description", strVal("d"), "Properties", m.mapOf(st, kind+"mp", fieldType(jsp, "Properties"), strVal("name"), structOf(jsp, "Type", strVal("string")))), strVal("spec"), structOf(jsp, "Type", strVal("object"), "Description", strVal("sd"))},
				{strVal("metadata"), structOf(jsp, "Type", strVal("object")), strVal("status"), structOf(jsp, "Type", strVal("integer"))},
				{strVal("spec"), structOf(jsp, "Type", strVal("object"), "Properties", m.mapOf(st, kind+"np", fieldType(jsp, "Properties"), strVal("metadata"), structOf(jsp, "Type", strVal("object"), "Description", strVal("nested"))))},
				nil,
			} {
				sc := structOf(jsp, "Type", strVal("object"))
				if props != nil {
					sc = structOf(jsp, "Type", strVal("object"), "Properties", m.mapOf(st, fmt.Sprintf("%sp%d", kind, i), fieldType(jsp, "Properties"), props...))
				}
				valT := w.depTyp(apiextPath, "CustomResourceValidation")
				vers = append(vers, structOf(verT, "Name", strVal(fmt.Sprintf("v%d", i+1)), "Served", boolVal(i != 1), "Storage", boolVal(i == 0), "Schema",
					m.cellOf(st, fmt.Sprintf("%ss%d", kind, i), valT, structOf(valT, "OpenAPIV3Schema", m.cellOf(st, fmt.Sprintf("%so%d", kind, i), jsp, sc)))))
			}
			vers = append(vers, structOf(verT, "Name", strVal("v9")))
			specT := fieldType(crdT, "Spec")
			crd := structOf(crdT, "Spec", structOf(specT, "Group", strVal("g.io"), "Names", structOf(fieldType(specT, "Names"), "Plural", strVal(strings.ToLower(kind)+"s"), "Kind", strVal(kind)),
				"Versions", m.sliceOf(st, kind+"vers", verT, vers...)), "ObjectMeta", structOf(fieldType(crdT, "ObjectMeta"), "Name", strVal(strings.ToLower(kind)+"s.g.io")))
			var kvs []any
			crds := m.at(st, cl.args[0], pt, "CustomResourceDefinitions")
			for _, kv := range m.mapEntries(st, crds) {
				kvs = append(kvs, kv[0], kv[1])
			}
			kvs = append(kvs, cl.args[1], crd)
			p := cl.args[0]
			m.store(st, p, m.setPath(m.load(st, p, pt), []string{fmt.Sprint(fieldIndex(pt, "CustomResourceDefinitions"))}, m.mapOf(st, "crds", fieldType(pt, "CustomResourceDefinitions"), kvs...), false), pt)
			return []Out{{st: st}}, true
		}
		m.hooks[mp+"crd.AsVersion"] = func(st *State, cl *Call) ([]Out, bool) {
			return []Out{{st: st, res: []*Val{ifaceOf(types.NewPointer(crdT), m.cellOf(st, "conv", crdT, cl.args[0])), nilVal()}}}, true
		}
		old := m.hooks["("+mp+"genall.GenerationContext).WriteYAML"]
		m.hooks["("+mp+"genall.GenerationContext).WriteYAML"] = func(st *State, cl *Call) ([]Out, bool) {
			n, _ := st.notes["writes"].integer()
			obj := m.mapOf(st, fmt.Sprintf("yaml%d", n), objT, strVal("apiVersion"), strI("av"), strVal("kind"), strI("k"),
				strVal("metadata"), ifaceOf(nestT, m.mapOf(st, fmt.Sprintf("yamlmeta%d", n), nestT, strI("name"), strI("n"), strI("creationTimestamp"), nilVal(), strI("annotations"), strI("a"))),
				strVal("spec"), ifaceOf(nestT, m.mapOf(st, fmt.Sprintf("yamlspec%d", n), nestT, strI("group"), strI("g"), strI("versions"), strI("v"))),
				strVal("status"), strI("s"))
			opts, ok := m.elems(st, cl.args[4])
			if !ok && !cl.args[4].isNil() {
				m.fail("undetermined write options")
			}
			optT := w.typ("pkg/genall", "WriteYAMLOptions")
			s := optT.Underlying().(*types.Struct)
			for _, o := range opts {
				for i := 0; i < s.NumFields(); i++ {
					sig, ok := s.Field(i).Type().(*types.Signature)
					f := m.at(st, o, optT, s.Field(i).Name())
					if !ok || f.isNil() {
						continue
					}
					outs := cl.frame.callVal(st, f, []*Val{obj}, sig, cl.site)
					if len(outs) != 1 || errOf(outs[0]) != "nil" {
						m.fail("transform of written CRDs does not succeed")
					}
					st = outs[0].st
				}
			}
			st.note(fmt.Sprintf("yaml%d", n), strVal(m.canon(st, obj, objT, 0)))
			return old(st, cl)
		}
		st := newState()
		e.root(st, "0")
		g := zeroVal(gt)
		wantSpec := `map[interface{}]interface{}(map[string("group"):string("g"), string("versions"):string("v")])`
		if preserve != "" {
			g = structOf(gt, "DeprecatedV1beta1CompatibilityPreserveUnknownFields", m.cellOf(st, "b", types.Typ[types.Bool], boolVal(preserve == "true")))
			wantSpec = `map[interface{}]interface{}(map[string("group"):string("g"), string("preserveUnknownFields"):bool(` + preserve + `), string("versions"):string("v")])`
		}
		want := `map["apiVersion":string("av"), "kind":string("k"), "metadata":map[interface{}]interface{}(map[string("annotations"):string("a"), string("name"):string("n")]), "spec":` + wantSpec + `]`
		outs := m.interp(st, fn, g, e.ctx(st))
		if len(outs) == 0 {
			c.bad("crd-write", "Generate", pos, "no outcome")
		}
		for _, o := range outs {
			ws, und := e.writes(o.st)
			c.ob(errOf(o) == "nil" && und == "" && len(ws) == 2, "crd-write", "Generate", pos, "outcome %s %s, %d files written; expected the two CRDs that have versions", errOf(o), und, len(ws))
			for i, x := range ws {
				kind := []string{"foo", "bar"}[i%2]
				c.ob(x.name == fmt.Sprintf("%q", "g.io_"+kind+"s.yaml"), "crd-write", "file name", pos, "%ss.g.io is written to %s", kind, x.name)
				y, _ := o.st.notes[fmt.Sprintf("yaml%d", i)].str()
				c.ob(y == want, "written-transforms", "transforms", pos, "after the transforms handed to the writer the object is\n    %s\n  expected\n    %s", y, want)
				if c.ob(len(x.objs) == 1, "crd-write", "objects", pos, "%d objects in %s", len(x.objs), x.name); len(x.objs) != 1 {
					continue
				}
				ver := func(i int, flags, props string) string {
					if props != "" {
						props = " Properties:map[" + props + "]"
					}
					return fmt.Sprintf(`{Name:"v%d"%s Schema:&{OpenAPIV3Schema:&{Type:"object"%s}}}`, i, flags, props)
				}
				bare := `"metadata":{Type:"object"}`
				wantV := "Versions:[" + ver(1, " Served:true Storage:true", bare+`, "spec":{Description:"sd" Type:"object"}`) + ", " + ver(2, "", bare+`, "status":{Type:"integer"}`) + ", " +
					ver(3, " Served:true", `"spec":{Type:"object" Properties:map["metadata":{Description:"nested" Type:"object"}]}`) + ", " + ver(4, " Served:true", "") + `, {Name:"v9"}]`
				c.ob(strings.Contains(x.objs[0], wantV), "bare-metadata", "metadata", pos, "the CRD written is\n    %s\n  expected it to contain\n    %s", x.objs[0], wantV)
				c.ob(strings.Contains(x.objs[0], `"controller-gen.kubebuilder.io/version":"the-version"`), "crd-write", "attribution", pos, "the CRD written does not name the tool's version: %s", x.objs[0])
			}
		}
	}
}

// checkGroupVersion: the group and version a package's types get.
func checkGroupVersion(c *Check) {
	w := c.W
	pt, ti := w.typ("pkg/crd", "Parser"), w.typ("pkg/crd", "TypeIdent")
	gvT := w.depTyp(schemaPkg, "GroupVersion")
	for _, entry := range []string{"AddPackage", "NeedPackage"} {
		fn := w.methodOf(pt, entry)
		if fn == nil {
			fatalf("crd.Parser.%s not found", entry)
		}
		pos := w.pos(fn.Pos())
		for _, cs := range []struct {
			label string
			marks map[string]string
			want  string // group/version, "" for none
			types int
		}{
			{"no markers", nil, "", 2},
			{"group only", map[string]string{"groupName": "g.io"}, "g.io/v1", 2},
			{"group and version", map[string]string{"groupName": "g.io", "versionName": "v7"}, "g.io/v7", 2},
			{"version only", map[string]string{"versionName": "v7"}, "", 2},
			{"empty group", map[string]string{"groupName": ""}, "/v1", 2},
			{"skipped", map[string]string{"groupName": "g.io", "kubebuilder:skip": ""}, "", 0},
		} {
			e := newSchemaEnv(w)
			m := e.m
			hooks := m.hooks
			delete(hooks, "(*"+modPath+"/pkg/crd.Parser).NeedPackage")
			delete(hooks, "(*"+modPath+"/pkg/crd.Parser).AddPackage")
			nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
			hooks["(*"+modPath+"/pkg/loader.TypeChecker).Check"] = nop
			for k, v := range cs.marks {
				val := strVal(v)
				if k == "kubebuilder:skip" {
					e.pkgMarkers = append(e.pkgMarkers, strVal(k), e.markerVals("m"+k, ifaceOf(types.NewStruct(nil, nil), zeroVal(types.NewStruct(nil, nil)))))
					continue
				}
				e.pkgMarkers = append(e.pkgMarkers, strVal(k), e.markerVals("m"+k, ifaceOf(types.Typ[types.String], val)))
			}
			infos := []*Val{e.info("A", e.ident("x", nilVal()), nil), e.info("B", e.ident("x", nilVal()), nil)}
			hooks[modPath+"/pkg/markers.EachType"] = func(st *State, cl *Call) ([]Out, bool) {
				cb := cl.args[2]
				sts := []*State{st}
				for _, in := range infos {
					var next []*State
					for _, s := range sts {
						for _, o := range cl.frame.callVal(s, cb, []*Val{in}, cl.static.Signature.Params().At(2).Type().Underlying().(*types.Signature), cl.site) {
							next = append(next, o.st)
						}
					}
					sts = next
				}
				var r []Out
				for _, s := range sts {
					r = append(r, Out{st: s, res: []*Val{nilVal()}})
				}
				return r, true
			}
			parser := m.cellOf(e.st, "parser", pt, structOf(pt, "Checker", unkNonNil(fieldType(pt, "Checker"), &Sym{"checker", true}), "Collector", unkNonNil(fieldType(pt, "Collector"), &Sym{"collector", true})))
			outs := m.interp(e.st, fn, parser, e.pkg)
			if len(outs) == 0 {
				c.bad("group-version", cs.label, pos, "no outcome")
			}
			for _, o := range outs {
				if o.panics != "" {
					c.bad("group-version", cs.label, pos, "%s: panics: %s", cs.label, o.panics)
					continue
				}
				var got []string
				for _, kv := range m.mapEntries(o.st, m.at(o.st, parser, pt, "GroupVersions")) {
					g, _ := m.getField(kv[1], gvT, "Group").str()
					v, _ := m.getField(kv[1], gvT, "Version").str()
					if !sameRef(kv[0], e.pkg) {
						g = "of another package: " + g
					}
					got = append(got, g+"/"+v)
				}
				var want []string
				if cs.want != "" {
					want = []string{cs.want}
				}
				c.ob(fmt.Sprint(got) == fmt.Sprint(want), "group-version", cs.label, pos, "%s: package v1 with %s gets group-version %v, expected %v", entry, cs.label, got, want)
				var idx []string
				for _, kv := range m.mapEntries(o.st, m.at(o.st, parser, pt, "Types")) {
					n, _ := m.getField(kv[0], ti, "Name").str()
					for i, in := range infos {
						if sameRef(in, kv[1]) && n != string(rune('A'+i)) {
							n = "wrong info for " + n
						}
					}
					idx = append(idx, n)
				}
				sort.Strings(idx)
				c.ob(fmt.Sprint(idx) == fmt.Sprint([]string{"A", "B"}[:cs.types]), "types-indexed", cs.label, pos, "%s: package with %s: types %v are known, expected %d", entry, cs.label, idx, cs.types)
			}
		}
	}
}
