package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "size-change termination analysis of every recursive group of functions, and abstract interpretation of the generators over self-referential type and reference graphs",
		"The call graph is split into its recursive groups. A group is proved to end by the size-change principle (every chain of calls that can repeat hands on an ever smaller part of a finite tree); calls for which that cannot be shown have to be calls the interpretation below has followed. The schema generator, the flattener, the copy generator and the type checker are interpreted over every graph of up to two (three, when thorough) types or four packages, built from every way a type can refer to another; each has to come to an end, and has to process each type and package once. Marker text is finite and read forward, so the marker parser is left out; import graphs have no cycles (the go command refuses them). Loops over slices, maps and counters end by themselves.",
		"recursive-calls-shrink-or-were-followed-to-their-end; each-type-once; each-package-once",
		checkC12)
}

type endCheck struct {
	c     *Check
	w     *World
	edges map[[2]*ssa.Function]bool
	ran   map[*ssa.Function]bool
}

func (k *endCheck) took(m *M) {
	for e := range m.edges {
		k.edges[e] = true
	}
	for f := range m.funcsIn {
		k.ran[f] = true
	}
}

func checkC12(c *Check) {
	k := &endCheck{c, c.W, map[[2]*ssa.Function]bool{}, map[*ssa.Function]bool{}}
	k.schemas()
	k.flattening()
	k.copies()
	k.packages()
	k.loading()
	k.groups()
}

// groups decides the recursive groups of functions.
func (k *endCheck) groups() {
	c, w := k.c, k.w
	x := &recur{w: w, c: c, fl: newFlow(w), open: map[ssa.Value]bool{}}
	gs, calls := x.cycles()
	c.assumes("the marker parser (functions that read a text/scanner.Scanner) ends because marker text is finite and read forward")
	c.assumes("package import graphs have no cycles; syntax trees, types and schemas are finite")
	n, chains := 0, 0
	for _, g := range gs {
		if readsText(g) {
			c.fact("groups_reading_marker_text", 1)
			continue
		}
		n++
		in := map[*ssa.Function]bool{}
		for _, f := range g {
			in[f] = true
		}
		// the calls that were followed to their end cannot be repeated for ever on their own account
		rest := map[*ssa.Function][]*recEdge{}
		for _, f := range g {
			for _, e := range calls[f] {
				if !in[e.to] {
					continue
				}
				chains++
				_, made := e.at.(*ssa.MakeClosure)
				if k.edges[[2]*ssa.Function{f, e.to}] || made && k.ran[e.to] {
					continue
				}
				rest[f] = append(rest[f], e)
			}
		}
		ok, why := x.ends(g, calls)
		if !ok {
			ok, why = x.ends(g, rest)
		}
		sort.Slice(g, func(i, j int) bool { return g[i].RelString(nil) < g[j].RelString(nil) })
		var at []string
		for _, f := range g {
			for _, e := range rest[f] {
				at = append(at, w.pos(e.at.Pos())+" ("+short(f)+" calls "+short(e.to)+")")
			}
		}
		c.ob(ok, "ends", short(g[0]), w.pos(g[0].Pos()), "a chain of calls through %s may go on for ever: nothing gets smaller at %s", why, strings.Join(at, ", "))
	}
	c.atLeast("ends", 8)
	c.fact("recursive_groups", n)
	c.fact("recursive_calls", chains)
}

func short(f *ssa.Function) string {
	return strings.ReplaceAll(f.RelString(nil), modPath+"/", "")
}

// readsText tells whether a group of functions reads marker text with a scanner.
func readsText(g []*ssa.Function) bool {
	for _, f := range g {
		reads := false
		for _, p := range append(append([]ssa.Value{}, values(f.Params)...), values(f.FreeVars)...) {
			reads = reads || typeName(deref(deref(p.Type()))) == "text/scanner.Scanner"
		}
		if !reads {
			return false
		}
	}
	return true
}

func values[T ssa.Value](l []T) (r []ssa.Value) {
	for _, v := range l {
		r = append(r, v)
	}
	return r
}

// ways are the ways a declared type refers to another.
var typeWays = []struct {
	label string
	field bool
	tag   string
	src   string // as a Go type, %s the other
}{
	{"field", true, `json:"f"`, ""},
	{"inlined", true, `json:",inline"`, ""},
	{"slice", false, "", "[]%s"},
	{"map", false, "", "map[string]%s"},
	{"field slice", true, `json:"f"`, "[]%s"},
	{"field map", true, `json:"f,omitempty"`, "map[string]%s"},
	{"array", false, "", "[2]%s"},
	{"slice of slices", false, "", "[][]%s"},
	{"foreign", true, `json:"f"`, ""},
}

// schemas interprets the schema generator over types that refer to themselves and each other.
func (k *endCheck) schemas() {
	w := k.w
	pos := w.pos(w.method("pkg/crd", "Parser", "NeedSchemaFor").Pos())
	fmtT := w.typ("pkg/crd/markers", "Format")
	envs := make([]*schemaEnv, 8)
	for i := range envs {
		e := newSchemaEnv(w)
		envs[i] = e
		delete(e.m.hooks, "(*"+modPath+"/pkg/crd.Parser).NeedSchemaFor")
		e.m.edges = map[[2]*ssa.Function]bool{}
		e.m.maxRec = 12
		e.m.overFails = true
		e.m.hooks["("+modPath+"/pkg/crd/markers.Format).ApplyToSchema"] = func(st *State, c *Call) ([]Out, bool) {
			n, ok := c.args[0].str()
			if !ok {
				n = "?"
			}
			st.count("applied:" + n)
			return one(st, nilVal()), true
		}
	}
	names := []string{"A", "B"}
	if k.c.Tier == "thorough" {
		names = []string{"A", "B", "C"}
	}
	type shape struct{ way, to int }
	var shapes []shape
	for i := range typeWays {
		for t := range names {
			shapes = append(shapes, shape{i, t})
		}
	}
	total := 1
	for range names {
		total *= len(shapes)
	}
	pt := w.typ("pkg/crd", "Parser")
	ti := w.typ("pkg/crd", "TypeIdent")
	fn := w.methodOf(pt, "NeedSchemaFor")
	k.c.par(total, func(c *Check, worker, num int) {
		e := envs[worker]
		e.reset()
		m := e.m
		m.over = nil
		kinds := []string{}
		var kvs []any
		other := e.importPkg("other.org/b")
		under := e.tm.iface(&tinfo{goType: "Struct"})
		local := func(n string) *Val { return e.ident(n, e.tm.named(e.tpkg, n, under)) }
		str := func() *Val { return e.ident("string", e.tm.basic[types.String]) }
		ident := func(n string) *Val {
			if n == "F" {
				return structOf(ti, "Package", e.pkgs["other.org/b"], "Name", strVal(n))
			}
			return structOf(ti, "Package", e.pkg, "Name", strVal(n))
		}
		mark := func(n string) *Val {
			return e.markerMap("marks"+n, strVal("kubebuilder:validation:Format"), e.markerVals("mark"+n, ifaceOf(fmtT, strVal(n))))
		}
		used := map[string]bool{}
		next := map[string]string{}
		x := num
		for _, n := range names {
			s := shapes[x%len(shapes)]
			x /= len(shapes)
			wy := typeWays[s.way]
			next[n] = names[s.to]
			kinds = append(kinds, n+" "+wy.label+" "+names[s.to])
			ref := func() *Val {
				if wy.label == "foreign" {
					used[n+"F"] = true
					return e.star(e.sel("b", "F", e.tm.named(other, "F", under)))
				}
				if wy.field {
					return e.star(local(names[s.to]))
				}
				return local(names[s.to])
			}
			var t *Val
			switch wy.src {
			case "":
				t = ref()
			case "[]%s":
				t = e.array(ref(), false)
			case "[2]%s":
				t = e.array(ref(), true)
			case "[][]%s":
				t = e.array(e.array(ref(), false), false)
			default:
				t = e.mapT(str(), ref())
			}
			if wy.field {
				kvs = append(kvs, ident(n), e.info(n, e.tm.node(e.st, "StructType", under), mark(n), e.field("F", wy.tag, t, nil), e.field("G", `json:"g"`, e.star(local(names[s.to])), nil)))
			} else {
				kvs = append(kvs, ident(n), e.info(n, t, mark(n)))
			}
		}
		kvs = append(kvs, ident("F"), e.info("F", e.tm.node(e.st, "StructType", under), mark("F"), e.field("F", `json:"f"`, e.star(e.ident("F", e.tm.named(other, "F", under))), nil)))
		key := strings.Join(kinds, ", ")
		parser := m.cellOf(e.st, "parser", pt, structOf(pt, "Types", m.mapOf(e.st, "types", fieldType(pt, "Types"), kvs...)))
		st := e.st
		for _, n := range append(append([]string{}, names...), names[0]) {
			m.maxStep = m.steps + 300_000
			outs := tryInterp(m, st, fn, parser, ident(n))
			if !c.ob(len(m.over) == 0 && len(outs) == 1 && outs[0].panics == "" && outs[0].st.notes["errors"] == nil, "schemas-end", key, pos, "%s: the schema of %s is not determined: %d outcomes, unfinished calls %v", key, n, len(outs), firstOf(m.over)) {
				return
			}
			st = outs[0].st
		}
		for _, n := range append([]string{"F"}, names...) {
			got, _ := st.notes["applied:"+n].integer()
			if st.notes["applied:"+n] == nil {
				got = 0
			}
			want := int64(1)
			if n == "F" {
				want = 0
				for i := range names {
					if used[names[i]+"F"] {
						want = 1
					}
				}
			}
			c.ob(got == want, "each-type-once", key, pos, "%s: the type %s is processed %d times, expected %d", key, n, got, want)
		}
	})
	for _, e := range envs {
		k.took(e.m)
	}
}

func firstOf(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// flattening interprets the flattener over schemas that refer to each other.
func (k *endCheck) flattening() {
	w := k.w
	ps := w.typ("pkg/crd", "Parser")
	ti := w.typ("pkg/crd", "TypeIdent")
	lp := w.typ("pkg/loader", "Package")
	fl := w.typ("pkg/crd", "Flattener")
	fn := w.methodOf(fl, "FlattenType")
	pos := w.pos(fn.Pos())
	names := []string{"A", "B"}
	if k.c.Tier == "thorough" {
		names = []string{"A", "B", "C"}
	}
	// each schema refers to others in a property (or has none), and in another place
	others := []string{"AllOf", "Items", "AdditionalProperties", "AnyOf", "Not"}
	n := len(names) + 1
	per := (n + 1) * n * len(others)
	total := 1
	for range names {
		total *= per
	}
	type env struct {
		q *schemaPlaces
	}
	envs := make([]env, 8)
	for i := range envs {
		q := newSchemaPlaces(w, inited(w))
		m := q.m
		m.edges = map[[2]*ssa.Function]bool{}
		m.maxRec = 16
		m.overFails = true
		m.hooks[w.methodOf(ps, "NeedPackage").String()] = func(st *State, cl *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		m.hooks[w.methodOf(ps, "NeedSchemaFor").String()] = func(st *State, cl *Call) ([]Out, bool) {
			s, _ := m.getField(cl.args[1], ti, "Name").str()
			st.count("loaded:" + s)
			return []Out{{st: st}}, true
		}
		m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = func(st *State, cl *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
		m.hooks["(*"+modPath+"/pkg/loader.Package).Imports"] = func(st *State, cl *Call) ([]Out, bool) {
			return one(st, m.mapOf(st, "imports", cl.res.At(0).Type())), true
		}
		envs[i] = env{q}
	}
	k.c.par(total, func(c *Check, worker, num int) {
		q := envs[worker].q
		m := q.m
		m.over = nil
		st := newState()
		raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
		pkg := m.cellOf(st, "pkg", lp, structOf(lp, "Package", m.cellOf(st, "raw", raw, structOf(raw, "PkgPath", strVal("example.com/v1"), "Name", strVal("v1")))))
		ident := func(n string) *Val { return structOf(ti, "Package", pkg, "Name", strVal(n)) }
		sm := fieldType(ps, "Schemata")
		var kvs []any
		var kinds []string
		x := num
		for _, name := range names {
			d := x % per
			x /= per
			first, second, place := d%(n+1), d/(n+1)%n, others[d/(n+1)/n]
			to := func(id string, i int) *Val {
				if i == len(names) {
					return structOf(q.t, "Type", strVal("string"))
				}
				return structOf(q.t, "Ref", m.cellOf(st, "ref."+id, types.Typ[types.String], strVal("#/definitions/"+names[i])))
			}
			lbl := func(i int) string {
				if i == len(names) {
					return "string"
				}
				return names[i]
			}
			s, what := structOf(q.t, "Type", strVal("object")), "no property"
			if first < n {
				s.agg[fieldIndex(q.t, "Properties")] = m.mapOf(st, name+".props", fieldType(q.t, "Properties"), strVal("p"), to(name+".p", first))
				what = lbl(first) + " as property"
			}
			in := to(name+".o", second)
			ft := fieldType(q.t, place)
			switch place {
			case "Items", "AdditionalProperties":
				et := deref(ft)
				in = m.cellOf(st, name+".w", et, structOf(et, "Schema", m.cellOf(st, name+".i", q.t, in)))
			case "Not":
				in = m.cellOf(st, name+".i", q.t, in)
			default:
				in = m.sliceOf(st, name+".l", q.t, in)
			}
			s.agg[fieldIndex(q.t, place)] = in
			kvs = append(kvs, ident(name), s)
			kinds = append(kinds, fmt.Sprintf("%s has %s and %s in %s", name, what, lbl(second), place))
		}
		key := strings.Join(kinds, ", ")
		parser := m.cellOf(st, "parser", ps, structOf(ps, "Schemata", m.mapOf(st, "schemata", sm, kvs...)))
		flat := m.cellOf(st, "flattener", fl, structOf(fl, "Parser", parser))
		for _, name := range append(append([]string{}, names...), names[0]) {
			m.maxStep = m.steps + 1_000_000
			outs := tryInterp(m, st, fn, flat, ident(name))
			if !c.ob(len(outs) == 1 && len(m.over) == 0 && outs[0].panics == "", "flattening-ends", key, pos, "%s: flattening %s is not determined: %d outcomes, unfinished calls %v", key, name, len(outs), firstOf(m.over)) {
				return
			}
			st = outs[0].st
		}
		for _, name := range names {
			got, _ := st.notes["loaded:"+name].integer()
			// asked for by its name, and once more where the flattening starts or where it is first referred to
			c.ob(got >= 1 && got <= int64(len(names))+1, "each-type-once", key+" "+name, pos, "%s: the schema of %s is fetched %d times", key, name, got)
		}
	})
	for _, e := range envs {
		k.took(e.q.m)
	}
}

// copies interprets the copy generator over types that refer to themselves and each other.
func (k *endCheck) copies() {
	c, w := k.c, k.w
	e := newDeepEnv(w)
	e.maxStep = 30_000_000
	e.m.edges = k.edges
	e.m.funcsIn = k.ran
	e.m.overFails = true
	pos := w.pos(w.methodOf(e.gen, "Generate").Pos())
	on := ifaceOf(types.Typ[types.Bool], boolVal(true))
	pkgOn := []any{"kubebuilder:object:generate", on}
	forms := []string{"[]%s", "map[string]%s", "*%s", "[]*%s", "[][]%s", "map[string][]%s", "struct{ F *%s }", "struct{ F []%s }", "struct{ F map[string]%s }", "struct{ F map[string]*%s; G []*%[1]s }", "struct{ *%s }"}
	var decls []string
	for _, f := range append(forms, "*[]%s", "[]map[string]%s", "map[string]*%s", "*map[string]%s", "**%s", "[2]*%s", "struct{ F [2]*%s }", "struct{ F **%s }") {
		decls = append(decls, "type T "+fmt.Sprintf(f, "T"))
	}
	for i, f := range forms {
		for j, g := range forms {
			if c.Tier != "thorough" && (i+j)%2 == 1 && i > 3 && j > 3 {
				continue
			}
			decls = append(decls, "type T "+fmt.Sprintf(f, "U")+"\ntype U "+fmt.Sprintf(g, "T"))
		}
	}
	for _, d := range []string{"type T struct{ F *T }", "type T []T", "type T []*T", "type T map[string]T"} {
		decls = append(decls, d+"\nfunc (in *T) DeepCopyInto(out *T) {}", d+"\nfunc (in T) DeepCopy() T { return nil }", d+"\nfunc (in *T) DeepCopy() *T { return nil }", d+"\nfunc (in *T) DeepCopyInto(out *T) {}\nfunc (in *T) DeepCopy() *T { return nil }")
		if !strings.Contains(d, "struct") {
			decls = append(decls, d+"\nfunc (in T) DeepCopyInto(out *T) {}")
		}
	}
	one := func(i int, d string) {
		defer func() {
			if r := recover(); r != nil {
				a, ok := r.(analysisErr)
				if !ok {
					panic(r)
				}
				c.bad("copies-end", d, pos, "%s: the generator does not end: %s", strings.ReplaceAll(d, "\n", "; "), a)
			}
		}()
		src := "package v1\n" + d + "\ntype S struct { A T; B *T; C []T; D map[string]*T }\n"
		key := strings.ReplaceAll(d, "\n", "; ")
		pkg, files, info, err := e.typeCheck(fmt.Sprintf("gen.example/cyc%d", i), src)
		if err != nil {
			return // not a type
		}
		rs := e.generate(pkg, files, info, pkgOn, func(string) []any { return nil }, nil, nil)
		c.ob(len(rs) > 0, "copies-end", key, pos, "%s: the generator does not end", key)
		for _, r := range rs {
			if !c.ob(r.unknown == "", "copies-end", key, pos, "%s: %s", key, r.unknown) || r.errors || r.text == "" {
				continue
			}
			_, errs := e.typeCheckLoose(fmt.Sprintf("gen.example/cycout%d", i), src, r.text)
			c.ob(len(errs) == 0, "copies-end", key+" compiles", pos, "%s: the generated code does not type-check: %v", key, errs)
			for _, n := range pkg.Scope().Names() {
				c.ob(strings.Count(r.text, "func (in *"+n+") DeepCopyInto(")+strings.Count(r.text, "func (in "+n+") DeepCopyInto(") <= 1, "each-type-once", key+" "+n, pos, "%s: %s gets its methods more than once", key, n)
			}
		}
	}
	for i, d := range decls {
		one(i, d)
	}
}

// packages interprets the type checker over graphs of packages.
func (k *endCheck) packages() {
	w := k.w
	tc := w.typ("pkg/loader", "TypeChecker")
	lp := w.typ("pkg/loader", "Package")
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	fn := w.methodOf(tc, "Check")
	pos := w.pos(fn.Pos())
	m := inited(w)
	m.edges = k.edges
	m.funcsIn = k.ran
	m.maxRec, m.overFails = 10, true
	m.inline["go/ast"] = true
	tm := m.tm
	if tm == nil {
		fatalf("no type model")
	}
	names := []string{"a", "b", "c", "d"}
	var pairs [][2]int
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	imports := map[*Obj]*Val{}
	nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	m.hooks["(*"+modPath+"/pkg/loader.Package).NeedSyntax"] = nop
	m.hooks["(*"+modPath+"/pkg/loader.Package).Imports"] = func(st *State, c *Call) ([]Out, bool) {
		return one(st, imports[c.args[0].refs[0].obj]), true
	}
	m.hooks["(*"+modPath+"/pkg/loader.Package).NeedTypesInfo"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("checked:" + c.args[0].refs[0].obj.id)
		return []Out{{st: st}}, true
	}
	m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = func(st *State, c *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
	m.hooks["strconv.Unquote"] = func(st *State, c *Call) ([]Out, bool) {
		s, ok := c.args[0].str()
		if !ok {
			return nil, false
		}
		u, err := strconv.Unquote(s)
		if err != nil {
			return nil, false
		}
		return []Out{{st: st, res: []*Val{strVal(u), nilVal()}}}, true
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		m.hooks[n] = nop
	}
	for mask := 0; mask < 1<<len(pairs); mask++ {
		for dots := 0; dots < 2; dots++ {
			st := newState()
			var ps []*Val
			for _, n := range names {
				ps = append(ps, m.cellOf(st, "pkg:"+n, lp, nil))
			}
			var kinds []string
			for i, n := range names {
				var imps, specs []*Val
				var ds []*Val
				var kvs []any
				for b, p := range pairs {
					if p[0] != i || mask>>b&1 == 0 {
						continue
					}
					t := names[p[1]]
					kinds = append(kinds, n+"->"+t)
					kvs = append(kvs, strVal("x.org/"+t), ps[p[1]])
					name := nilVal()
					if (b+dots)%2 == 0 {
						name = astPtr(tm.node(st, "Ident", nil, "Name", strVal(".")))
					} else {
						sel := tm.node(st, "SelectorExpr", nil, "X", tm.node(st, "Ident", nil, "Name", strVal(t)), "Sel", astPtr(tm.node(st, "Ident", nil, "Name", strVal("T"))))
						specs = append(specs, tm.node(st, "TypeSpec", nil, "Name", astPtr(tm.node(st, "Ident", nil, "Name", strVal("T"+t))), "Type", sel))
					}
					imps = append(imps, astPtr(tm.node(st, "ImportSpec", nil, "Name", name, "Path", astPtr(tm.node(st, "BasicLit", nil, "Value", strVal(`"x.org/`+t+`"`))))))
				}
				fileT := w.depTyp("go/ast", "File")
				genT := w.depTyp("go/ast", "GenDecl")
				it, _ := arrayElem(fieldType(fileT, "Imports"))
				st_, _ := arrayElem(fieldType(genT, "Specs"))
				dt, _ := arrayElem(fieldType(fileT, "Decls"))
				ds = append(ds, tm.node(st, "GenDecl", nil, "Tok", constVal(int64(token.TYPE)), "Specs", m.sliceOf(st, "specs:"+n, st_, specs...)))
				file := astPtr(tm.node(st, "File", nil, "Name", astPtr(tm.node(st, "Ident", nil, "Name", strVal(n))), "Imports", m.sliceOf(st, "imps:"+n, it, imps...), "Decls", m.sliceOf(st, "decls:"+n, dt, ds...)))
				rp := m.cellOf(st, "raw:"+n, raw, structOf(raw, "ID", strVal("x.org/"+n), "Name", strVal(n), "PkgPath", strVal("x.org/"+n), "Syntax", m.sliceOf(st, "files:"+n, types.NewPointer(fileT), file)))
				m.store(st, ps[i], structOf(lp, "Package", rp), lp)
				imports[ps[i].refs[0].obj] = m.mapOf(st, "imports:"+n, types.NewMap(types.Typ[types.String], types.NewPointer(lp)), kvs...)
			}
			key := strings.Join(kinds, " ")
			checker := m.cellOf(st, "checker", tc, nil)
			ok := true
			for _, i := range []int{0, 0, 1, 2} {
				m.maxStep = m.steps + 300_000
				m.over = nil
				outs := tryInterp(m, st, fn, checker, ps[i])
				if !k.c.ob(len(outs) == 1 && len(m.over) == 0 && outs[0].panics == "" && outs[0].st.notes["errors"] == nil, "checking-ends", key, pos, "packages %s: checking %s is not determined: %d outcomes, unfinished calls %v", key, names[i], len(outs), firstOf(m.over)) {
					ok = false
					break
				}
				st = outs[0].st
			}
			if !ok {
				continue
			}
			reach := []bool{true, true, true, false}
			for b, p := range pairs {
				if mask>>b&1 == 1 && p[1] == 3 {
					reach[3] = true
				}
			}
			for i, n := range names {
				got := int64(0)
				if v := st.notes["checked:"+ps[i].refs[0].obj.id]; v != nil {
					got, _ = v.integer()
				}
				want := int64(0)
				if reach[i] {
					want = 1
				}
				k.c.ob(got == want, "each-package-once", key+" "+n, pos, "packages %s: %s is checked %d times, expected %d", key, n, got, want)
			}
		}
	}
}

// loading interprets the package loader over graphs of packages.
func (k *endCheck) loading() {
	w := k.w
	lp := w.typ("pkg/loader", "Package")
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	cfgT := w.depTyp("golang.org/x/tools/go/packages", "Config")
	fn := w.fn("pkg/loader", "LoadRootsWithConfig")
	pos := w.pos(fn.Pos())
	m := inited(w)
	m.edges, m.funcsIn, m.maxRec = k.edges, k.ran, 20
	names := []string{"a", "b", "c", "d"}
	var pairs [][2]int
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	var roots *Val
	m.hooks["golang.org/x/tools/go/packages.Load"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{roots, nilVal()}}}, true
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock"} {
		m.hooks[n] = func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	}
	visits := map[string]int{}
	m.onCall = func(st *State, c *Call) {
		if c.name != "(*"+modPath+"/pkg/loader.Package).Imports" || len(c.args[0].refs) != 1 {
			return
		}
		if p := m.at(st, c.args[0], lp, "Package"); p != nil && len(p.refs) == 1 && p.refs[0].obj != nil {
			visits[p.refs[0].obj.id]++
		}
	}
	for mask := 0; mask < 1<<len(pairs); mask++ {
		for nr := 1; nr <= 2; nr++ {
			st := newState()
			var ps []*Val
			for _, n := range names {
				ps = append(ps, m.cellOf(st, "raw:"+n, raw, nil))
			}
			var kinds []string
			for i, n := range names {
				var kvs []any
				for b, p := range pairs {
					if p[0] == i && mask>>b&1 == 1 {
						kvs = append(kvs, strVal("x.org/"+names[p[1]]), ps[p[1]])
						kinds = append(kinds, n+"->"+names[p[1]])
					}
				}
				m.store(st, ps[i], structOf(raw, "ID", strVal("x.org/"+n), "Name", strVal(n), "PkgPath", strVal("x.org/"+n),
					"Imports", m.mapOf(st, "imports:"+n, fieldType(raw, "Imports"), kvs...)), raw)
			}
			roots = m.sliceOf(st, "roots", types.NewPointer(raw), ps[:nr]...)
			key := fmt.Sprintf("%s with %d roots", strings.Join(kinds, " "), nr)
			clear(visits)
			m.maxStep = m.steps + 300_000
			m.over = nil
			outs := tryInterp(m, st, fn, m.cellOf(st, "cfg", cfgT, nil), nilVal())
			if !k.c.ob(len(outs) > 0 && len(m.over) == 0 && outs[0].panics == "", "loading-ends", key, pos, "packages %s: loading is not determined: %d outcomes, unfinished calls %v", key, len(outs), firstOf(m.over)) {
				continue
			}
			if nr > 1 {
				continue
			}
			for i, n := range names {
				got, top := visits[ps[i].refs[0].obj.id], visits[ps[0].refs[0].obj.id]
				k.c.ob(top > 0 && got <= top, "each-package-once", "loading "+key+" "+n, pos, "packages %s: %s is visited %d times, the root %d times", key, n, got, top)
			}
		}
	}
}

// tryInterp interprets a function, with no outcome if that does not come to an end.
func tryInterp(m *M, st *State, fn *ssa.Function, args ...*Val) []Out {
	outs, _ := attempt(m, st, fn, args...)
	return outs
}

// attempt interprets a function, with no outcome but the reason if that is not possible.
func attempt(m *M, st *State, fn *ssa.Function, args ...*Val) (outs []Out, why string) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(analysisErr)
			if !ok {
				panic(r)
			}
			m.stack, outs, why = nil, nil, fmt.Sprint(e)
		}
	}()
	return m.interp(st, fn, args...), "no outcome"
}
