package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C09", "abstract interpretation of the schema walker over a schema with every nesting place of the schema type filled", "two levels of nesting; two entries per list and map; every place derived from the fields of the schema type",
		"The places a nested schema can occur at are read off the schema type. A schema with all of them filled is walked abstractly with a visitor that records and edits what it is given, replaces references, or stops; every place must be visited once, with its parent's visitor, inside its parent's subtree, and hold the edit afterwards. The passes built on the walker are then interpreted with their trigger at every place.", checkC09)
}

// schemaPlaces builds schemas from the structure of the schema type.
type schemaPlaces struct {
	w *World
	m *M
	t types.Type
}

const apiextPkg = "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

func newSchemaPlaces(w *World, m *M) *schemaPlaces {
	m.inline[apiextPkg] = true
	w.buildDep(apiextPkg)
	reflModel{m}.hooks()
	m.maxStep = 1 << 40
	return &schemaPlaces{w, m, w.depTyp(apiextPkg, "JSONSchemaProps")}
}

// reaches tells whether a value of type t can hold a schema.
func (p *schemaPlaces) reaches(t types.Type) bool {
	if types.Identical(t, p.t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return p.reaches(u.Elem())
	case *types.Slice:
		return p.reaches(u.Elem())
	case *types.Map:
		return p.reaches(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if p.reaches(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// fill makes a value of type t with a schema at every place; mk makes the schema of a place.
func (p *schemaPlaces) fill(st *State, t types.Type, path string, mk func(path string) *Val) *Val {
	if types.Identical(t, p.t) {
		if mk == nil {
			return zeroVal(t)
		}
		return mk(path)
	}
	if u, ok := t.Underlying().(*types.Pointer); ok && mk == nil && types.Identical(u.Elem(), p.t) {
		return nilVal() // a place that holds nothing
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return p.m.cellOf(st, "fill."+path, u.Elem(), p.fill(st, u.Elem(), path, mk))
	case *types.Slice:
		return p.m.sliceOf(st, "fill."+path, u.Elem(), p.fill(st, u.Elem(), path+"[0]", mk), p.fill(st, u.Elem(), path+"[1]", mk))
	case *types.Map:
		return p.m.mapOf(st, "fill."+path, t, strVal("a"), p.fill(st, u.Elem(), path+"{a}", mk), strVal("b"), p.fill(st, u.Elem(), path+"{b}", mk))
	case *types.Struct:
		v := *zeroVal(t)
		v.agg = append([]*Val(nil), v.agg...)
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); p.reaches(f.Type()) {
				v.agg[i] = p.fill(st, f.Type(), path+"."+f.Name(), mk)
			}
		}
		return &v
	}
	return zeroVal(t)
}

// nested makes a schema with a schema at every place it has, down to depth.
func (p *schemaPlaces) nested(st *State, path string, depth int, leaf func(path string) *Val) *Val {
	v := *leaf(path)
	if depth == 0 {
		return &v
	}
	v.agg = append([]*Val(nil), v.agg...)
	u := p.t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if types.Identical(f.Type(), p.t) || !p.reaches(f.Type()) {
			continue
		}
		if !isZero(v.agg[i]) {
			continue // the leaf uses this place itself
		}
		v.agg[i] = p.fill(st, f.Type(), path+"."+f.Name(), func(q string) *Val { return p.nested(st, q, depth-1, leaf) })
	}
	return &v
}

// each calls f for every schema in a value, with its path.
func (p *schemaPlaces) each(st *State, t types.Type, v *Val, path string, f func(path string, v *Val)) {
	v = p.m.resolve(st, v)
	if v == nil || v.unk {
		f(path+"?", v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !v.isNil() {
			p.each(st, u.Elem(), p.m.load(st, v, u.Elem()), path, f)
		}
	case *types.Slice:
		es, ok := p.m.elems(st, v)
		if !ok {
			f(path+"?", nil)
		}
		for i, e := range es {
			p.each(st, u.Elem(), e, fmt.Sprintf("%s[%d]", path, i), f)
		}
	case *types.Map:
		if v.isNil() {
			return
		}
		for _, kv := range p.m.mapEntries(st, v) {
			k, _ := kv[0].str()
			p.each(st, u.Elem(), kv[1], path+"{"+k+"}", f)
		}
	case *types.Struct:
		if types.Identical(t, p.t) {
			f(path, v)
		}
		for i := 0; i < u.NumFields(); i++ {
			if x := u.Field(i); p.reaches(x.Type()) {
				p.each(st, x.Type(), p.m.child(v, fmt.Sprint(i)), path+"."+x.Name(), f)
			}
		}
	}
}

func checkC09(c *Check) {
	w := c.W
	base := inited(w)
	p := newSchemaPlaces(w, base)
	fork := func() *schemaPlaces {
		m := base.fork()
		q := newSchemaPlaces(w, m)
		return q
	}
	fn := w.fn("pkg/crd", "EditSchema")
	pos := w.pos(fn.Pos())
	id := func(path string) *Val { return structOf(p.t, "ID", strVal(path)) }
	visitorT := fn.Signature.Params().At(1).Type()
	visitName := "(" + modPath + "/pkg/crd.SchemaVisitor).Visit"
	if types.TypeString(visitorT, nil) != modPath+"/pkg/crd.SchemaVisitor" {
		visitName = "(" + types.TypeString(visitorT, nil) + ").Visit"
	}
	var all []string
	{
		q := fork()
		st := newState()
		q.each(st, q.t, q.nested(st, "", 2, id), "", func(path string, v *Val) { all = append(all, path) })
	}
	c.fact("%d places in a schema filled to two levels", len(all))
	parent := func(path string) string {
		best := ""
		for _, o := range all {
			if len(o) < len(path) && strings.HasPrefix(path, o) && len(o) > len(best) {
				rest := path[len(o):]
				if rest[0] == '.' {
					best = o
				}
			}
		}
		return best
	}
	parents := map[string]string{}
	for _, pa := range all {
		if pa != "" {
			parents[pa] = parent(pa)
		}
	}
	// walk interprets the walker with a visitor that stops at stop and returns the trace of calls
	walk := func(stop string, depth int) {
		q := fork()
		st := newState()
		full := q.nested(st, "", depth, id)
		var all []string
		q.each(st, q.t, full, "", func(path string, v *Val) { all = append(all, path) })
		root := q.m.cellOf(st, "root", q.t, full)
		q.m.hooks[visitName] = func(st *State, cl *Call) ([]Out, bool) {
			vis := "?"
			if cl.args[0].sym != nil {
				vis = cl.args[0].sym.s
			}
			if cl.args[1].isNil() {
				traceAdd(st, "end "+vis+"\n")
				return one(st, cl.args[0]), true
			}
			idv := q.m.at(st, cl.args[1], q.t, "ID")
			path, ok := idv.str()
			if !ok {
				path = "?" + idv.String()
			}
			traceAdd(st, "visit "+path+" by "+vis+"\n")
			sc := *q.m.load(st, cl.args[1], q.t)
			sc.agg = append([]*Val(nil), sc.agg...)
			sc.agg[fieldIndex(q.t, "Title")] = strVal("edited " + path)
			q.m.store(st, cl.args[1], &sc, q.t)
			if path == stop {
				return one(st, nilVal()), true
			}
			return one(st, unkNonNil(visitorT, &Sym{"visitor of " + path, true})), true
		}
		outs := q.m.interp(st, fn, root, unkNonNil(visitorT, &Sym{"first visitor", true}))
		what := "a schema with every place filled"
		if stop != "-" {
			what += ", stopping at " + stop
		}
		if !c.ob(len(outs) > 0 && len(q.m.over) == 0, "decided", what, pos, "%s: the walk is not determined (%d outcomes, %v)", what, len(outs), q.m.over) {
			return
		}
		for _, o := range outs {
			if !c.ob(o.panics == "", "decided", what+" panics", pos, "%s: %s", what, o.panics) {
				continue
			}
			tr := strings.Split(strings.TrimSuffix(traceOf(o.st), "\n"), "\n")
			seen, ended, at := map[string]int{}, map[string]int{}, map[string]int{}
			endAt := map[string]int{}
			for i, l := range tr {
				if path, by, ok := strings.Cut(strings.TrimPrefix(l, "visit "), " by "); ok && strings.HasPrefix(l, "visit ") {
					seen[path]++
					at[path] = i
					want := "first visitor"
					if path != "" {
						want = "visitor of " + parents[path]
					}
					c.ob(by == want, "visitor", what+" "+path, pos, "%s: %q is visited by the %s instead of the %s", what, path, by, want)
				} else if v, ok := strings.CutPrefix(l, "end visitor of "); ok {
					ended[v]++
					endAt[v] = i
				} else {
					c.ob(false, "visitor", what+" "+l, pos, "%s: unexpected call: %s", what, l)
				}
			}
			below := func(path string) bool {
				return stop != "-" && path != stop && strings.HasPrefix(path, stop) && (stop == "" || path[len(stop)] == '.')
			}
			for _, path := range all {
				if below(path) {
					c.ob(seen[path] == 0, "stops", what+" "+path, pos, "%s: %q is visited although the visitor stopped above it", what, path)
					continue
				}
				c.ob(seen[path] == 1, "visited", what+" "+path, pos, "%s: the schema at %q is visited %d times", what, path, seen[path])
				wantEnd := 1
				if path == stop {
					wantEnd = 0
				}
				c.ob(ended[path] == wantEnd, "ended", what+" "+path, pos, "%s: the end of %q is notified %d times, expected %d", what, path, ended[path], wantEnd)
				if pa, ok := parents[path]; ok {
					c.ob(at[pa] < at[path] && endAt[pa] > at[path] && (wantEnd == 0 || endAt[pa] > endAt[path]), "nested", what+" "+path, pos, "%s: %q is not visited between the visit and the end of %q", what, path, pa)
				}
			}
			n := 0
			q.each(o.st, q.t, q.m.load(o.st, root, q.t), "", func(path string, v *Val) {
				n++
				if below(path) {
					return
				}
				c.ob(v != nil && q.m.getField(v, q.t, "Title").String() == strVal("edited "+path).String(), "edit-kept", what+" "+path, pos, "%s: the edit made at %q is lost", what, path)
			})
			c.ob(n == len(all), "edit-kept", what+" places", pos, "%s: %d places are left of %d", what, n, len(all))
		}
	}
	walk("-", 2)
	walk("", 2)
	for _, path := range all {
		if parents[path] == "" && path != "" {
			walk(path, 1)
		}
	}

	// places that are there but hold no schema
	{
		q := fork()
		st := newState()
		v := *structOf(q.t, "ID", strVal("root"))
		v.agg = append([]*Val(nil), v.agg...)
		u := q.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if f := u.Field(i); !types.Identical(f.Type(), q.t) && q.reaches(f.Type()) {
				switch x := f.Type().Underlying().(type) {
				case *types.Slice:
				case *types.Map:
					if !types.Identical(x.Elem(), q.t) {
						v.agg[i] = q.fill(st, f.Type(), f.Name(), nil)
					}
				default:
					v.agg[i] = q.fill(st, f.Type(), f.Name(), nil)
				}
			}
		}
		root := q.m.cellOf(st, "root", q.t, &v)
		q.m.hooks[visitName] = func(st *State, cl *Call) ([]Out, bool) { return one(st, cl.args[0]), true }
		for _, o := range q.m.interp(st, fn, root, unkNonNil(visitorT, &Sym{"first visitor", true})) {
			c.ob(o.panics == "", "decided", "empty places", pos, "a place that holds no schema makes the walk panic: %s", o.panics)
		}
	}

	// a reference the visitor leaves in place is visited like any other schema
	{
		q := fork()
		st := newState()
		kept := structOf(q.t, "ID", strVal("root"), "Ref", q.m.cellOf(st, "keptref", types.Typ[types.String], strVal("r")), "Not", q.m.cellOf(st, "keptnot", q.t, structOf(q.t, "ID", strVal("child"))))
		root := q.m.cellOf(st, "root", q.t, kept)
		q.m.hooks[visitName] = func(st *State, cl *Call) ([]Out, bool) {
			if cl.args[1].isNil() {
				traceAdd(st, "end\n")
			} else {
				path, _ := q.m.at(st, cl.args[1], q.t, "ID").str()
				traceAdd(st, "visit "+path+"\n")
			}
			return one(st, cl.args[0]), true
		}
		for _, o := range q.m.interp(st, fn, root, unkNonNil(visitorT, &Sym{"first visitor", true})) {
			c.ob(o.panics == "" && traceOf(o.st) == "visit root\nvisit child\nend\nend\n", "references", "kept", pos, "a reference that stays in place: the calls are\n%s", traceOf(o.st))
		}
	}

	// references: a visitor that replaces a reference is given the replacement
	for _, chain := range [][]string{{"r1"}, {"r1", "r2"}, {"r1", "r2", "r1"}, {"r1", "r1"}} {
		q := fork()
		st := newState()
		ref := func(st *State, n string) *Val {
			return q.m.cellOf(st, "ref."+n+fmt.Sprint(st.notes["n"]), types.Typ[types.String], strVal(n))
		}
		root := q.m.cellOf(st, "root", q.t, structOf(q.t, "ID", strVal("0"), "Ref", ref(st, chain[0])))
		q.m.hooks[visitName] = func(st *State, cl *Call) ([]Out, bool) {
			vis := ""
			if cl.args[0].sym != nil {
				vis = cl.args[0].sym.s
			}
			if cl.args[1].isNil() {
				traceAdd(st, "end "+vis+"\n")
				return one(st, cl.args[0]), true
			}
			path, _ := q.m.at(st, cl.args[1], q.t, "ID").str()
			traceAdd(st, "visit "+path+" by "+vis+"\n")
			var i int
			fmt.Sscan(path, &i)
			next := []any{"ID", strVal(fmt.Sprint(i + 1))}
			if i+1 < len(chain) {
				next = append(next, "Ref", ref(st, chain[i+1]))
			} else {
				next = append(next, "Not", q.m.cellOf(st, "not", q.t, structOf(q.t, "ID", strVal("child"))))
			}
			if path == "child" || i > 8 {
				return one(st, nilVal()), true
			}
			if i < len(chain) {
				q.m.store(st, cl.args[1], structOf(q.t, next...), q.t)
			}
			return one(st, unkNonNil(visitorT, &Sym{"v" + path, true})), true
		}
		what := "references " + strings.Join(chain, ", then ")
		want := "visit 0 by first\n"
		last := 0
		seen := map[string]bool{chain[0]: true}
		for i := 1; i < len(chain) && !seen[chain[i]]; i++ {
			want += fmt.Sprintf("visit %d by v%d\n", i, i-1)
			seen[chain[i]] = true
			last = i
		}
		// the last replacement is not a new reference: its children are visited, and every visitor is told about the end
		childless := last+1 < len(chain)
		if !childless {
			want += fmt.Sprintf("visit child by v%d\n", last)
		}
		for i := last; i >= 0; i-- {
			want += fmt.Sprintf("end v%d\n", i)
		}
		outs := q.m.interp(st, fn, root, unkNonNil(visitorT, &Sym{"first", true}))
		c.ob(len(outs) > 0, "references", what+" decided", pos, "%s: the walk does not end", what)
		for _, o := range outs {
			c.ob(o.panics == "" && traceOf(o.st) == want, "references", what, pos, "%s: the calls are\n%sinstead of\n%s", what, traceOf(o.st), want)
		}
	}

	c.checkPasses(fork, all)
	c.atLeast("visited", 300)
}

// traceAdd adds a line to the calls seen on this path.
func traceAdd(st *State, s string) { st.notes["trace"] = strVal(traceOf(st) + s) }

func traceOf(st *State) string {
	if v := st.notes["trace"]; v != nil {
		s, _ := v.str()
		return s
	}
	return ""
}

// checkPasses interprets the passes built on the walker with their trigger at every place.
func (c *Check) checkPasses(fork func() *schemaPlaces, all []string) {
	w := c.W
	// descriptions
	{
		q := fork()
		fn := w.fn("pkg/crd", "TruncateDescription")
		pos := w.pos(fn.Pos())
		st := newState()
		root := q.m.cellOf(st, "root", q.t, q.nested(st, "", 2, func(path string) *Val { return structOf(q.t, "ID", strVal(path), "Description", strVal("about "+path)) }))
		for _, o := range q.m.interp(st, fn, root, constVal(int64(0))) {
			n := 0
			q.each(o.st, q.t, q.m.load(o.st, root, q.t), "", func(path string, v *Val) {
				n++
				d := q.m.getField(v, q.t, "Description").String()
				c.ob(o.panics == "" && d == `""`, "descriptions", path, pos, "with a maximum length of 0 the description at %q stays %s", path, d)
			})
			c.ob(n == len(all), "descriptions", "places", pos, "%d places are left of %d", n, len(all))
		}
		q = fork()
		st = newState()
		root = q.m.cellOf(st, "root", q.t, q.nested(st, "", 2, func(path string) *Val { return structOf(q.t, "ID", strVal(path), "Description", strVal("about "+path)) }))
		for _, o := range q.m.interp(st, fn, root, constVal(int64(-1))) {
			q.each(o.st, q.t, q.m.load(o.st, root, q.t), "", func(path string, v *Val) {
				d, _ := q.m.getField(v, q.t, "Description").str()
				c.ob(o.panics == "" && d == "about "+path, "descriptions", path+" kept", pos, "without a maximum length the description at %q becomes %q", path, d)
			})
		}
	}
	// embedded fields
	{
		q := fork()
		fn := w.fn("pkg/crd", "FlattenEmbedded")
		pos := w.pos(fn.Pos())
		st := newState()
		root := q.m.cellOf(st, "root", q.t, q.nested(st, "", 2, func(path string) *Val {
			v := structOf(q.t, "ID", strVal(path))
			if strings.Contains(path, ".AllOf") {
				return v
			}
			v = structOf(q.t, "ID", strVal(path), "AllOf", q.m.sliceOf(st, "emb."+path, q.t, structOf(q.t, "Pattern", strVal("p "+path))))
			return v
		}))
		before := q.m.canon(st, root, types.NewPointer(q.t), 0)
		rec := unkNonNil(fn.Signature.Params().At(1).Type(), &Sym{"recorder", true})
		for _, o := range q.m.interp(st, fn, root, rec) {
			if !c.ob(o.panics == "", "embedded", "panics", pos, "flattening embedded fields panics: %s", o.panics) {
				continue
			}
			seen := map[string]bool{}
			q.each(o.st, q.t, q.m.load(o.st, o.res[0], q.t), "", func(path string, v *Val) {
				seen[path] = true
				pat, _ := q.m.getField(v, q.t, "Pattern").str()
				all := q.m.getField(v, q.t, "AllOf")
				es, ok := q.m.elems(o.st, all)
				c.ob(pat == "p "+path && ok && len(es) == 0, "embedded", path, pos, "the schema embedded at %q is not merged: pattern %q, %d parts left", path, pat, len(es))
			})
			for _, path := range all {
				if !strings.Contains(path, ".AllOf") {
					c.ob(seen[path], "embedded", path+" kept", pos, "the place %q is lost", path)
				}
			}
			c.ob(q.m.canon(o.st, root, types.NewPointer(q.t), 0) == before, "embedded", "input", pos, "flattening embedded fields changes the schema it is given")
		}
	}
	c.checkFlattenPlaces(fork, all)
}

// checkFlattenPlaces interprets reference flattening with a reference at every place.
func (c *Check) checkFlattenPlaces(fork func() *schemaPlaces, all []string) {
	w := c.W
	q := fork()
	fl := w.typ("pkg/crd", "Flattener")
	ps := w.typ("pkg/crd", "Parser")
	ti := w.typ("pkg/crd", "TypeIdent")
	lp := w.typ("pkg/loader", "Package")
	fn := w.methodOf(fl, "FlattenType")
	pos := w.pos(fn.Pos())
	m := q.m
	for name := range map[string]bool{"NeedSchemaFor": true} {
		m.hooks[w.methodOf(ps, name).String()] = func(st *State, cl *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	}
	errs := func(st *State, cl *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
	m.hooks["(*"+modPath+"/pkg/loader.Package).AddError"] = errs
	m.hooks["(*"+modPath+"/pkg/loader.Package).Imports"] = func(st *State, cl *Call) ([]Out, bool) {
		return one(st, m.mapOf(st, "imports", cl.res.At(0).Type())), true
	}
	st := newState()
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	pkg := m.cellOf(st, "pkg", lp, structOf(lp, "Package", m.cellOf(st, "raw", raw, structOf(raw, "PkgPath", strVal("example.com/v1"), "Name", strVal("v1")))))
	ident := func(n string) *Val { return structOf(ti, "Package", pkg, "Name", strVal(n)) }
	ref := func(n string) *Val {
		return m.cellOf(st, "ref."+n, types.Typ[types.String], strVal("#/definitions/"+n))
	}
	// Root has a reference to Leaf at every place of two levels; Leaf has one to Inner; Inner none
	var sorted []string
	root := q.nested(st, "", 2, func(path string) *Val {
		if strings.Count(path, ".") >= 1 && !hasPlaceBelow(all, path) {
			sorted = append(sorted, path)
			n := "Leaf"
			if len(sorted)%2 == 0 {
				n = "Other"
			}
			return structOf(q.t, "ID", strVal(path), "Description", strVal("field "+path), "Ref", ref(n))
		}
		return structOf(q.t, "ID", strVal(path))
	})
	sort.Strings(sorted)
	inner := structOf(q.t, "Type", strVal("string"), "Pattern", strVal("inner"))
	leaf := structOf(q.t, "Type", strVal("object"), "Format", strVal("leaf"), "Properties", m.mapOf(st, "leafprops", fieldType(q.t, "Properties"), strVal("in"), structOf(q.t, "Ref", ref("Inner"), "Description", strVal("in leaf"))))
	other := structOf(q.t, "Type", strVal("object"), "Format", strVal("other"))
	schemata := m.mapOf(st, "schemata", fieldType(ps, "Schemata"), ident("Root"), root, ident("Leaf"), leaf, ident("Inner"), inner, ident("Other"), other)
	parser := m.cellOf(st, "parser", ps, structOf(ps, "Schemata", schemata))
	flv := m.cellOf(st, "flattener", fl, structOf(fl, "Parser", parser))
	before := m.canon(st, schemata, fieldType(ps, "Schemata"), 0)
	outs := m.interp(st, fn, flv, ident("Root"))
	c.ob(len(outs) > 0 && len(m.over) == 0, "references-flattened", "decided", pos, "flattening is not determined: %d outcomes, %v", len(outs), m.over)
	for _, o := range outs {
		if !c.ob(o.panics == "" && o.st.notes["errors"] == nil && o.res[0].notNil(), "references-flattened", "ends", pos, "flattening fails: %s", o.panics) {
			continue
		}
		at := map[string]*Val{}
		q.each(o.st, q.t, m.load(o.st, o.res[0], q.t), "", func(path string, v *Val) {
			at[path] = v
			if v == nil {
				return
			}
			r := m.resolve(o.st, m.getField(v, q.t, "Ref"))
			c.ob(r.isNil(), "references-flattened", "at "+path, pos, "a reference is left at %q", path)
		})
		for _, path := range sorted {
			v := at[path]
			if !c.ob(v != nil, "references-flattened", "lost "+path, pos, "the place %q is lost", path) {
				continue
			}
			d, _ := m.getField(v, q.t, "Description").str()
			t, _ := m.getField(v, q.t, "Type").str()
			flat := t
			for i := 0; i < 2; i++ {
				if p := at[fmt.Sprintf("%s.AllOf[%d]", path, i)]; p != nil && flat == "" {
					flat, _ = m.getField(p, q.t, "Type").str()
				}
			}
			c.ob(d == "field "+path && flat == "object", "references-flattened", "content "+path, pos, "the reference at %q gives type %q and description %q", path, flat, d)
		}
		c.ob(m.canon(o.st, schemata, fieldType(ps, "Schemata"), 0) == before, "references-flattened", "schemata", pos, "flattening changes the schemas of the parser")
	}
}

func hasPlaceBelow(all []string, path string) bool {
	for _, o := range all {
		if strings.HasPrefix(o, path+".") {
			return true
		}
	}
	return false
}
