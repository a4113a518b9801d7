package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// C26: what a limit on descriptions does to them.

func init() {
	register("C26", "abstract interpretation of the truncation of descriptions and of the code that asks for it",
		"texts over classes of characters (letters of one and several bytes, sentence ends of one and several bytes, spaces) up to a length beyond each limit; every place of a schema; CRDs of one and two versions with and without a limit",
		"The truncation is interpreted on every text of a bounded length over the classes of characters with every limit: a text within the limit stays, a longer one keeps a beginning within the limit that ends at the last sentence end that fits, or a beginning with at most an ellipsis; no character is split. Every description in a schema is treated so and nothing else in it changes. The CRD builder is interpreted with and without a limit: all its versions' schemas obey it and the shared schemas stay as they were. The generator hands its own limit on.", checkC26)
}

// unicodeTables makes the tables of package unicode named values and models the questions put to them.
func unicodeTables(m *M) {
	host := map[*Obj]*unicode.RangeTable{}
	sp := m.w.buildDep("unicode")
	if sp == nil {
		return
	}
	long := map[string]*unicode.RangeTable{"Letter": unicode.Letter, "Digit": unicode.Digit, "Space": unicode.Space, "Upper": unicode.Upper, "Lower": unicode.Lower, "Punct": unicode.Punct, "Mark": unicode.Mark, "Number": unicode.Number, "Symbol": unicode.Symbol, "Title": unicode.Title, "Other": unicode.Other}
	for name, mem := range sp.Members {
		g, ok := mem.(*ssa.Global)
		if !ok {
			continue
		}
		t := unicode.Properties[name]
		if t == nil {
			t = unicode.Categories[name]
		}
		if t == nil {
			t = unicode.Scripts[name]
		}
		if t == nil {
			t = long[name]
		}
		if t == nil {
			continue
		}
		o := &Obj{id: "unicode." + name, t: deref(g.Type()), kind: 'c'}
		m.base[o] = unkVal(deref(deref(g.Type())), nil)
		m.base[m.global(g)] = &Val{nil_: nonBit, refs: []*Ref{{obj: o}}}
		host[o] = t
	}
	m.hooks["unicode.Is"] = func(st *State, c *Call) ([]Out, bool) {
		r, ok := c.args[1].integer()
		if !ok || len(c.args[0].refs) != 1 || host[c.args[0].refs[0].obj] == nil {
			return nil, false
		}
		return one(st, boolVal(unicode.Is(host[c.args[0].refs[0].obj], rune(r)))), true
	}
	is := func(st *State, c *Call) ([]Out, bool) {
		var ts *Val
		var r int64
		var ok bool
		if c.name == "unicode.In" {
			r, ok = c.args[0].integer()
			ts = c.args[1]
		} else {
			r, ok = c.args[1].integer()
			ts = c.args[0]
		}
		l, ok2 := m.elems(st, ts)
		if !ok || !ok2 {
			return nil, false
		}
		for _, t := range l {
			t = m.resolve(st, t)
			if len(t.refs) != 1 || host[t.refs[0].obj] == nil {
				return nil, false
			}
			if unicode.Is(host[t.refs[0].obj], rune(r)) {
				return one(st, boolVal(true)), true
			}
		}
		return one(st, boolVal(false)), true
	}
	m.hooks["unicode.In"], m.hooks["unicode.IsOneOf"] = is, is
}

// shortened tells what is wrong with the text a description with a limit becomes.
func shortened(d, r string, n int64) string {
	if n < 0 {
		if r != d {
			return "changes without a limit"
		}
		return ""
	}
	if n == 0 {
		if r != "" {
			return "is not removed"
		}
		return ""
	}
	chars := []rune(d)
	if int64(len(chars)) <= n {
		if r != d {
			return "changes although it is within the limit"
		}
		return ""
	}
	if !utf8.ValidString(r) {
		return "has a split character"
	}
	for i := n - 1; i > 0; i-- {
		if unicode.Is(unicode.STerm, chars[i]) {
			if want := string(chars[:i+1]); r != want {
				return fmt.Sprintf("is not cut at the last sentence end that fits, expected %q", want)
			}
			return ""
		}
	}
	for _, p := range []string{r, strings.TrimSuffix(r, "..."), strings.TrimSuffix(r, "…")} {
		if strings.HasPrefix(d, p) && int64(utf8.RuneCountInString(p)) <= n {
			if p == "" && n > 3 && !unicode.IsSpace(chars[0]) {
				return "loses all of its text"
			}
			return ""
		}
	}
	if !strings.HasPrefix(d, strings.TrimSuffix(r, "...")) {
		return "is not a beginning of the text"
	}
	return "is longer than the limit"
}

func checkC26(c *Check) {
	w := c.W
	base := inited(w)
	w.buildDep("strings")
	w.buildDep(apiextPkg)
	unicodeTables(base)
	fn := w.fn("pkg/crd", "TruncateDescription")
	pos := w.pos(fn.Pos())
	ready := func() *M {
		m := base.fork()
		m.texts = true
		for k, h := range base.hooks {
			m.hooks[k] = h
		}
		m.inline["strings"], m.inline["slices"], m.inline[apiextPkg] = true, true, true
		return m
	}
	// texts
	letters := []rune{'a', 'é', '.', '。', ' ', '\n', '\u00a0', '語'}
	ln := 4
	if c.Tier == "thorough" {
		ln = 5
	}
	var texts []string
	var gen func(p []rune)
	gen = func(p []rune) {
		texts = append(texts, string(p))
		if len(p) < ln {
			for _, l := range letters {
				gen(append(p[:len(p):len(p)], l))
			}
		}
	}
	gen(nil)
	texts = append(texts, "aaaaaaaaaaaaaaaa", "ééé ééé ééé éé", "aaa. bbb. ccc ddd", "aa。 bb。 cc", "aaa\n\nbbb! ccc? ddd", "\xe2\x80\xa6aaaaaa", "aaa…bbb ccc")
	sub := make([]*M, 8)
	jsp := w.depTyp(apiextPkg, "JSONSchemaProps")
	for i := range sub {
		sub[i] = ready()
		sub[i].exact = true
	}
	const batch = 64
	c.par((len(texts)+batch-1)/batch, func(c *Check, worker, i int) {
		m := sub[worker]
		for _, d := range texts[i*batch : min(len(texts), (i+1)*batch)] {
			chars := utf8.RuneCountInString(d)
			limits := []int64{}
			for n := int64(0); n <= int64(len(d))+1 && n < 12; n++ {
				if int(n) <= chars+1 || int(n) >= len(d)-1 {
					limits = append(limits, n)
				}
			}
			for _, n := range append(limits, -1) {
				key := fmt.Sprintf("%q limit %d", d, n)
				st := newState()
				root := m.cellOf(st, "root", jsp, structOf(jsp, "Description", strVal(d)))
				m.maxStep = m.steps + 200_000
				outs, why := attempt(m, st, fn, root, constVal(n))
				if !c.ob(len(outs) == 1 && outs[0].panics == "", "decided", key, pos, "%s: truncating is not determined: %d outcomes %s", key, len(outs), why) {
					continue
				}
				r, ok := m.at(outs[0].st, root, jsp, "Description").str()
				if !c.ob(ok, "decided", key, pos, "%s: the result is not determined", key) {
					continue
				}
				bad := shortened(d, r, n)
				c.ob(bad == "", "text", key, pos, "with a limit of %d the description %q becomes %q: it %s", n, d, r, bad)
			}
		}
	})
	c.truncatedPlaces(ready)
	c.truncatedChains(ready)
	c.truncatedCRDs(base)
	c.handedOn(ready)
	c.atLeast("text", 10000)
	c.atLeast("places", 20)
	c.atLeast("versions", 10)
}

// truncatedPlaces interprets the truncation of a schema with every place filled.
func (c *Check) truncatedPlaces(ready func() *M) {
	w := c.W
	fn := w.fn("pkg/crd", "TruncateDescription")
	pos := w.pos(fn.Pos())
	for _, n := range []int64{4, 40} {
		q := newSchemaPlaces(w, ready())
		st := newState()
		text := func(path string) string { return "one. two " + path }
		mk := func(desc bool) func(path string) *Val {
			return func(path string) *Val {
				if !desc {
					return structOf(q.t, "ID", strVal(path), "Description", strVal(""))
				}
				return structOf(q.t, "ID", strVal(path), "Description", strVal(text(path)))
			}
		}
		root := q.m.cellOf(st, "root", q.t, q.nested(st, "", 2, mk(true)))
		count := 0
		q.each(st, q.t, q.m.load(st, root, q.t), "", func(string, *Val) { count++ })
		bare := func(st *State, root *Val) string {
			return q.m.canon(st, root, types.NewPointer(q.t), 0)
		}
		outs, why := attempt(q.m, st, fn, root, constVal(n))
		c.ob(len(outs) > 0, "places", fmt.Sprint("decided ", n), pos, "truncating a schema with every place filled is not determined: %s", why)
		for _, o := range outs {
			seen := 0
			q.each(o.st, q.t, q.m.load(o.st, root, q.t), "", func(path string, v *Val) {
				seen++
				r, ok := q.m.getField(v, q.t, "Description").str()
				bad := "is not determined"
				if ok {
					bad = shortened(text(path), r, n)
				}
				c.ob(bad == "", "places", fmt.Sprintf("%s limit %d", path, n), pos, "with a limit of %d the description %q at %q becomes %q: it %s", n, text(path), path, r, bad)
				id, _ := q.m.getField(v, q.t, "ID").str()
				c.ob(id == path, "places", fmt.Sprintf("%s kept, limit %d", path, n), pos, "with a limit of %d the schema at %q is replaced by that at %q", n, path, id)
			})
			c.ob(seen == count, "places", fmt.Sprint("count ", n), pos, "with a limit of %d, %d places are left of %d", n, seen, count)
			// nothing but descriptions changes
			st2 := newState()
			q2 := newSchemaPlaces(w, q.m)
			again := q2.m.cellOf(st2, "root", q2.t, q2.nested(st2, "", 2, func(path string) *Val {
				return structOf(q2.t, "ID", strVal(path), "Description", strVal(expectShort(text(path), n)))
			}))
			c.ob(bare(o.st, root) == bare(st2, again), "places", fmt.Sprint("rest ", n), pos, "with a limit of %d more than descriptions changes in a schema", n)
		}
	}
}

// truncatedChains interprets the truncation of schemas with one place filled at each of three levels, the outer ones
// without a description, with one within the limit and with one beyond it.
func (c *Check) truncatedChains(ready func() *M) {
	w := c.W
	fn := w.fn("pkg/crd", "TruncateDescription")
	pos := w.pos(fn.Pos())
	sub := make([]*schemaPlaces, 8)
	for i := range sub {
		sub[i] = newSchemaPlaces(w, ready())
	}
	u := sub[0].t.Underlying().(*types.Struct)
	var fields []int
	for i := 0; i < u.NumFields(); i++ {
		if f := u.Field(i); !types.Identical(f.Type(), sub[0].t) && sub[0].reaches(f.Type()) {
			fields = append(fields, i)
		}
	}
	classes := []string{"", "a.", "one. two three."}
	type chain struct {
		fields [2]int
		texts  [2]string
		kind   string
	}
	var all []chain
	for i, f := range fields {
		for j, g := range fields {
			for a, x := range classes {
				for b, y := range classes {
					if c.Tier != "thorough" && (i+j+a*3+b)%4 != 0 && !(i == j || i == 0 || j == 0) {
						continue
					}
					for _, k := range []string{"", "object", "array"} {
						if k == "" || c.Tier == "thorough" || (i+j+a+b)%3 == 0 {
							all = append(all, chain{[2]int{f, g}, [2]string{x, y}, k})
						}
					}
				}
			}
		}
	}
	c.par(len(all), func(c *Check, worker, i int) {
		q, ch := sub[worker], all[i]
		st := newState()
		want := map[string]string{}
		var build func(level int, path string) *Val
		build = func(level int, path string) *Val {
			d := classes[2]
			if level < 2 {
				d = ch.texts[level]
			}
			want[path] = d
			v := *structOf(q.t, "ID", strVal(path), "Description", strVal(d), "Type", strVal(ch.kind))
			if level < 2 {
				f := u.Field(ch.fields[level])
				v.agg = append([]*Val(nil), v.agg...)
				v.agg[ch.fields[level]] = q.fill(st, f.Type(), path+"."+f.Name(), func(p string) *Val { return build(level+1, p) })
			}
			return &v
		}
		key := fmt.Sprintf("%s %q > %s %q %s", u.Field(ch.fields[0]).Name(), ch.texts[0], u.Field(ch.fields[1]).Name(), ch.texts[1], ch.kind)
		root := q.m.cellOf(st, "root", q.t, build(0, ""))
		outs, why := attempt(q.m, st, fn, root, constVal(int64(6)))
		if !c.ob(len(outs) > 0, "chains", key, pos, "%s: truncating is not determined: %s", key, why) {
			return
		}
		for _, o := range outs {
			seen, bad := 0, ""
			q.each(o.st, q.t, q.m.load(o.st, root, q.t), "", func(path string, v *Val) {
				seen++
				r, ok := q.m.getField(v, q.t, "Description").str()
				b := "is not determined"
				if ok {
					b = shortened(want[path], r, 6)
				}
				if id, _ := q.m.getField(v, q.t, "ID").str(); id != path {
					b = "belongs to another schema"
				}
				if b != "" && bad == "" {
					bad = fmt.Sprintf("the description %q at %q becomes %q: it %s", want[path], path, r, b)
				}
			})
			if seen != len(want) && bad == "" {
				bad = fmt.Sprintf("%d places are left of %d", seen, len(want))
			}
			c.ob(bad == "" && o.panics == "", "chains", key, pos, "%s, limit 6: %s %s", key, bad, o.panics)
		}
	})
	c.atLeast("chains", 500)
}

// expectShort is the shortened form of the fixed texts used at places.
func expectShort(d string, n int64) string {
	if int64(len(d)) <= n {
		return d
	}
	return d[:strings.LastIndex(d[:n], ".")+1]
}

// truncatedCRDs interprets the CRD builder with and without a limit.
func (c *Check) truncatedCRDs(base *M) {
	w := c.W
	pt, ti := w.typ("pkg/crd", "Parser"), w.typ("pkg/crd", "TypeIdent")
	fn := w.methodOf(pt, "NeedCRDFor")
	pos := w.pos(fn.Pos())
	crdT := w.depTyp(apiextPath, "CustomResourceDefinition")
	texts := []string{"one. two three", "ab", "éééé. é"}
	for _, limit := range []int64{-2, 0, 3, 6, 50} {
		for nv := 1; nv <= 2; nv++ {
			e := newCRDAsm(w)
			m := e.m
			for _, k := range []string{"unicode.Is", "unicode.In", "unicode.IsOneOf"} {
				m.hooks[k] = base.hooks[k]
			}
			m.base = cpy(m.base)
			for o, v := range base.base {
				if strings.HasPrefix(o.id, "unicode.") {
					m.base[o] = v
				}
			}
			for g, o := range base.globals {
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "unicode" {
					m.globals[g] = o
					m.base[o] = base.base[o]
				}
			}
			m.inline["strings"], m.inline["slices"], m.texts = true, true, true
			e.reset()
			var gvs, tys, flat []any
			for i := 0; i < nv; i++ {
				p := fmt.Sprintf("x.io/v%d", i+1)
				lp := e.loaderPkg(p, e.tm.pkg(p, nil))
				gvs = append(gvs, lp, structOf(e.gvT, "Group", strVal("g.io"), "Version", strVal(fmt.Sprintf("v%d", i+1))))
				id := structOf(ti, "Package", lp, "Name", strVal("Foo"))
				ms := []string{}
				if i == 0 {
					ms = append(ms, "storage")
				}
				tys = append(tys, id, e.info("Foo", e.ident("x", nilVal()), e.marks("marks:"+p, ms)))
				var props []any
				for j, d := range texts {
					props = append(props, strVal(fmt.Sprint("f", j)), structOf(e.jsp, "Type", strVal("string"), "Description", strVal(d)))
				}
				flat = append(flat, id, structOf(e.jsp, "Type", strVal("object"), "Description", strVal(texts[i]), "Properties", m.mapOf(e.st, "props"+p, fieldType(e.jsp, "Properties"), props...)))
			}
			mk := func(f string, kvs []any) *Val { return m.mapOf(e.st, f, fieldType(pt, f), kvs...) }
			parser := m.cellOf(e.st, "parser", pt, structOf(pt, "Types", mk("Types", tys), "GroupVersions", mk("GroupVersions", gvs), "FlattenedSchemata", mk("FlattenedSchemata", flat)))
			before := m.canon(e.st, m.at(e.st, parser, pt, "FlattenedSchemata"), fieldType(pt, "FlattenedSchemata"), 0)
			gk := structOf(e.gkT, "Group", strVal("g.io"), "Kind", strVal("Foo"))
			max := nilVal()
			eff := limit
			if limit != -2 {
				max = m.cellOf(e.st, "max", types.Typ[types.Int], constVal(limit))
			} else {
				eff = -1
			}
			m.maxStep = m.steps + 3_000_000
			key := fmt.Sprintf("%d versions, limit %d", nv, limit)
			outs, why := attempt(m, e.st, fn, parser, gk, max)
			if !c.ob(len(outs) > 0, "versions", key, pos, "%s: the CRD is not determined: %s", key, why) {
				continue
			}
			for _, o := range outs {
				after := m.canon(o.st, m.at(o.st, parser, pt, "FlattenedSchemata"), fieldType(pt, "FlattenedSchemata"), 0)
				c.ob(before == after, "shared", key, pos, "%s: the schemas shared between CRDs change:\n  %s\n  %s", key, before, after)
				ents := m.mapEntries(o.st, m.at(o.st, parser, pt, "CustomResourceDefinitions"))
				if !c.ob(len(ents) == 1, "versions", key+" crds", pos, "%s: %d CRDs", key, len(ents)) {
					continue
				}
				sp := m.resolve(o.st, m.getField(m.resolve(o.st, ents[0][1]), crdT, "Spec"))
				specT := fieldType(crdT, "Spec")
				vt := fieldType(specT, "Versions")
				et, _ := arrayElem(vt)
				vs, ok := m.elems(o.st, m.resolve(o.st, m.getField(sp, specT, "Versions")))
				if !c.ob(ok && len(vs) == nv, "versions", key+" count", pos, "%s: %d versions", key, len(vs)) {
					continue
				}
				for i, v := range vs {
					val := m.resolve(o.st, m.getField(m.resolve(o.st, v), et, "Schema"))
					s := m.at(o.st, val, deref(fieldType(et, "Schema")), "OpenAPIV3Schema")
					d, _ := m.at(o.st, s, e.jsp, "Description").str()
					bad := shortened(texts[i], d, eff)
					c.ob(bad == "", "versions", fmt.Sprintf("%s: %d", key, i), pos, "%s: the description %q of version %d becomes %q: it %s", key, texts[i], i+1, d, bad)
					ps := map[string]*Val{}
					for _, kv := range m.mapEntries(o.st, m.at(o.st, s, e.jsp, "Properties")) {
						n, _ := kv[0].str()
						ps[n] = kv[1]
					}
					for j, t := range texts {
						f := ps[fmt.Sprint("f", j)]
						if !c.ob(f != nil, "versions", fmt.Sprintf("%s: %d field %d", key, i, j), pos, "%s: a field is lost", key) {
							continue
						}
						d, _ := m.getField(f, e.jsp, "Description").str()
						bad := shortened(t, d, eff)
						c.ob(bad == "", "versions", fmt.Sprintf("%s: %d field %d", key, i, j), pos, "%s: the description %q of a field becomes %q: it %s", key, t, d, bad)
					}
				}
			}
		}
	}
}

// handedOn interprets the generators up to the place where their limit is used.
func (c *Check) handedOn(ready func() *M) {
	w := c.W
	gt := w.typ("pkg/crd", "Generator")
	fn := w.methodOf(gt, "Generate")
	pos := w.pos(fn.Pos())
	mp := modPath + "/pkg/"
	gkT := w.depTyp(schemaPkg, "GroupKind")
	for _, limit := range []int64{-2, 0, 7} {
		e := newGenEnv(w)
		m := e.m
		nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
		m.hooks["(*"+mp+"crd.Parser).NeedPackage"] = nop
		m.hooks[mp+"crd.AddKnownTypes"] = nop
		m.hooks[mp+"crd.FindMetav1"] = func(st *State, c *Call) ([]Out, bool) {
			return one(st, unkNonNil(c.res.At(0).Type(), &Sym{"metav1", true})), true
		}
		var kinds []*Val
		for _, k := range []string{"Foo", "Bar"} {
			kinds = append(kinds, structOf(gkT, "Group", strVal("g.io"), "Kind", strVal(k)))
		}
		m.hooks[mp+"crd.FindKubeKinds"] = func(st *State, c *Call) ([]Out, bool) { return one(st, m.sliceOf(st, "kinds", gkT, kinds...)), true }
		m.hooks["(*"+mp+"crd.Parser).NeedCRDFor"] = func(st *State, cl *Call) ([]Out, bool) {
			kind, _ := m.getField(cl.args[1], gkT, "Kind").str()
			got := "none"
			if v := m.resolve(st, cl.args[2]); !v.isNil() {
				got = m.canon(st, m.load(st, v, types.Typ[types.Int]), types.Typ[types.Int], 0)
			}
			st.notes["limit:"+kind] = strVal(got)
			return []Out{{st: st}}, true
		}
		st := newState()
		e.root(st, "0")
		g, want := zeroVal(gt), "none"
		if limit != -2 {
			g = structOf(gt, "MaxDescLen", m.cellOf(st, "max", types.Typ[types.Int], constVal(limit)))
			want = m.canon(st, constVal(limit), types.Typ[types.Int], 0)
		}
		outs, why := attempt(m, st, fn, g, e.ctx(st))
		c.ob(len(outs) > 0, "handed-on", fmt.Sprint("decided ", limit), pos, "generating CRDs is not determined: %s", why)
		for _, o := range outs {
			for _, k := range []string{"Foo", "Bar"} {
				got := "the CRD is not asked for"
				if v := o.st.notes["limit:"+k]; v != nil {
					got, _ = v.str()
				}
				c.ob(got == want, "handed-on", fmt.Sprintf("%s limit %d", k, limit), pos, "with the limit option %s the CRD of %s is asked for with %s", want, k, got)
			}
		}
	}
}
