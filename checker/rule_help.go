package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

func init() {
	register("C14", "conditional constant propagation over the help tables, compared with the syntax tree's comments", "every definition of every generator and command",
		"Every definition a generator or command registers is evaluated together with its help. The help of each type that carries the help-generation marker must say, word for word, what the type's and its fields' documentation says, in the marked category; each definition must carry the help of its own type or hand-written help of its own, and have text for each of its arguments. The grouping of definitions into help pages is interpreted abstractly: every definition must appear exactly once, in its category, with exactly its arguments, their types and optionality, and their texts.", checkC14)
}

// docText gives the documentation of a comment as lines, without markers, TODO lines and what follows "---".
func docText(g *ast.CommentGroup) []string {
	if g == nil {
		return nil
	}
	var keep ast.CommentGroup
	for _, c := range g.List {
		if strings.HasPrefix(c.Text, "//") && strings.HasPrefix(strings.TrimSpace(c.Text[2:]), "+") {
			continue
		}
		keep.List = append(keep.List, c)
	}
	if len(keep.List) == 0 {
		return nil
	}
	var r []string
	for _, l := range strings.Split(keep.Text(), "\n") {
		if strings.HasPrefix(l, "TODO") {
			continue
		}
		if strings.HasPrefix(l, "---") {
			break
		}
		r = append(r, l)
	}
	return r
}

// docWords splits documentation into the words of its first line, without a leading name, and the others.
func docWords(g *ast.CommentGroup, name string) (summary, rest []string) {
	ls := docText(g)
	if len(ls) == 0 {
		return nil, nil
	}
	summary = strings.Fields(ls[0])
	if len(summary) > 0 && summary[0] == name {
		summary = summary[1:]
	}
	return summary, strings.Fields(strings.Join(ls[1:], " "))
}

type typeDoc struct {
	doc      *ast.CommentGroup
	category string
	marked   bool
	fields   map[string]*ast.CommentGroup
	pos      token.Pos
}

const helpMarker = "controllertools:marker:generateHelp"

// typeDocs finds the documentation of the types a package declares.
func typeDocs(p *packages.Package) map[string]typeDoc {
	r := map[string]typeDoc{}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				td := typeDoc{doc: ts.Doc, fields: map[string]*ast.CommentGroup{}, pos: ts.Pos()}
				if td.doc == nil && !gd.Lparen.IsValid() {
					td.doc = gd.Doc
				}
				// the marker may stand in the documentation or in a comment directly above it
				start := gd.Pos()
				if gd.Lparen.IsValid() {
					start = ts.Pos()
				}
				for _, g := range f.Comments {
					near := g == td.doc || g == gd.Doc || (td.doc != nil && lineGap(p, g.End(), td.doc.Pos()) == 2) || lineGap(p, g.End(), start) == 2
					for _, c := range g.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if near && strings.HasPrefix(t, "+"+helpMarker) {
							td.marked = true
							if i := strings.Index(t, "category="); i >= 0 {
								td.category = strings.Trim(t[i+len("category="):], "\"")
							}
						}
					}
				}
				if st, ok := ts.Type.(*ast.StructType); ok {
					for _, fl := range st.Fields.List {
						for _, n := range fl.Names {
							td.fields[n.Name] = fl.Doc
						}
					}
				}
				r[ts.Name.Name] = td
			}
		}
	}
	return r
}

func lineGap(p *packages.Package, a, b token.Pos) int {
	pa, pb := p.Fset.Position(a), p.Fset.Position(b)
	if pa.Filename != pb.Filename {
		return -1
	}
	return pb.Line - pa.Line
}

func helpWords(h [2]string) []string {
	return append(strings.Fields(h[0]), strings.Fields(h[1])...)
}

func sameHelp(a, b *helpInfo) bool {
	return a.known && b.known && fmt.Sprintf("%q%q%q%q%q", a.Category, a.Summary, a.Details, a.Fields, a.Deprecated) == fmt.Sprintf("%q%q%q%q%q", b.Category, b.Summary, b.Details, b.Fields, b.Deprecated)
}

// typeHelps evaluates the Help method of every type that has one.
func typeHelps(c *Check) map[string]*helpInfo {
	w := c.W
	r := map[string]*helpInfo{}
	m := inited(w)
	hh := w.typ("pkg/genall", "HasHelp").Underlying().(*types.Interface)
	for _, p := range w.Pkgs {
		docs := typeDocs(p)
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			t, td := tn.Type(), docs[n]
			has := types.Implements(t, hh) || types.Implements(types.NewPointer(t), hh)
			key, pos := typeName(t), w.pos(tn.Pos())
			if td.marked {
				c.ob(has, "marked-type-has-help", key, pos, "%s asks for generated help, but has no Help method", key)
			}
			if !has {
				continue
			}
			fn := w.methodOf(t, "Help")
			st := newState()
			outs := m.interp(st, fn, recvOf(m, st, fn, t))
			if len(outs) != 1 || outs[0].panics != "" {
				c.bad("help-evaluates", key, pos, "%s.Help has no determined result", key)
				continue
			}
			h := m.readHelp(outs[0].st, outs[0].res[0])
			if !c.ob(h.known, "help-evaluates", key, pos, "%s.Help has no determined result", key) {
				continue
			}
			r[types.TypeString(t, nil)] = h
			if !td.marked {
				continue // written by hand
			}
			sum, rest := docWords(td.doc, n)
			c.ob(h.Category == td.category, "category-from-source", key, pos, "%s: help category %q, but the source says %q", key, h.Category, td.category)
			c.ob(strings.Join(helpWords([2]string{h.Summary, h.Details}), " ") == strings.Join(append(sum, rest...), " "), "text-from-source", key, pos, "%s: the help says %q %q, the documentation %q %q", key, h.Summary, h.Details, strings.Join(sum, " "), strings.Join(rest, " "))
			c.ob(strings.Join(strings.Fields(h.Summary), " ") == strings.Join(sum, " "), "summary-is-first-line", key, pos, "%s: the help's summary is %q, the documentation's first line %q", key, h.Summary, strings.Join(sum, " "))
			for f, g := range td.fields {
				fh, ok := h.Fields[f]
				s, d := docWords(g, f)
				c.ob(ok, "field-has-help", key+"."+f, pos, "%s: no help for field %s", key, f)
				if ok {
					c.ob(strings.Join(helpWords(fh), " ") == strings.Join(append(s, d...), " "), "text-from-source", key+"."+f, pos, "%s.%s: the help says %q, the documentation %q %q", key, f, fh, strings.Join(s, " "), strings.Join(d, " "))
				}
			}
			for f := range h.Fields {
				_, ok := td.fields[f]
				c.ob(ok, "field-exists", key+"."+f, pos, "%s: the help describes field %s, which does not exist", key, f)
			}
		}
	}
	return r
}

func checkDefHelp(c *Check, where string, defs []markerDef, helps map[string]*helpInfo, options bool) {
	w := c.W
	for _, d := range defs {
		key, pos := where+" "+d.Name+" ("+targetName(d.Target)+")", w.anyPos(d.Out)
		if !c.ob(d.help != nil && d.help.known, "has-help", key, pos, "%s: definition %s has no help", where, d) {
			continue
		}
		h := d.help
		c.ob(strings.TrimSpace(h.Summary) != "", "has-summary", key, pos, "%s: the help of %s has no summary", where, d)
		if !options {
			c.ob(h.Category != "", "has-category", key, pos, "%s: the help of %s has no category, so it is not shown", where, d)
		}
		own := helps[types.TypeString(d.Out, nil)]
		plain := *h
		if own != nil && strings.Contains(d.Name, ":items:") && strings.HasSuffix(h.Summary, own.Summary) {
			c.ob(h.Summary != own.Summary, "items-help", key, pos, "the help of %s does not say that it is about items", d)
			plain.Summary = own.Summary
		} else if own != nil {
			c.ob(!strings.HasPrefix(h.Summary, "for array items "), "items-help", key, pos, "the help of %s says that it is about items", d)
		}
		if own != nil && sameHelp(own, &plain) {
			c.ob(true, "own-help", key, pos, "")
		} else {
			// by hand: no text of another type, no field texts of other types
			other := ""
			for t, o := range helps {
				if o != own && sameHelp(o, &plain) {
					other = t
				}
			}
			c.ob(other == "", "own-help", key, pos, "%s: definition %s is described by the help of %s", where, d, strings.TrimPrefix(other, modPath+"/"))
			c.ob(own == nil || len(h.Fields) == 0, "own-help", key, pos, "%s: the help of %s is not the one of its type", where, d)
			named := 0
			for _, f := range d.FieldNames {
				if f != "" {
					named++
				}
			}
			if len(h.Fields) == 0 && named > 0 {
				c.assumes("hand-written help of " + d.Name + " does not describe its arguments one by one")
				continue
			}
		}
		for a, f := range d.FieldNames {
			if f == "" {
				continue
			}
			fh, ok := h.Fields[f]
			c.ob(ok, "argument-has-help", key, pos, "%s: argument %q of %s (field %s) has no help", where, a, d, f)
			_ = fh
		}
		for f := range h.Fields {
			found := false
			if s, ok := d.Out.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					found = found || s.Field(i).Name() == f
				}
			}
			c.ob(found, "help-for-existing", key, pos, "%s: the help of %s describes field %s, which it does not have", where, d, f)
		}
	}
}

func (w *World) anyPos(t types.Type) string {
	if n, ok := t.(*types.Named); ok {
		return w.pos(n.Obj().Pos())
	}
	return ""
}

// argTypeName names an argument type of the markers package as help must show it.
func argTypeName(w *World) map[int64]string {
	r := map[int64]string{}
	for n, s := range map[string]string{"InvalidType": "invalid", "IntType": "int", "NumberType": "number", "StringType": "string", "BoolType": "bool", "AnyType": "any", "SliceType": "slice", "MapType": "map", "RawType": "raw"} {
		c, ok := w.pkg("pkg/markers").Types.Scope().Lookup(n).(*types.Const)
		if !ok {
			fatalf("markers.%s not found", n)
		}
		var v int64
		fmt.Sscan(c.Val().String(), &v)
		r[v] = s
	}
	return r
}

func (a argInfo) shown(names map[int64]string) string {
	s := names[a.Type]
	if s == "slice" || s == "map" {
		if a.Item == nil {
			return s + " of nothing"
		}
		if s == "slice" {
			return "[]" + a.Item.shown(names)
		}
		return "map[string]" + a.Item.shown(names)
	}
	return s
}

// checkPages interprets the grouping of a registry's definitions into help pages.
func checkPages(c *Check, m *M, st *State, reg *Val, where string, defs []markerDef, sorter string) {
	w := c.W
	names := argTypeName(w)
	fn := w.fn("pkg/genall/help", "ByCategory")
	pos := w.pos(fn.Pos())
	catT, docT := w.typ("pkg/genall/help", "CategoryDoc"), w.typ("pkg/genall/help", "MarkerDoc")
	fieldT := w.typ("pkg/genall/help", "FieldHelp")
	detT := w.typ("pkg/genall/help", "DetailedHelp")
	argT := w.typ("pkg/genall/help", "Argument")
	so := w.pkg("pkg/genall/help").Types.Scope().Lookup(sorter)
	if so == nil {
		fatalf("help.%s not found", sorter)
	}
	typeStr := w.methodOf(argT, "TypeString")
	outs := m.interp(st, fn, reg, ifaceOf(so.Type(), zeroVal(so.Type())))
	if len(outs) != 1 || outs[0].panics != "" {
		c.bad("pages", where, pos, "%s: %d outcomes", where, len(outs))
		return
	}
	st = outs[0].st
	cats, ok := m.elems(st, outs[0].res[0])
	if !ok {
		c.bad("pages", where, pos, "%s: the help pages are not determined", where)
		return
	}
	str := func(v *Val) string {
		s, ok := m.resolve(st, v).str()
		if !ok {
			return "?"
		}
		return s
	}
	type page struct{ cat, text string }
	got := map[string][]page{}
	last := ""
	for i, cat := range cats {
		cat = m.resolve(st, cat)
		name := str(m.getField(cat, catT, "Category"))
		c.ob(i == 0 || last < name, "pages-sorted", where, pos, "%s: category %q does not come in order", where, name)
		last = name
		docs, ok := m.elems(st, m.getField(cat, catT, "Markers"))
		if !ok {
			c.bad("pages", where, pos, "%s: the markers of category %q are not determined", where, name)
			continue
		}
		for _, d := range docs {
			d = m.resolve(st, d)
			det := m.getField(d, docT, "DetailedHelp")
			fs, fok := m.elems(st, m.getField(d, docT, "Fields"))
			if !fok && !m.resolve(st, m.getField(d, docT, "Fields")).isNil() {
				c.bad("pages", where, pos, "%s: arguments not determined", where)
			}
			var fields []string
			for _, f := range fs {
				f = m.resolve(st, f)
				a := m.getField(f, fieldT, "Argument")
				ts := "?"
				for _, o := range m.interp(st.clone(), typeStr, a) {
					if o.panics == "" {
						ts = str(o.res[0])
					}
				}
				opt, _ := m.resolve(st, m.getField(a, argT, "Optional")).boolean()
				fd := m.getField(f, fieldT, "DetailedHelp")
				fields = append(fields, fmt.Sprintf("%q %s optional=%v %q %q", str(m.getField(f, fieldT, "Name")), ts, opt, str(m.getField(fd, detT, "Summary")), str(m.getField(fd, detT, "Details"))))
			}
			dep := "-"
			if p := m.resolve(st, m.getField(d, docT, "DeprecatedInFavorOf")); !p.isNil() {
				dep = str(m.load(st, p, types.Typ[types.String]))
			}
			k := str(m.getField(d, docT, "Name")) + " (" + str(m.getField(d, docT, "Target")) + ")"
			got[k] = append(got[k], page{name, fmt.Sprintf("%q %q %s deprecated=%s %s", str(m.getField(det, detT, "Summary")), str(m.getField(det, detT, "Details")), str(m.getField(d, docT, "Category")), dep, strings.Join(fields, "; "))})
		}
	}
	for _, d := range defs {
		k := d.Name + " (" + targetName(d.Target) + ")"
		h := d.help
		if h == nil {
			h = &helpInfo{Deprecated: "-"}
		}
		var as []string
		for a := range d.FieldNames {
			as = append(as, a)
		}
		sort.Strings(as)
		var fields []string
		for _, a := range as {
			fh := h.Fields[d.FieldNames[a]]
			fields = append(fields, fmt.Sprintf("%q %s optional=%v %q %q", a, d.Args[a].shown(names), d.Args[a].Optional, fh[0], fh[1]))
		}
		want := page{h.Category, fmt.Sprintf("%q %q %s deprecated=%s %s", h.Summary, h.Details, h.Category, h.Deprecated, strings.Join(fields, "; "))}
		if !c.ob(len(got[k]) == 1, "shown-once", where+" "+k, pos, "%s: %s appears %d times in the help", where, k, len(got[k])) {
			continue
		}
		if sorter == "SortByCategory" {
			c.ob(got[k][0].cat == want.cat, "shown-in-category", where+" "+k, pos, "%s: %s is shown under %q, expected %q", where, k, got[k][0].cat, want.cat)
		} else {
			hidden := strings.Count(d.Name, ":") == 2
			c.ob((got[k][0].cat == "") == hidden, "shown-in-category", where+" "+k, pos, "%s: option %s is shown under %q", where, k, got[k][0].cat)
		}
		c.ob(got[k][0].text == want.text, "shown-as-defined", where+" "+k, pos, "%s: %s is shown as\n    %s\n  expected\n    %s", where, k, got[k][0].text, want.text)
		delete(got, k)
	}
	c.ob(len(got) == 0, "shows-nothing-else", where, pos, "%s: the help also shows %v", where, sortedKeys(got))
}

func checkC14(c *Check) {
	w := c.W
	helps := typeHelps(c)
	regT := w.typ("pkg/markers", "Registry")
	var tables [][]markerDef
	for _, gt := range generatorTypes(w) {
		where := typeName(gt)
		defs := markerTable(w, gt)
		tables = append(tables, defs)
		checkDefHelp(c, where, defs, helps, false)
		m := inited(w)
		m.maxStep = 1 << 40
		st := newState()
		reg := m.cellOf(st, "registry", regT, nil)
		fn := w.methodOf(gt, "RegisterMarkers")
		outs := m.interp(st, fn, recvOf(m, st, fn, gt), reg)
		if len(outs) != 1 || errOf(outs[0]) != "nil" {
			c.bad("pages", where, w.pos(fn.Pos()), "%s: the registration has %d outcomes", where, len(outs))
			continue
		}
		for adverse := range 3 {
			m.adverse = adverse
			checkPages(c, m, outs[0].st.clone(), reg, where, defs, "SortByCategory")
		}
		m.adverse = 0
		checkSmallRegistries(c, m, outs[0].st, reg, where, defs)
	}
	for _, cmd := range []string{"cmd/controller-gen", "cmd/helpgen"} {
		defs, _ := optionTable(w, cmd)
		checkDefHelp(c, cmd, defs, helps, true)
		m := initedWith(w, nil, cmd)
		m.maxStep = 1 << 40
		gs := globalsOf(w, cmd, types.NewPointer(regT))
		if len(gs) != 1 {
			fatalf("%s has %d registries of options", cmd, len(gs))
		}
		st := newState()
		reg := m.content(st, m.global(gs[0]))
		for adverse := range 3 {
			m.adverse = adverse
			checkPages(c, m, st.clone(), reg, cmd, defs, "SortByOption")
		}
	}
	n := 0
	for _, t := range tables {
		n += len(t)
	}
	c.fact("definitions", n)
	c.fact("types_with_help", len(helps))
	c.atLeast("shown-once", 300)
	c.atLeast("text-from-source", 100)
	checkArgumentNamesOfTypes(c)
}

// checkSmallRegistries checks the pages of registries that hold only the definitions of one name.
func checkSmallRegistries(c *Check, m *M, st *State, reg *Val, where string, defs []markerDef) {
	w := c.W
	regT, defT := w.typ("pkg/markers", "Registry"), w.typ("pkg/markers", "Definition")
	one := func(st *State, fn string, args ...*Val) (Out, bool) {
		outs := m.interp(st, w.methodOf(regT, fn), args...)
		if len(outs) != 1 || outs[0].panics != "" {
			c.bad("pages", where, w.pos(w.methodOf(regT, fn).Pos()), "%s: Registry.%s has %d outcomes", where, fn, len(outs))
			return Out{}, false
		}
		return outs[0], true
	}
	o, ok := one(st.clone(), "AllDefinitions", reg)
	if !ok {
		return
	}
	all, ok := m.elems(o.st, o.res[0])
	if !ok {
		c.bad("pages", where, w.pos(w.methodOf(regT, "AllDefinitions").Pos()), "%s: the definitions of a registry are not determined", where)
		return
	}
	byName := map[string][]*Val{}
	for _, d := range all {
		d = m.resolve(o.st, d)
		n, _ := m.at(o.st, d, defT, "Name").str()
		byName[n] = append(byName[n], d)
	}
	for _, n := range sortedKeys(byName) {
		if len(byName[n]) < 2 {
			continue
		}
		st := o.st.clone()
		r := m.cellOf(st, "registry of "+n, regT, nil)
		okAll := true
		for _, d := range byName[n] {
			h, ok1 := one(st, "HelpFor", reg, d)
			if !ok1 {
				return
			}
			if o, ok := one(h.st, "Register", r, d); ok && errOf(o) == "nil" {
				st = o.st
			} else {
				okAll = false
				break
			}
			if m.resolve(st, h.res[0]).isNil() {
				continue
			}
			if o, ok := one(st, "AddHelp", r, d, h.res[0]); ok {
				st = o.st
			}
		}
		if !okAll {
			c.bad("pages", where+" "+n, "", "%s: the definitions of %s cannot be registered again", where, n)
			continue
		}
		var ds []markerDef
		for _, d := range defs {
			if d.Name == n {
				ds = append(ds, d)
			}
		}
		checkPages(c, m, st, r, where+" only "+n, ds, "SortByCategory")
	}
}

// checkArgumentNamesOfTypes interprets how help names every kind of argument.
func checkArgumentNamesOfTypes(c *Check) {
	w := c.W
	names := argTypeName(w)
	m := inited(w)
	at := w.typ("pkg/markers", "Argument")
	ht := w.typ("pkg/genall/help", "Argument")
	fn := w.fn("pkg/genall/help", "ForArgument")
	ts := w.methodOf(ht, "TypeString")
	mts := w.methodOf(at, "TypeString")
	goNames := map[string]string{"invalid": "<invalid>", "int": "int", "number": "float64", "string": "string", "bool": "bool", "any": "<any>", "raw": "<raw>", "slice": "[]", "map": "map[string]"}
	pos := w.pos(fn.Pos())
	st := newState()
	var build func(ks []int64, opt bool) (*Val, string, string)
	build = func(ks []int64, opt bool) (*Val, string, string) {
		n := names[ks[0]]
		v := structOf(at, "Type", constVal(ks[0]), "Optional", boolVal(opt))
		g := goNames[n]
		if len(ks) > 1 {
			iv, s, gs := build(ks[1:], false)
			v = structOf(at, "Type", constVal(ks[0]), "Optional", boolVal(opt), "ItemType", m.cellOf(st, fmt.Sprint("item", ks), at, iv))
			if n == "slice" {
				return v, "[]" + s, g + gs
			}
			return v, "map[string]" + s, g + gs
		}
		return v, n, g
	}
	var ids []int64
	for k := range names {
		ids = append(ids, k)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var shapes [][]int64
	for _, k := range ids {
		if names[k] != "slice" && names[k] != "map" {
			shapes = append(shapes, []int64{k})
		}
	}
	leafs := shapes
	for _, k := range ids {
		if names[k] == "slice" || names[k] == "map" {
			for _, l := range leafs {
				shapes = append(shapes, []int64{k, l[0]})
				for _, k2 := range ids {
					if names[k2] == "slice" || names[k2] == "map" {
						shapes = append(shapes, []int64{k, k2, l[0]})
					}
				}
			}
		}
	}
	for _, s := range shapes {
		for _, opt := range []bool{false, true} {
			v, want, wantGo := build(s, opt)
			for _, o := range m.interp(st.clone(), fn, v) {
				if !c.ob(o.panics == "", "type-name", want, pos, "help for an argument of type %s panics: %s", want, o.panics) {
					continue
				}
				gopt, _ := m.resolve(o.st, m.getField(o.res[0], ht, "Optional")).boolean()
				c.ob(gopt == opt, "type-name", want, pos, "help for an argument of type %s says optional=%v, expected %v", want, gopt, opt)
				for _, o2 := range m.interp(o.st, ts, o.res[0]) {
					got := "?"
					if o2.panics == "" {
						got, _ = o2.res[0].str()
					}
					c.ob(got == want, "type-name", want, pos, "help names the argument type %q, expected %q", got, want)
				}
			}
			for _, o := range m.interp(st.clone(), mts, v) {
				got := "?"
				if o.panics == "" {
					got, _ = o.res[0].str()
				}
				c.ob(got == wantGo, "argument-type-name", wantGo, w.pos(mts.Pos()), "the argument type is named %q, expected %q", got, wantGo)
			}
		}
	}
	c.fact("argument_shapes", len(shapes))
}
