package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// C29: the documentation handed out with types and fields.

func init() {
	register("C29", "abstract interpretation of the collection of types on the syntax trees of documented declarations",
		"sequences of kinds of comment lines (text, indented text, blank, markers, TODO lines, lines of dashes, code fences, words that only look like them) up to four, as line and block comments, on types alone and in groups, fields, fields of several names and embedded fields",
		"The types of a package are collected on the syntax tree of each documented declaration, with every other place of a comment filled; the documentation handed out has the text of the comment that documents the declaration and of no other, in order, without markers, without TODO lines and without what follows a line of dashes, except inside code fences, where all lines stay. Names and struct tags are those of the source.", checkC29)
}

// docLine is a kind of comment line: the source text with a number in place of #, and what of it stays.
type docLine struct {
	src, want string
	drop, cut bool // drops out, ends the text; not inside a fence
	fence     bool
	marker    bool
}

var docLines = []docLine{
	{src: " word# and more.  ", want: "word# and more."},
	{src: "", want: ""},
	{src: " +kubebuilder:thing=#", drop: true, marker: true},
	{src: " TODO# do it", drop: true, want: "TODO# do it"},
	{src: " --- for developers #", cut: true, want: "--- for developers #"},
	{src: " ```yaml #", want: "```yaml #", fence: true},
	{src: " \tindented: #", want: "\tindented: #"},
	{src: "tight # +a=1 TODO --- ``` x", want: "tight # +a=1 TODO --- ``` x"},
	{src: " -- # todo", want: "-- # todo"},
	{src: "+other#", drop: true, marker: true},
	{src: " ~~~", want: "~~~", fence: true},
}

// docSeq is a comment made of kinds of lines.
type docSeq struct {
	kinds []int
	block bool
}

// write is the comment's source and the lines that stay.
func (d docSeq) write(n *int, indent string) (src string, want []string) {
	fence, cut := false, false
	var b strings.Builder
	if d.block {
		b.WriteString(indent + "/*\n")
	}
	for i, k := range d.kinds {
		*n++
		l := docLines[k]
		num := strconv.Itoa(*n)
		s := strings.Replace(l.src, "#", num, 1)
		w := strings.Replace(l.want, "#", num, 1)
		if d.block {
			b.WriteString(indent + strings.Repeat(" ", i%3) + strings.TrimPrefix(s, " ") + "\n")
			w = strings.TrimSpace(w)
		} else {
			b.WriteString(indent + "//" + s + "\n")
		}
		if cut {
			continue
		}
		switch {
		case l.fence:
			fence = !fence
			want = append(want, w)
		case l.marker, l.drop && !fence:
		case l.cut && !fence:
			cut = true
		default:
			want = append(want, w)
		}
	}
	if d.block {
		b.WriteString(indent + "*/\n")
	}
	return b.String(), want
}

// clear says that what stays of the comment is specified: one kind of fence, no markers inside.
func (d docSeq) clear() bool {
	open := -1
	seen := -1
	for _, k := range d.kinds {
		l := docLines[k]
		if l.fence {
			if seen >= 0 && seen != k {
				return false
			}
			seen = k
			if open < 0 {
				open = k
			} else {
				open = -1
			}
		}
		if l.marker && (d.block || open >= 0) {
			return false
		}
	}
	return true
}

// sameDoc leaves out runs of blank lines and those at the ends.
func sameDoc(lines []string) string {
	var r []string
	for _, l := range lines {
		if l = strings.TrimRight(l, " \t"); l == "" && (len(r) == 0 || r[len(r)-1] == "") {
			continue
		}
		r = append(r, l)
	}
	for len(r) > 0 && r[len(r)-1] == "" {
		r = r[:len(r)-1]
	}
	return strings.Join(r, "\n")
}

// docWant is what is expected of one type.
type docWant struct {
	name, place, doc string
	fields           []documentedField
}

type documentedField struct{ name, place, doc, tag string }

// docSource is a file with every comment of the list on one declaration, the places in turn.
func docSource(seqs []docSeq, turn int) (string, []docWant) {
	var b strings.Builder
	n := 0
	var want []docWant
	b.WriteString("// Package words.\npackage x\n\nimport \"fmt\"\n\n")
	for i, s := range seqs {
		name := fmt.Sprint("T", i)
		k := (i + turn) % 7
		b.WriteString("// free words\n\n")
		at := func(place, indent string) string {
			src, lines := s.write(&n, indent)
			b.WriteString(src)
			_ = place
			return sameDoc(lines)
		}
		switch k {
		case 0:
			d := at("type", "")
			b.WriteString("type " + name + " string // behind\n\n")
			want = append(want, docWant{name: name, place: "a type", doc: d})
		case 1:
			b.WriteString("// Group words.\ntype (\n\t// free words\n\n")
			d := at("grouped", "\t")
			b.WriteString("\t" + name + " struct{} // behind\n\n\tU" + name + " string\n)\n\n")
			want = append(want, docWant{name: name, place: "a type in a group", doc: d}, docWant{name: "U" + name, place: "an undocumented type in a group"})
		case 2:
			b.WriteString("// Group words.\ntype (\n")
			d := at("single", "\t")
			b.WriteString("\t" + name + " int\n)\n\n")
			want = append(want, docWant{name: name, place: "the only type of a group", doc: d})
		case 3:
			b.WriteString("// Type words.\ntype " + name + " struct {\n\t// free words\n\n")
			d := at("field", "\t")
			b.WriteString("\tA string `json:\"a,omitempty\" x:\"" + strconv.Itoa(i) + "\"` // behind\n\t// not of a field\n\n\tB int\n}\n\n")
			want = append(want, docWant{name: name, place: "a struct", doc: "Type words.", fields: []documentedField{{"A", "a field", d, `json:"a,omitempty" x:"` + strconv.Itoa(i) + `"`}, {"B", "an undocumented field", "", ""}}})
		case 4:
			b.WriteString("type " + name + " struct {\n\tZ bool `json:\"z\"`\n")
			d := at("names", "\t")
			b.WriteString("\tA, b *string \"json:\\\"ab\\\"\"\n}\n\n")
			want = append(want, docWant{name: name, place: "an undocumented struct", fields: []documentedField{{"Z", "an undocumented field", "", `json:"z"`}, {"A", "a field of two names", d, `json:"ab"`}, {"b", "a field of two names", d, `json:"ab"`}}})
		case 5:
			d := at("both", "")
			b.WriteString("type " + name + " struct {\n")
			e := at("embedded", "\t")
			b.WriteString("\tfmt.Stringer `json:\",inline\"`\n\t// not of a field\n}\n\n")
			want = append(want, docWant{name: name, place: "a struct", doc: d, fields: []documentedField{{"", "an embedded field", e, `json:",inline"`}}})
		case 6:
			d := at("alias", "")
			b.WriteString("type " + name + " = map[string]struct{\n\t// Inner words.\n\tX int\n}\n\n")
			want = append(want, docWant{name: name, place: "an alias", doc: d})
		}
	}
	return b.String(), want
}

func checkC29(c *Check) {
	w := c.W
	base := inited(w)
	w.buildDep("go/ast")
	w.buildDep("go/token")
	c.assumes("the go/parser package places comments and declarations in the tree as documented")
	fn := w.fn("pkg/markers", "EachType")
	pos := w.pos(fn.Pos())
	infoT, fieldT := w.typ("pkg/markers", "TypeInfo"), w.typ("pkg/markers", "FieldInfo")
	fileT := w.depTyp("go/ast", "File")
	raw, lp, colT := w.depTyp("golang.org/x/tools/go/packages", "Package"), w.typ("pkg/loader", "Package"), w.typ("pkg/markers", "Collector")

	var seqs []docSeq
	var gen func(p []int, ln int)
	i := 0
	gen = func(p []int, ln int) {
		if len(p) == ln {
			i++
			if d := (docSeq{kinds: p}); d.clear() && (ln < 4 || c.Tier == "thorough" || i%5 == 0) {
				seqs = append(seqs, d)
			}
			if d := (docSeq{kinds: p, block: true}); d.clear() && ln > 0 && (ln < 4 || c.Tier == "thorough" && i%3 == 0) {
				seqs = append(seqs, d)
			}
			return
		}
		for k := range docLines {
			gen(append(p[:len(p):len(p)], k), ln)
		}
	}
	for ln := 0; ln <= 4; ln++ {
		gen(nil, ln)
	}
	const per = 7
	type plan struct {
		seqs []docSeq
		turn int
	}
	var plans []plan
	for a := 0; a < len(seqs); a += per {
		part := seqs[a:min(len(seqs), a+per)]
		turns := 1
		if len(part[0].kinds) <= 2 || c.Tier == "thorough" && len(part[0].kinds) == 3 {
			turns = 7
		}
		for t := range turns {
			plans = append(plans, plan{part, t})
		}
	}
	envs := make([]*attachEnv, 8)
	for k := range envs {
		envs[k] = newAttachEnv(w, base)
		envs[k].m.hooks["strconv.Unquote"] = func(st *State, c *Call) ([]Out, bool) {
			s, ok := c.args[0].str()
			if !ok {
				return nil, false
			}
			u, err := strconv.Unquote(s)
			if err != nil {
				return []Out{{st: st, res: []*Val{strVal(""), errVal("unquote")}}}, true
			}
			return []Out{{st: st, res: []*Val{strVal(u), nilVal()}}}, true
		}
	}
	c.par(len(plans), func(c *Check, worker, i int) {
		e := envs[worker]
		m := e.m
		src, want := docSource(plans[i].seqs, plans[i].turn)
		f, err := parser.ParseFile(token.NewFileSet(), "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatalf("documented declarations: %v\n%s", err, src)
		}
		e.dup, e.host = map[any]*Val{}, map[*Obj]any{}
		st := newState()
		fv := e.lift(st, reflect.ValueOf(f), types.NewPointer(fileT))
		rp := m.cellOf(st, "raw", raw, structOf(raw, "Syntax", m.sliceOf(st, "files", types.NewPointer(fileT), fv)))
		pk := m.cellOf(st, "pkg", lp, structOf(lp, "Package", rp))
		for o, v := range st.mem {
			m.base[o] = v
		}
		lifted := st.mem
		defer func() {
			for o := range lifted {
				delete(m.base, o)
			}
		}()
		st = e.base.clone()
		col := m.cellOf(st, "collector", colT, structOf(colT, "Registry", e.reg))
		m.hooks["("+"*"+modPath+"/pkg/markers.Collector).MarkersInPackage"] = func(st *State, c *Call) ([]Out, bool) {
			return []Out{{st: st, res: []*Val{nilVal(), nilVal()}}}, true
		}
		var infos []*Val
		m.hooks["each-type"] = func(st *State, c *Call) ([]Out, bool) {
			infos = append(infos, c.args[len(c.args)-1])
			return []Out{{st: st}}, true
		}
		key := fmt.Sprintf("declarations %d", i)
		m.maxStep = m.steps + 5_000_000
		outs, why := attempt(m, st, fn, col, pk, &Val{nil_: nonBit, refs: []*Ref{{hook: "each-type"}}})
		if !c.ob(len(outs) == 1 && outs[0].panics == "" && errOf(outs[0]) == "nil", "collected", key, pos, "the types of\n%s\nare not determined: %d outcomes %s", src, len(outs), why) {
			return
		}
		st = outs[0].st
		if !c.ob(len(infos) == len(want), "collected", key, pos, "of %d types %d are handed out in\n%s", len(want), len(infos), src) {
			return
		}
		judge := func(place, name string, v *Val, exp string) {
			got, ok := m.resolve(st, v).str()
			if !ok {
				got = "(not determined)"
			} else {
				got = sameDoc(strings.Split(got, "\n"))
			}
			c.ob(got == exp, "documentation", fmt.Sprintf("%s %s of %s", place, name, key), pos, "%s %s has the documentation %q, expected %q, in\n%s", place, name, got, exp, src)
		}
		for j, in := range infos {
			x := want[j]
			name, _ := m.at(st, in, infoT, "Name").str()
			c.ob(name == x.name, "names", key+" "+x.name, pos, "%s is handed out as %q in\n%s", x.name, name, src)
			judge(x.place, x.name, m.at(st, in, infoT, "Doc"), x.doc)
			fl, ok := m.elems(st, m.at(st, in, infoT, "Fields"))
			if !c.ob(ok && len(fl) == len(x.fields), "names", key+" fields of "+x.name, pos, "%s has %d fields handed out of %d in\n%s", x.name, len(fl), len(x.fields), src) {
				continue
			}
			for k, fd := range fl {
				y := x.fields[k]
				n, _ := m.resolve(st, m.getField(fd, fieldT, "Name")).str()
				tag, _ := m.resolve(st, m.getField(fd, fieldT, "Tag")).str()
				c.ob(n == y.name && tag == y.tag, "names", key+" "+x.name+"."+y.name, pos, "the field %s.%s with the tag %q is handed out as %q with %q in\n%s", x.name, y.name, y.tag, n, tag, src)
				judge(y.place, x.name+"."+y.name, m.getField(fd, fieldT, "Doc"), y.doc)
			}
		}
	})
	c.atLeast("documentation", 2000)
	c.atLeast("names", 1000)
	c.fact("comments", len(seqs))
}
