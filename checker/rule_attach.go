package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// C25: which declaration each marker comment is attached to. The collector is interpreted on the syntax trees of
// every small arrangement of declarations and comment groups.

func init() {
	register("C25", "abstract interpretation of the marker collector over arrangements of declarations and comments",
		"sequences of declarations of every kind (package clause, imports, variables, functions, types, structs, interfaces, type groups) with comment groups of every placement before, inside and after them; markers of every registration",
		"The collector is interpreted on the syntax tree of every arrangement, with markers registered for each combination of package, type and field. A marker in the documentation of a type or field, or in the comment group closest above it, must be in that node's values and in no other's, in source order; a marker registered only for packages above a type, and every free-standing or final marker outside type bodies, must be in the package's values. The values the type and package accessors hand out must be those.", checkC25)
}

// The marker names and what they are registered for: p package, t type, f field.
var attachNames = []string{"p", "t", "f", "pt", "tf", "pf", "ptf", "u"}

var attachTargets = map[string]int64{}

// arrangement is a source text with what is expected of the markers in it.
type arrangement struct {
	b     strings.Builder
	n     *int
	file  int
	key   []string
	marks []attachMark
	names int
}

// attachMark is a marker's number, its name and the node kinds it belongs to: dest is "pkg", "none", "free" (not
// specified, but never on a type or field), "type:X" or "field:x"; near is set above a type in a free group.
type attachMark struct {
	name string
	n    int
	dest string
	near bool
}

func (a *arrangement) line(indent, s string) { a.b.WriteString(indent + s + "\n") }

func (a *arrangement) fresh(prefix string) string {
	a.names++
	return prefix + strconv.Itoa(a.names)
}

func (a *arrangement) mark(name, dest string, near bool) string {
	*a.n++
	a.marks = append(a.marks, attachMark{name, *a.n, dest, near})
	return fmt.Sprintf("+%s=%d", name, *a.n)
}

// group writes one comment group: markers for all targets, one of them twice, and some of the other names in turn.
func (a *arrangement) group(indent, dest string, near bool) {
	a.line(indent, "// words")
	k := *a.n
	rest := []string{"t", "f", "pt", "tf", "pf", "u"}
	for i, n := range []string{"p", "ptf", rest[k%6], rest[(k+1+k/6)%6], "ptf"} {
		a.line(indent, "//"+[]string{" ", "", " \t", "  ", " "}[i]+a.mark(n, dest, near))
	}
	a.line(indent, "// a +t=1 in the text")
}

// trailing writes a comment behind a declaration, on its line.
func (a *arrangement) trailing() string {
	return " // " + a.mark("ptf", "free", false)
}

// A gap is what stands above a declaration: f free groups with markers, p a free group with words only, b a block
// comment, d the documentation.
func (a *arrangement) gap(indent, gap, far, near, doc string, isType bool) {
	free := strings.TrimSuffix(gap, "d")
	for i, k := range free {
		last := i == len(free)-1
		switch k {
		case 'f':
			if last {
				a.group(indent, near, isType)
			} else {
				a.group(indent, far, false)
			}
		case 'p':
			a.line(indent, "// only words")
		case 'b':
			a.line(indent, "/* +ptf=1")
			a.line(indent, "   +t=1 */")
		}
		a.b.WriteString("\n")
	}
	if strings.HasSuffix(gap, "d") {
		a.group(indent, doc, false)
	}
}

// attachItem is a kind of declaration with the arrangement inside it.
type attachItem struct {
	kind, inner string // inner: the gap above each member
	tail        string // the gap behind the last member
	trail       bool   // comments behind members and the declaration
}

func (i attachItem) String() string {
	s := i.kind
	if i.inner != "" {
		s += "[" + i.inner + "]"
	}
	if i.tail != "" {
		s += "+" + i.tail
	}
	if i.trail {
		s += "/"
	}
	return s
}

// attachItems lists the kinds of declarations.
func attachItems(gaps []string) (r []attachItem) {
	for _, k := range []string{"import", "var", "func", "type", "alias", "empty", "method"} {
		r = append(r, attachItem{kind: k})
	}
	for _, k := range []string{"import", "var", "type"} {
		r = append(r, attachItem{kind: k, trail: true})
	}
	r = append(r, attachItem{kind: "func", inner: "f"}, attachItem{kind: "empty", inner: "f"}, attachItem{kind: "func", inner: "ff"})
	for _, k := range []string{"struct", "interface", "group"} {
		for _, g := range gaps {
			r = append(r, attachItem{kind: k, inner: g})
		}
		r = append(r, attachItem{kind: k, inner: "d", tail: "f"}, attachItem{kind: k, tail: "ff"}, attachItem{kind: k, inner: "f", tail: "f", trail: true}, attachItem{kind: k, trail: true})
	}
	r = append(r, attachItem{kind: "nested", inner: "d"}, attachItem{kind: "nested", inner: "fd", tail: "f"}, attachItem{kind: "nested", inner: "ff"},
		attachItem{kind: "imports", inner: "f"}, attachItem{kind: "imports", inner: "d", tail: "f"}, attachItem{kind: "consts", inner: "fd"}, attachItem{kind: "consts", inner: "d", tail: "f", trail: true},
		attachItem{kind: "generic", inner: "d"}, attachItem{kind: "functype"}, attachItem{kind: "group1"}, attachItem{kind: "group1", inner: "fd", tail: "f"}, attachItem{kind: "pointer", inner: "fd"})
	return
}

func (a *arrangement) fields(indent string, it attachItem, n int) {
	for i := 0; i < n; i++ {
		f := a.fresh("f")
		text := f + " int `json:\"" + f + "\"`"
		if i == 1 {
			f = a.fresh("E")
			text = f
		} else if i == 2 {
			g := a.fresh("f")
			text = f + ", " + g + " map[string]string"
		}
		a.gap(indent, it.inner, "none", "field:"+f, "field:"+f, false)
		if it.trail {
			text += a.trailing()
		}
		a.line(indent, text)
	}
	a.tail(indent, it.tail, "none")
}

func (a *arrangement) tail(indent, tail, dest string) {
	for range tail {
		a.b.WriteString("\n")
		a.group(indent, dest, false)
	}
}

// item writes a declaration with what stands above it.
func (a *arrangement) item(gap string, it attachItem) {
	a.key = append(a.key, gap+" "+it.String())
	a.b.WriteString("\n")
	end := ""
	if it.trail {
		end = a.trailing()
	}
	plain := func() { a.gap("", gap, "pkg", "pkg", "none", false) }
	typ := func() string {
		t := a.fresh("T")
		a.gap("", gap, "pkg", "type:"+t, "type:"+t, true)
		return t
	}
	switch it.kind {
	case "import":
		plain()
		a.line("", `import "`+a.fresh("x")+`"`+end)
	case "imports", "consts":
		a.gap("", gap, "pkg", "pkg", "free", false)
		open := "import ("
		if it.kind == "consts" {
			open = "const ("
		}
		a.line("", open)
		for i := 0; i < 2; i++ {
			n := a.fresh("x")
			a.gap("\t", it.inner, "free", "free", "free", false)
			if it.kind == "consts" {
				a.line("\t", n+" = 1"+end)
			} else {
				a.line("\t", `"`+n+`"`)
			}
			end = ""
		}
		a.tail("\t", it.tail, "free")
		a.line("", ")")
	case "var":
		plain()
		a.line("", "var "+a.fresh("v")+" = 1"+end)
	case "func", "method":
		plain()
		recv := ""
		if it.kind == "method" {
			recv = "(r *R) "
		}
		a.line("", "func "+recv+a.fresh("F")+"(a int, b string) (c int, err error) {")
		for range it.inner {
			a.group("\t", "free", false)
			a.line("\t", "a++")
		}
		a.line("", "}")
	case "type":
		t := typ()
		a.line("", "type "+t+" string"+end)
	case "alias":
		t := typ()
		a.line("", "type "+t+" = string")
	case "functype":
		t := typ()
		a.line("", "type "+t+" func(a int, b struct{ c int }) error")
	case "pointer":
		t := typ()
		a.line("", "type "+t+" []*struct {")
		a.fields("\t", it, 1)
		a.line("", "}")
	case "generic":
		t := typ()
		a.line("", "type "+t+"[X any, Y comparable] struct {")
		a.fields("\t", it, 2)
		a.line("", "}")
	case "empty":
		t := typ()
		a.line("", "type "+t+" struct {")
		a.tail("\t", it.inner, "none")
		a.line("", "}")
	case "struct":
		t := typ()
		a.line("", "type "+t+" struct {")
		a.fields("\t", it, 3)
		a.line("", "}"+end)
	case "nested":
		t := typ()
		a.line("", "type "+t+" struct {")
		f := a.fresh("f")
		a.gap("\t", it.inner, "none", "field:"+f, "field:"+f, false)
		a.line("\t", f+" struct {")
		a.fields("\t\t", it, 2)
		a.line("\t", "}")
		a.fields("\t", it, 1)
		a.line("", "}")
	case "interface":
		t := typ()
		a.line("", "type "+t+" interface {")
		for i := 0; i < 2; i++ {
			f := a.fresh("M")
			a.gap("\t", it.inner, "none", "field:"+f, "field:"+f, false)
			text := f + "(a int) error"
			if i == 1 {
				text = f
			}
			if it.trail {
				text += a.trailing()
			}
			a.line("\t", text)
		}
		a.tail("\t", it.tail, "none")
		a.line("", "}"+end)
	case "group", "group1":
		a.gap("", gap, "pkg", "pkg", "free", false)
		a.line("", "type (")
		n := 3
		if it.kind == "group1" {
			n = 1
		}
		for i := 0; i < n; i++ {
			t := a.fresh("T")
			a.gap("\t", it.inner, "free", "type:"+t, "type:"+t, true)
			if i == 1 {
				a.line("\t", t+" struct {")
				a.fields("\t\t", it, 1)
				a.line("\t", "}"+end)
			} else {
				a.line("\t", t+" string"+end)
			}
			end = ""
			if it.trail {
				end = a.trailing()
			}
		}
		a.tail("\t", it.tail, "free")
		a.line("", ")")
	default:
		panic("unknown kind " + it.kind)
	}
}

// wanted gives the value lists per node, marker name and number: true when required.
func wantedMarks(all []attachMark, file int) map[string]map[string][]int64 {
	want := map[string]map[string][]int64{}
	add := func(node, name string, v int64) {
		if want[node] == nil {
			want[node] = map[string][]int64{}
		}
		want[node][name] = append(want[node][name], v)
	}
	for _, k := range all {
		has := func(c string) bool { return k.name != "u" && strings.Contains(k.name, c) }
		v := int64(k.n) * 10
		kind, _, _ := strings.Cut(k.dest, ":")
		switch {
		case kind == "pkg" && has("p"), kind == "type" && k.near && has("p") && !has("t"):
			add(fmt.Sprintf("pkg:%d", file), k.name, v+attachTargets["p"])
		case kind == "type" && has("t"):
			add(k.dest, k.name, v+attachTargets["t"])
		case kind == "field" && has("f"):
			add(k.dest, k.name, v+attachTargets["f"])
		}
	}
	return want
}

// attachEnv interprets the collector.
type attachEnv struct {
	w    *World
	m    *M
	base *State
	reg  *Val
	dup  map[any]*Val
	host map[*Obj]any
	info *[]typeInfoSeen
}

type typeInfoSeen struct {
	name       string
	spec, decl any
	file       any
	marks      string
	fields     []string
	fieldOf    []any
	doc        string
}

func newAttachEnv(w *World, base *M) *attachEnv {
	e := &attachEnv{w: w, m: base.fork()}
	m := e.m
	m.base = cpy(m.base)
	m.inline["go/ast"], m.inline["go/token"] = true, true
	m.inline["strings"], m.texts = true, true
	w.buildDep("strings")
	m.maxRec, m.exact = 12, true
	nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	m.hooks["(*"+modPath+"/pkg/loader.Package).NeedSyntax"] = nop
	defT := w.typ("pkg/markers", "Definition")
	m.hooks["(*"+modPath+"/pkg/markers.Definition).Parse"] = func(st *State, c *Call) ([]Out, bool) {
		s, ok := c.args[1].str()
		if !ok {
			return nil, false
		}
		_, num, _ := strings.Cut(s, "=")
		n, err := strconv.Atoi(num)
		if err != nil {
			return nil, false
		}
		tgt, ok := m.at(st, c.args[0], defT, "Target").integer()
		if !ok {
			return nil, false
		}
		return []Out{{st: st, res: []*Val{ifaceOf(types.Typ[types.Int], constVal(int64(n)*10+tgt)), nilVal()}}}, true
	}
	st := newState()
	regT := w.typ("pkg/markers", "Registry")
	e.reg = m.cellOf(st, "registry", regT, nil)
	register := w.methodOf(regT, "Register")
	for _, n := range attachNames {
		for _, k := range "ptf" {
			if n == "u" || !strings.ContainsRune(n, k) {
				continue
			}
			def := m.cellOf(st, "def:"+n+string(k), defT, structOf(defT, "Name", strVal(n), "Target", constVal(attachTargets[string(k)])))
			outs := m.interp(st, register, e.reg, def)
			if len(outs) != 1 || errOf(outs[0]) != "nil" {
				fatalf("registering a definition has %d outcomes", len(outs))
			}
			st = outs[0].st
		}
	}
	e.base = st
	return e
}

// lift makes the abstract value of a host syntax tree.
func (e *attachEnv) lift(st *State, v reflect.Value, t types.Type) *Val {
	m := e.m
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nilVal()
		}
		if p := e.dup[v.Interface()]; p != nil {
			return p
		}
		et := e.w.depTyp("go/ast", v.Type().Elem().Name())
		p := m.cellOf(st, fmt.Sprintf("ast:%s:%d", v.Type().Elem().Name(), len(e.dup)), et, nil)
		e.dup[v.Interface()] = p
		e.host[p.refs[0].obj] = v.Interface()
		m.store(st, p, e.lift(st, v.Elem(), et), et)
		return p
	case reflect.Interface:
		if v.IsNil() {
			return nilVal()
		}
		x := v.Elem()
		return ifaceOf(types.NewPointer(e.w.depTyp("go/ast", x.Type().Elem().Name())), e.lift(st, x, nil))
	case reflect.Struct:
		var kvs []any
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			kvs = append(kvs, n, e.lift(st, v.Field(i), fieldType(t, n)))
		}
		return structOf(t, kvs...)
	case reflect.Slice:
		if v.IsNil() {
			return nilVal()
		}
		et, _ := arrayElem(t)
		var vs []*Val
		for i := 0; i < v.Len(); i++ {
			vs = append(vs, e.lift(st, v.Index(i), et))
		}
		return m.sliceOf(st, "list", et, vs...)
	case reflect.Map:
		return nilVal()
	case reflect.String:
		return strVal(v.String())
	case reflect.Bool:
		return boolVal(v.Bool())
	case reflect.Int:
		return constVal(v.Int())
	}
	fatalf("no abstract value of %s", v.Type())
	return nil
}

// values writes a marker value map as name -> numbers.
func (e *attachEnv) values(st *State, v *Val) map[string][]int64 {
	r := map[string][]int64{}
	for _, kv := range e.m.mapEntries(st, v) {
		n, ok := kv[0].str()
		if !ok {
			e.m.fail("marker name is not determined: %s", kv[0])
		}
		l, ok := e.m.elems(st, kv[1])
		if !ok {
			e.m.fail("values of marker %s are not determined", n)
		}
		for _, x := range l {
			x = e.m.resolve(st, x)
			if len(x.refs) != 1 || x.refs[0].v == nil {
				e.m.fail("value of marker %s is not determined: %s", n, x)
			}
			i, ok := e.m.resolve(st, x.refs[0].v).integer()
			if !ok {
				e.m.fail("value of marker %s is not determined: %s", n, x)
			}
			r[n] = append(r[n], i)
		}
	}
	return r
}

func showMarks(m map[string][]int64) string {
	var ks []string
	for k, v := range m {
		if len(v) > 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var r []string
	for _, k := range ks {
		var ns []string
		for _, n := range m[k] {
			ns = append(ns, fmt.Sprintf("%d%s", n/10, string("ptf"[targetIndex(n%10)])))
		}
		r = append(r, k+"="+strings.Join(ns, ","))
	}
	return strings.Join(r, " ")
}

func targetIndex(t int64) int {
	for i, k := range "ptf" {
		if attachTargets[string(k)] == t {
			return i
		}
	}
	return 0
}

// nodeOf gives the host node of a key of the result.
func (e *attachEnv) nodeOf(k *Val) any {
	if len(k.refs) == 1 && k.refs[0].v != nil && len(k.refs[0].v.refs) == 1 {
		return e.host[k.refs[0].v.refs[0].obj]
	}
	if len(k.refs) == 1 && k.refs[0].obj != nil {
		return e.host[k.refs[0].obj]
	}
	return nil
}

// judge compares what the collector gives for an arrangement of files with what is expected.
func (e *attachEnv) judge(c *Check, fs []*arrangement, pos string) {
	m, w := e.m, e.w
	var ks []string
	for _, a := range fs {
		ks = append(ks, strings.Join(a.key, "; "))
	}
	key := strings.Join(ks, " | ")
	fset := token.NewFileSet()
	files := make([]*ast.File, len(fs))
	for i := len(fs) - 1; i >= 0; i-- { // the second file stands first in the file set
		f, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), fs[i].b.String(), parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fatalf("arrangement %s: %v\n%s", key, err, fs[i].b.String())
		}
		files[i] = f
	}
	e.dup, e.host = map[any]*Val{}, map[*Obj]any{}
	st := newState()
	fileT := w.depTyp("go/ast", "File")
	var fvs []*Val
	for _, f := range files {
		fvs = append(fvs, e.lift(st, reflect.ValueOf(f), types.NewPointer(fileT)))
	}
	raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
	lp := w.typ("pkg/loader", "Package")
	colT := w.typ("pkg/markers", "Collector")
	rp := m.cellOf(st, "raw", raw, structOf(raw, "Syntax", m.sliceOf(st, "files", types.NewPointer(fileT), fvs...)))
	pk := m.cellOf(st, "pkg", lp, structOf(lp, "Package", rp))
	// the tree is initial memory
	for o, v := range st.mem {
		m.base[o] = v
	}
	lifted := st.mem
	defer func() {
		for o := range lifted {
			delete(m.base, o)
		}
	}()
	st = e.base.clone()
	col := m.cellOf(st, "collector", colT, structOf(colT, "Registry", e.reg))

	// the names of the nodes
	names := map[any]string{}
	for i, f := range files {
		names[f] = fmt.Sprintf("pkg:%d", i)
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.TypeSpec:
				names[x] = "type:" + x.Name.Name
			case *ast.Field:
				if len(x.Names) > 0 {
					names[x] = "field:" + x.Names[0].Name
				} else if id, ok := x.Type.(*ast.Ident); ok {
					names[x] = "field:" + id.Name
				}
			}
			return true
		})
	}
	free := map[int64]bool{}
	want := map[string]map[string][]int64{}
	for i, a := range fs {
		for k, v := range wantedMarks(a.marks, i) {
			want[k] = v
		}
		for _, k := range a.marks {
			if k.dest == "free" {
				free[int64(k.n)] = true
			}
		}
	}
	m.maxStep = m.steps + 3_000_000
	outs, why := attempt(m, st, w.methodOf(colT, "MarkersInPackage"), col, pk)
	if !c.ob(len(outs) == 1 && errOf(outs[0]) == "nil", "collected", key, pos, "%s: collecting the markers is not determined: %d outcomes %s", key, len(outs), why) {
		return
	}
	st = outs[0].st
	got := map[string]map[string][]int64{}
	for _, kv := range m.mapEntries(st, outs[0].res[0]) {
		n := e.nodeOf(kv[0])
		name := names[n]
		vals := e.values(st, kv[1])
		if name == "" {
			name = fmt.Sprintf("%T", n)
		}
		if prev := got[name]; prev != nil && showMarks(prev) != "" && showMarks(vals) != "" {
			fatalf("two nodes called %s in %s", name, key)
		}
		if showMarks(vals) != "" || got[name] == nil {
			got[name] = vals
		}
	}
	e.compare(c, key, pos, "attached", got, want, free)

	// what the accessors hand out
	pkgFn := w.fn("pkg/markers", "PackageMarkers")
	outs, why = attempt(m, st, pkgFn, col, pk)
	if !c.ob(len(outs) == 1 && errOf(outs[0]) == "nil", "collected", "package "+key, w.pos(pkgFn.Pos()), "%s: the package's markers are not determined: %d outcomes %s", key, len(outs), why) {
		return
	}
	st = outs[0].st
	all := map[string][]int64{}
	for i := range fs {
		for n, l := range got[fmt.Sprintf("pkg:%d", i)] {
			all[n] = append(all[n], l...)
		}
	}
	pm := showMarks(e.values(st, outs[0].res[0]))
	c.ob(pm == showMarks(all), "handed-out", "package "+key, w.pos(pkgFn.Pos()), "%s: the package's markers are %s, expected %s", key, pm, showMarks(all))

	e.eachType(c, st, key, col, pk, files, names, got)
}

// compare judges the values of every node.
func (e *attachEnv) compare(c *Check, key, pos, rule string, got, want map[string]map[string][]int64, free map[int64]bool) {
	nodes := map[string]bool{}
	for k := range got {
		nodes[k] = true
	}
	for k := range want {
		nodes[k] = true
	}
	for k := range nodes {
		g := map[string][]int64{}
		for n, l := range got[k] {
			for _, v := range l {
				if strings.HasPrefix(k, "pkg:") && free[v/10] && v%10 == attachTargets["p"] {
					continue
				}
				g[n] = append(g[n], v)
			}
			if !sort.SliceIsSorted(l, func(i, j int) bool { return l[i] < l[j] }) {
				c.bad("source-order", k+" in "+key, pos, "%s: the values of %s at %s are not in source order: %s", key, n, k, showMarks(map[string][]int64{n: l}))
			}
		}
		c.ob(showMarks(g) == showMarks(want[k]), rule, k+" in "+key, pos, "%s: %s has %s, expected %s", key, k, showMarks(g), showMarks(want[k]))
	}
}

// eachType checks the values handed to the callback for each type.
func (e *attachEnv) eachType(c *Check, st *State, key string, col, pk *Val, files []*ast.File, names map[any]string, got map[string]map[string][]int64) {
	m, w := e.m, e.w
	fn := w.fn("pkg/markers", "EachType")
	pos := w.pos(fn.Pos())
	infoT := w.typ("pkg/markers", "TypeInfo")
	fieldT := w.typ("pkg/markers", "FieldInfo")
	var infos []*Val
	m.hooks["each-type"] = func(st *State, c *Call) ([]Out, bool) {
		infos = append(infos, c.args[len(c.args)-1])
		return []Out{{st: st}}, true
	}
	outs, why := attempt(m, st, fn, col, pk, &Val{nil_: nonBit, refs: []*Ref{{hook: "each-type"}}})
	if !c.ob(len(outs) == 1 && errOf(outs[0]) == "nil", "collected", "types "+key, pos, "%s: the types are not determined: %d outcomes %s", key, len(outs), why) {
		return
	}
	st = outs[0].st
	var seen, expect []string
	for _, in := range infos {
		name, _ := m.at(st, in, infoT, "Name").str()
		spec, decl, file := e.nodeOf(m.at(st, in, infoT, "RawSpec")), e.nodeOf(m.at(st, in, infoT, "RawDecl")), e.nodeOf(m.at(st, in, infoT, "RawFile"))
		s := fmt.Sprintf("%s spec=%p decl=%p file=%p %s", name, spec, decl, file, showMarks(e.values(st, m.at(st, in, infoT, "Markers"))))
		fl, ok := m.elems(st, m.at(st, in, infoT, "Fields"))
		if !ok {
			m.fail("the fields of %s are not determined", name)
		}
		for _, f := range fl {
			fn, _ := m.getField(f, fieldT, "Name").str()
			s += fmt.Sprintf("; %s at %p %s", fn, e.nodeOf(m.resolve(st, m.getField(f, fieldT, "RawField"))), showMarks(e.values(st, m.resolve(st, m.getField(f, fieldT, "Markers")))))
		}
		seen = append(seen, s)
	}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, sp := range gd.Specs {
				ts := sp.(*ast.TypeSpec)
				s := fmt.Sprintf("%s spec=%p decl=%p file=%p %s", ts.Name.Name, any(ts), any(gd), any(f), showMarks(got[names[ts]]))
				if stt, ok := ts.Type.(*ast.StructType); ok {
					for _, fd := range stt.Fields.List {
						ns := []string{""}
						if len(fd.Names) > 0 {
							ns = nil
							for _, n := range fd.Names {
								ns = append(ns, n.Name)
							}
						}
						for _, n := range ns {
							s += fmt.Sprintf("; %s at %p %s", n, any(fd), showMarks(got[names[fd]]))
						}
					}
				}
				expect = append(expect, s)
			}
		}
	}
	c.ob(strings.Join(seen, "\n") == strings.Join(expect, "\n"), "handed-out", "types "+key, pos, "%s: the types handed out are %q, expected %q", key, seen, expect)
}

func checkC25(c *Check) {
	w := c.W
	for n, k := range map[string]string{"p": "DescribesPackage", "t": "DescribesType", "f": "DescribesField"} {
		attachTargets[n] = w.intConst("pkg/markers", k)
	}
	colT := w.typ("pkg/markers", "Collector")
	pos := w.pos(w.methodOf(colT, "MarkersInPackage").Pos())
	c.assumes("the go/parser package places comments and declarations in the tree as documented")
	base := inited(w)
	w.buildDep("go/ast")
	w.buildDep("go/token")
	tops := []string{"", "d", "f", "fd", "ff", "ffd", "fp", "fbd"}
	items := attachItems([]string{"", "d", "f", "fd", "ff", "fpd"})
	type plan struct {
		pkg, end string
		gaps     []string
		its      []attachItem
		two      bool
	}
	var plans []plan
	i := 0
	add := func(p plan) {
		p.pkg = tops[i%len(tops)]
		p.end = []string{"", "f", "ff"}[i/len(tops)%3]
		p.two = i%7 == 3
		i++
		plans = append(plans, p)
	}
	for _, x := range items {
		for _, g := range tops {
			for range 3 {
				add(plan{gaps: []string{g}, its: []attachItem{x}})
			}
		}
	}
	for xi, x := range items {
		for yi, y := range items {
			for gi, g := range tops {
				if k := (gi + xi + 3*yi) % len(tops); c.Tier != "thorough" && k != 0 && k != 5 {
					continue
				}
				add(plan{gaps: []string{tops[(i/3)%len(tops)], g}, its: []attachItem{x, y}})
			}
		}
	}
	if c.Tier == "thorough" {
		for xi, x := range items {
			for yi, y := range items {
				z := items[(xi*7+yi*11+i)%len(items)]
				add(plan{gaps: []string{tops[(xi+i)%len(tops)], tops[(yi+i/5)%len(tops)], tops[(i/7)%len(tops)]}, its: []attachItem{x, y, z}})
			}
		}
	}
	envs := make([]*attachEnv, 8)
	for k := range envs {
		envs[k] = newAttachEnv(w, base)
	}
	imports := map[string]bool{"import": true, "imports": true}
	c.par(len(plans), func(c *Check, worker, i int) {
		p := plans[i]
		num := 0
		var fs []*arrangement
		nf := 1
		if p.two {
			nf = 2
		}
		for f := 0; f < nf; f++ {
			a := &arrangement{n: &num, file: f, names: f * 100}
			a.gap("", p.pkg, "pkg", "pkg", "pkg", false)
			a.key = append(a.key, p.pkg+" package")
			a.line("", "package x")
			its, gaps := p.its, p.gaps
			if f == 1 {
				its, gaps = []attachItem{{kind: "type"}}, []string{"fd"}
			}
			its = append([]attachItem{}, its...)
			sort.SliceStable(its, func(i, j int) bool { return imports[its[i].kind] && !imports[its[j].kind] })
			for j, it := range its {
				a.item(gaps[j], it)
			}
			a.tail("", p.end, "pkg")
			a.key = append(a.key, p.end+" end")
			fs = append(fs, a)
		}
		envs[worker].judge(c, fs, pos)
	})
	c.atLeast("attached", 1000)
	c.atLeast("handed-out", 500)
	c.fact("arrangements", len(plans))
}

// intConst reads an exported integer constant.
func (w *World) intConst(rel, name string) int64 {
	k, ok := w.pkg(rel).Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		fatalf("no constant %s.%s", rel, name)
	}
	v, _ := constant.Int64Val(k.Val())
	return v
}
