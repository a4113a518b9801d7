package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

func init() {
	register("C24", "abstract interpretation of the schema patcher over a grammar of manifests, as trees of document nodes with identities",
		"manifests of up to three versions, each with every state of its schema; sources that define any of the versions; other kinds, groups, files and documents beside them; every fault of a manifest the patcher can meet",
		"The patcher is interpreted on abstract manifests: trees of YAML nodes, each with its own comments, position and style. What it writes must be the same tree, node by node, with the schema of each version replaced by the one generated for that type and version, under the manifest's own name; files that are no CRDs must not be written, and a manifest that cannot be interpreted must end in an error.",
		checkC24)
}

// ynode is a node of a manifest.
type ynode struct {
	kind, tag, val string // map, seq or scalar
	kids           []*ynode
	id             string
	line           int64 // 0 for nodes the patcher makes
}

// number tells the nodes of a document apart.
func (n *ynode) number(id string, line *int64) *ynode {
	*line++
	n.id, n.line = id, *line
	for i, k := range n.kids {
		k.number(fmt.Sprintf("%s.%d", id, i), line)
	}
	return n
}

func (n *ynode) copy() *ynode {
	c := *n
	c.kids = nil
	for _, k := range n.kids {
		c.kids = append(c.kids, k.copy())
	}
	return &c
}

// without drops a key of a mapping.
func (n *ynode) without(key string) {
	for i := 0; i+1 < len(n.kids); i += 2 {
		if n.kids[i].val == key {
			n.kids = append(n.kids[:i:i], n.kids[i+2:]...)
			return
		}
	}
}

func ystr(s string) *ynode { return &ynode{kind: "scalar", tag: "!!str", val: s} }

// ymap makes a mapping from keys and values.
func ymap(kvs ...any) *ynode {
	n := &ynode{kind: "map", tag: "!!map"}
	for i := 0; i+1 < len(kvs); i += 2 {
		n.kids = append(n.kids, ystr(kvs[i].(string)), kvs[i+1].(*ynode))
	}
	return n
}
func yseq(l ...*ynode) *ynode { return &ynode{kind: "seq", tag: "!!seq", kids: l} }

func (n *ynode) get(k string) *ynode {
	if n == nil || n.kind != "map" {
		return nil
	}
	for i := 0; i+1 < len(n.kids); i += 2 {
		if n.kids[i].val == k {
			return n.kids[i+1]
		}
	}
	return nil
}

const (
	yamlV3  = "gopkg.in/yaml.v3"
	sigYaml = "sigs.k8s.io/yaml"
)

type patchEnv struct {
	w         *World
	m         *M
	nodeT     types.Type
	jsp       types.Type
	eof       *Val
	files     map[string][]*ynode // documents of each file; nil when it is no YAML
	entries   []string            // names in the directory, "/" at the end of directories
	pkgs      []srcPkg
	truncated bool
}

// srcPkg is a source package with the kinds it defines.
type srcPkg struct {
	path, group, version string
	kinds                []string
}

var yamlKind = map[string]uint64{"doc": 1, "seq": 2, "map": 4, "scalar": 8}

// node makes the abstract node tree of a document; every node of a manifest is told apart by its line and its comments.
func (e *patchEnv) node(st *State, id string, n *ynode) *Val {
	var kids []*Val
	for i, k := range n.kids {
		kids = append(kids, e.node(st, fmt.Sprintf("%s.%d", id, i), k))
	}
	content := nilVal()
	if len(kids) > 0 {
		content = e.m.sliceOf(st, id+".content", types.NewPointer(e.nodeT), kids...)
	}
	if n.line == 0 {
		return e.m.cellOf(st, id, e.nodeT, structOf(e.nodeT, "Kind", constVal(yamlKind[n.kind]), "Style", constVal(uint64(32)), "Tag", strVal(n.tag), "Value", strVal(n.val), "Content", content))
	}
	return e.m.cellOf(st, id, e.nodeT, structOf(e.nodeT, "Kind", constVal(yamlKind[n.kind]), "Style", constVal(uint64(1)), "Tag", strVal(n.tag), "Value", strVal(n.val), "Content", content,
		"HeadComment", strVal("# above "+n.id), "LineComment", strVal("# beside "+n.id), "FootComment", strVal("# below "+n.id), "Line", constVal(n.line), "Column", constVal(n.line)))
}

// show renders the tree at a node; created nodes are shown without their style.
func (e *patchEnv) show(st *State, p *Val, d int) string {
	m := e.m
	if d > 12 {
		return "…"
	}
	f := func(n string) string { return m.canon(st, m.at(st, p, e.nodeT, n), nil, 0) }
	kids := m.at(st, p, e.nodeT, "Content")
	es, ok := m.elems(st, kids)
	if !ok && !kids.isNil() {
		return "?"
	}
	var ks []string
	for _, k := range es {
		ks = append(ks, e.show(st, k, d+1))
	}
	if f("Line") == "0" {
		return fmt.Sprintf("(new kind %s %s %s%s%s [%s])", f("Kind"), f("Value"), f("HeadComment"), f("LineComment"), f("FootComment"), strings.Join(ks, " "))
	}
	var all []string
	s := e.nodeT.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if n := s.Field(i).Name(); n != "Content" {
			all = append(all, f(n))
		}
	}
	return "(" + strings.Join(all, ",") + " [" + strings.Join(ks, " ") + "])"
}

// decode fills a value of type t from a node, the way the JSON decoder does.
func (e *patchEnv) decode(st *State, id string, t types.Type, n *ynode) (*Val, bool) {
	if n == nil || n.kind == "scalar" && n.tag == "!!null" {
		return zeroVal(t), true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 && n.kind == "scalar" && n.tag == "!!str" {
			return strVal(n.val), true
		}
		return nil, false
	case *types.Interface:
		return unkNonNil(t, &Sym{"any:" + id, true}), true
	case *types.Pointer:
		v, ok := e.decode(st, id+"*", u.Elem(), n)
		if !ok {
			return nil, false
		}
		return e.m.cellOf(st, id, u.Elem(), v), true
	case *types.Slice:
		if n.kind != "seq" {
			return nil, false
		}
		var vs []*Val
		for i, k := range n.kids {
			v, ok := e.decode(st, fmt.Sprintf("%s.%d", id, i), u.Elem(), k)
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return e.m.sliceOf(st, id, u.Elem(), vs...), true
	case *types.Map:
		if n.kind != "map" {
			return nil, false
		}
		var kvs []any
		for i := 0; i+1 < len(n.kids); i += 2 {
			v, ok := e.decode(st, id+"."+n.kids[i].val, u.Elem(), n.kids[i+1])
			if !ok {
				return nil, false
			}
			kvs = append(kvs, strVal(n.kids[i].val), v)
		}
		return e.m.mapOf(st, id, t, kvs...), true
	case *types.Struct:
		if n.kind != "map" {
			return nil, false
		}
		v := *zeroVal(t)
		v.agg = append([]*Val(nil), v.agg...)
		for i := 0; i < u.NumFields(); i++ {
			name, rest, _ := strings.Cut(reflect.StructTag(u.Tag(i)).Get("json"), ",")
			sub := n
			if !(u.Field(i).Embedded() && name == "" || strings.Contains(","+rest+",", ",inline,")) {
				if name == "-" {
					continue
				}
				if name == "" {
					name = u.Field(i).Name()
				}
				sub = n.get(name)
			}
			x, ok := e.decode(st, fmt.Sprintf("%s.%s", id, u.Field(i).Name()), u.Field(i).Type(), sub)
			if !ok {
				return nil, false
			}
			v.agg[i] = x
		}
		return &v, true
	}
	return nil, false
}

// patchMachine has the API version of CRDs set before the packages are initialised.
func patchMachine(w *World) *M {
	w.buildDep(apiextPath)
	w.buildDep(schemaPkg)
	return initedWith(w, func(m *M) {
		m.inline[schemaPkg] = true
		if g := w.buildDep(apiextPath).Var("SchemeGroupVersion"); g != nil {
			m.base[m.global(g)] = structOf(deref(g.Type()), "Group", strVal("apiextensions.k8s.io"), "Version", strVal("v1"))
		}
	})
}

func newPatchEnv(w *World, base *M) *patchEnv {
	e := &patchEnv{w: w, m: base.fork(), files: map[string][]*ynode{}, nodeT: w.depTyp(yamlV3, "Node"), jsp: w.depTyp(apiextPath, "JSONSchemaProps")}
	m := e.m
	m.maxStep = 1 << 30
	m.splitModels, m.splitPlaces = true, true
	m.maxRec = 12
	m.inline[apiextPath], m.inline[schemaPkg] = true, true
	mp := modPath + "/pkg/"
	pt, lp, tiT := w.typ("pkg/crd", "Parser"), w.typ("pkg/loader", "Package"), w.typ("pkg/crd", "TypeIdent")
	errV := func() *Val { return unkNonNil(types.Universe.Lookup("error").Type(), &Sym{"fault", true}) }
	if g := w.SSA["io"]; g != nil && g.Var("EOF") != nil {
		if e.eof = m.base[m.global(g.Var("EOF"))]; e.eof == nil || e.eof.unk {
			e.eof = ifaceOf(types.Typ[types.String], strVal("EOF"))
			m.base[m.global(g.Var("EOF"))] = e.eof
		}
	}
	nop := func(st *State, c *Call) ([]Out, bool) { return []Out{{st: st}}, true }
	m.hooks[mp+"crd.AddKnownTypes"] = nop
	m.hooks["(*"+mp+"crd.Parser).NeedPackage"] = nop
	m.hooks["(*"+mp+"loader.Package).AddError"] = func(st *State, c *Call) ([]Out, bool) { st.count("errors"); return []Out{{st: st}}, true }
	m.hooks["(*"+mp+"loader.Package).NeedTypesInfo"] = nop
	m.hooks[mp+"crd.FindMetav1"] = func(st *State, c *Call) ([]Out, bool) {
		return one(st, unkNonNil(c.res.At(0).Type(), &Sym{"metav1", true})), true
	}
	gkT := w.depTyp(schemaPkg, "GroupKind")
	m.hooks[mp+"crd.FindKubeKinds"] = func(st *State, c *Call) ([]Out, bool) {
		seen := map[string]bool{}
		var ks []*Val
		for _, p := range e.pkgs {
			for _, k := range p.kinds {
				if p.group != "-" && !seen[p.group+"/"+k] {
					seen[p.group+"/"+k] = true
					ks = append(ks, structOf(gkT, "Group", strVal(p.group), "Kind", strVal(k)))
				}
			}
		}
		return one(st, m.sliceOf(st, "kinds", gkT, ks...)), true
	}
	m.hooks[mp+"crd.TruncateDescription"] = func(st *State, c *Call) ([]Out, bool) {
		s := m.load(st, c.args[0], e.jsp)
		d, _ := m.getField(s, e.jsp, "Description").str()
		n, _ := c.args[1].integer()
		m.store(st, c.args[0], m.setPath(s, []string{fmt.Sprint(fieldIndex(e.jsp, "Description"))}, strVal(fmt.Sprintf("%s<%d>", d, n)), false), e.jsp)
		return []Out{{st: st}}, true
	}
	setTable := func(st *State, parser *Val, field string, kvs []any) {
		v := m.load(st, parser, pt)
		m.store(st, parser, m.setPath(v, []string{fmt.Sprint(fieldIndex(pt, field))}, m.mapOf(st, field, fieldType(pt, field), kvs...), false), pt)
	}
	pkgVal := func(st *State, p srcPkg) *Val { // the same cell for every mention of a package
		k := "pkgcell:" + p.path
		if v := st.notes[k]; v != nil {
			return v
		}
		raw := w.depTyp("golang.org/x/tools/go/packages", "Package")
		v := m.cellOf(st, "pkg."+p.path, lp, structOf(lp, "Package", m.cellOf(st, "raw."+p.path, raw, structOf(raw, "ID", strVal(p.path), "PkgPath", strVal(p.path), "Name", strVal(p.version)))))
		st.notes[k] = v
		return v
	}
	m.hooks["(*"+mp+"crd.Parser).NeedPackage"] = func(st *State, c *Call) ([]Out, bool) {
		gvT := w.depTyp(schemaPkg, "GroupVersion")
		var gvs, tys []any
		infoT := deref(fieldType(pt, "Types").Underlying().(*types.Map).Elem())
		for _, p := range e.pkgs {
			pv := pkgVal(st, p)
			if p.group != "-" {
				gvs = append(gvs, pv, structOf(gvT, "Group", strVal(p.group), "Version", strVal(p.version)))
			}
			for _, k := range p.kinds {
				tys = append(tys, structOf(tiT, "Package", pv, "Name", strVal(k)), m.cellOf(st, "info."+p.path+k, infoT, structOf(infoT, "Name", strVal(k))))
			}
		}
		setTable(st, c.args[0], "GroupVersions", gvs)
		setTable(st, c.args[0], "Types", tys)
		setTable(st, c.args[0], "FlattenedSchemata", nil)
		return []Out{{st: st}}, true
	}
	m.hooks["(*"+mp+"crd.Parser).NeedFlattenedSchemaFor"] = func(st *State, c *Call) ([]Out, bool) {
		var path string
		k, _ := m.getField(c.args[1], tiT, "Name").str()
		for _, p := range e.pkgs {
			if v := st.notes["pkgcell:"+p.path]; v != nil && sameRef(m.getField(c.args[1], tiT, "Package"), v) {
				for _, x := range p.kinds {
					if x == k {
						path = p.path
					}
				}
			}
		}
		if path == "" {
			st.count("errors") // no such type
			return []Out{{st: st}}, true
		}
		id := path + "." + k
		props := m.mapOf(st, "props."+id, fieldType(e.jsp, "Properties"), strVal("metadata"), structOf(e.jsp, "Type", strVal("object"), "Description", strVal("long")), strVal("spec"), structOf(e.jsp, "Type", strVal("object"), "Description", strVal("spec of "+id)))
		if strings.HasSuffix(path, "bare") {
			props = nilVal()
		}
		var kvs []any
		for _, kv := range m.mapEntries(st, m.at(st, c.args[0], pt, "FlattenedSchemata")) {
			kvs = append(kvs, kv[0], kv[1])
		}
		kvs = append(kvs, c.args[1], structOf(e.jsp, "Type", strVal("object"), "Description", strVal(e.descr(id)), "Properties", props))
		setTable(st, c.args[0], "FlattenedSchemata", kvs)
		return []Out{{st: st}}, true
	}
	// two schemas are equal when they are rendered alike
	for _, n := range []string{"(k8s.io/apimachinery/third_party/forked/golang/reflect.Equalities).DeepEqual", "(k8s.io/apimachinery/pkg/conversion.Equalities).DeepEqual", "reflect.DeepEqual"} {
		m.hooks[n] = func(st *State, c *Call) ([]Out, bool) {
			a, b := m.canon(st, c.args[len(c.args)-2], nil, 0), m.canon(st, c.args[len(c.args)-1], nil, 0)
			if strings.Contains(a+b, "?") {
				m.fail("comparison of undetermined schemas")
			}
			return one(st, boolVal(a == b)), true
		}
	}
	// files
	content := func(what string) *Val { return unkNonNil(types.NewSlice(types.Typ[types.Byte]), &Sym{what, true}) }
	symOf := func(v *Val, pre string) (string, bool) {
		if v == nil || v.sym == nil || !strings.HasPrefix(v.sym.s, pre) {
			return "", false
		}
		return v.sym.s[len(pre):], true
	}
	m.hooks["os.ReadDir"] = func(st *State, c *Call) ([]Out, bool) {
		if s, ok := c.args[0].str(); !ok || s != "manifests" {
			m.fail("directory other than that of the manifests is read")
		}
		var vs []*Val
		for _, n := range e.entries {
			vs = append(vs, ifaceOf(types.Typ[types.String], strVal(n)))
		}
		et, _ := arrayElem(c.res.At(0).Type())
		return []Out{{st: st, res: []*Val{m.sliceOf(st, "entries", et, vs...), nilVal()}}}, true
	}
	entry := func(c *Call) string {
		if len(c.args[0].refs) == 1 && c.args[0].refs[0].v != nil {
			if s, ok := c.args[0].refs[0].v.str(); ok {
				return s
			}
		}
		m.fail("undetermined directory entry %s", c.args[0])
		return ""
	}
	for _, it := range []string{"os.DirEntry", "io/fs.DirEntry"} {
		m.hooks["("+it+").Name"] = func(st *State, c *Call) ([]Out, bool) {
			return one(st, strVal(strings.TrimSuffix(entry(c), "/"))), true
		}
		m.hooks["("+it+").IsDir"] = func(st *State, c *Call) ([]Out, bool) {
			return one(st, boolVal(strings.HasSuffix(entry(c), "/"))), true
		}
	}
	m.hooks["path/filepath.Ext"] = func(st *State, c *Call) ([]Out, bool) {
		s, ok := c.args[0].str()
		if !ok {
			return nil, false
		}
		if i := strings.LastIndexByte(s, '.'); i >= 0 {
			return one(st, strVal(s[i:])), true
		}
		return one(st, strVal("")), true
	}
	m.hooks["("+mp+"genall.GenerationContext).ReadFile"] = func(st *State, c *Call) ([]Out, bool) {
		s, ok := c.args[1].str()
		name, in := strings.CutPrefix(s, "manifests/")
		if !ok || !in {
			m.fail("file other than a manifest is read: %s", s)
		}
		for _, n := range e.entries {
			if n == name+"/" { // a directory cannot be read
				return []Out{{st: st, res: []*Val{nilVal(), errV()}}}, true
			}
		}
		return []Out{{st: st, res: []*Val{content("file:" + name), nilVal()}}}, true
	}
	fill := func(st *State, target *Val, doc *ynode, id string) bool {
		if len(target.refs) != 1 || target.refs[0].t == nil {
			m.fail("undetermined decoding target")
		}
		t := target.refs[0].t.(*types.Pointer).Elem()
		if types.Identical(t, e.nodeT) {
			p := e.node(st, id, doc)
			m.store(st, target.refs[0].v, m.load(st, p, e.nodeT), t)
			return true
		}
		v, ok := e.decode(st, id+typeName(t), t, doc.kids[0])
		if ok {
			m.store(st, target.refs[0].v, v, t)
		}
		return ok
	}
	unmarshal := func(st *State, c *Call) ([]Out, bool) {
		if j, ok := symOf(c.args[0], "json:"); ok { // what was rendered as JSON before
			t := c.args[1].refs[0].t.(*types.Pointer).Elem()
			if !types.Identical(t, e.nodeT) {
				return nil, false
			}
			st.count("converted")
			n, ok := st.notes["converted"].integer()
			if !ok {
				m.fail("undetermined number of conversions")
			}
			doc := e.node(st, fmt.Sprintf("new%d", n), &ynode{kind: "doc", kids: []*ynode{schemaNode(j)}})
			m.store(st, c.args[1].refs[0].v, m.load(st, doc, e.nodeT), t)
			return one(st, nilVal()), true
		}
		f, ok := symOf(c.args[0], "file:")
		if !ok {
			return nil, false
		}
		docs := e.files[f]
		if docs == nil {
			return one(st, errV()), true
		}
		if !fill(st, c.args[1], docs[0], f+"#0") {
			return one(st, errV()), true
		}
		return one(st, nilVal()), true
	}
	for _, n := range []string{yamlV3 + ".Unmarshal", sigYaml + ".Unmarshal", sigYaml + ".UnmarshalStrict"} {
		m.hooks[n] = unmarshal
	}
	pass := func(pre string) hookFn { // a reader or encoder of something known
		return func(st *State, c *Call) ([]Out, bool) {
			a := c.args[0]
			if a.sym == nil && len(a.refs) == 1 && a.refs[0].v != nil {
				a = a.refs[0].v
			}
			if a.sym == nil {
				return nil, false
			}
			return one(st, unkNonNil(c.res.At(0).Type(), &Sym{pre + a.sym.s, true})), true
		}
	}
	m.hooks["bytes.NewReader"], m.hooks["bytes.NewBuffer"] = pass(""), pass("")
	m.hooks[yamlV3+".NewDecoder"], m.hooks[yamlV3+".NewEncoder"] = pass("decoder:"), pass("encoder:")
	m.hooks["(*"+yamlV3+".Decoder).Decode"] = func(st *State, c *Call) ([]Out, bool) {
		f, ok := symOf(c.args[0], "decoder:file:")
		if !ok {
			return nil, false
		}
		docs := e.files[f]
		if docs == nil {
			return one(st, errV()), true
		}
		n := int64(0)
		if v := st.notes["decoded:"+f]; v != nil {
			if n, ok = v.integer(); !ok {
				m.fail("undetermined number of documents read")
			}
		}
		if int(n) >= len(docs) {
			return one(st, e.eof), true
		}
		st.count("decoded:" + f)
		if !fill(st, c.args[1], docs[n], fmt.Sprintf("%s#%d", f, n)) {
			return one(st, errV()), true
		}
		return one(st, nilVal()), true
	}
	m.hooks["errors.Is"] = func(st *State, c *Call) ([]Out, bool) {
		if m.canon(st, c.args[1], nil, 0) != m.canon(st, e.eof, nil, 0) {
			return nil, false
		}
		return one(st, boolVal(m.canon(st, c.args[0], nil, 0) == m.canon(st, e.eof, nil, 0))), true
	}
	m.hooks["encoding/json.Marshal"] = func(st *State, c *Call) ([]Out, bool) {
		return []Out{{st: st, res: []*Val{content("json:" + m.canon(st, c.args[0], nil, 0)), nilVal()}}}, true
	}
	m.hooks["(*"+yamlV3+".Node).ShortTag"] = func(st *State, c *Call) ([]Out, bool) {
		return one(st, m.at(st, c.args[0], e.nodeT, "Tag")), true
	}
	m.hooks["("+mp+"genall.OutputRule).Open"] = func(st *State, c *Call) ([]Out, bool) {
		s, ok := c.args[2].str()
		if !ok || !c.args[1].isNil() {
			m.fail("undetermined file opened")
		}
		st.count("opened:" + s)
		return []Out{{st: st, res: []*Val{unkNonNil(c.res.At(0).Type(), &Sym{"to:" + s, true}), nilVal()}}}, true
	}
	m.hooks["(io.Closer).Close"] = func(st *State, c *Call) ([]Out, bool) { return one(st, nilVal()), true }
	m.hooks["(io.WriteCloser).Close"] = m.hooks["(io.Closer).Close"]
	m.hooks["(*"+yamlV3+".Encoder).SetIndent"] = nop
	m.hooks["(*"+yamlV3+".Encoder).Close"] = m.hooks["(io.Closer).Close"]
	put := func(st *State, f, text string) {
		old := ""
		if v := st.notes["wrote:"+f]; v != nil {
			old, _ = v.str()
			old += "\n---\n"
		}
		st.notes["wrote:"+f] = strVal(old + text)
	}
	m.hooks["(*"+yamlV3+".Encoder).Encode"] = func(st *State, c *Call) ([]Out, bool) {
		f, ok := symOf(c.args[0], "encoder:to:")
		if !ok || len(c.args[1].refs) != 1 || c.args[1].refs[0].v == nil {
			return nil, false
		}
		put(st, f, e.show(st, c.args[1].refs[0].v, 0))
		return one(st, nilVal()), true
	}
	return e
}

func (e *patchEnv) descr(id string) string {
	if strings.Contains(id, "same") {
		return "the same"
	}
	return "schema of " + id
}

// schemaNode is the node tree of a converted schema.
func schemaNode(text string) *ynode {
	return &ynode{kind: "map", kids: []*ynode{{kind: "scalar", val: "<schema>"}, {kind: "scalar", val: text}}}
}

// newSchema is the node tree made from the schema of a type.
func (e *patchEnv) newSchema(p srcPkg, kind string) *ynode {
	m, st := e.m, newState()
	id := p.path + "." + kind
	d := e.descr(id)
	if e.truncated {
		d += "<5>"
	}
	kvs := []any{"Type", strVal("object"), "Description", strVal(d)}
	if !strings.HasSuffix(p.path, "bare") {
		kvs = append(kvs, "Properties", m.mapOf(st, "p", fieldType(e.jsp, "Properties"), strVal("metadata"), structOf(e.jsp, "Type", strVal("object")), strVal("spec"), structOf(e.jsp, "Type", strVal("object"), "Description", strVal("spec of "+id))))
	}
	return schemaNode(m.canon(st, ifaceOf(e.jsp, structOf(e.jsp, kvs...)), nil, 0))
}

func made(key string) *ynode { return &ynode{kind: "scalar", tag: "!!str", val: key} }

// want is the document the patcher should write.
func (e *patchEnv) want(doc *ynode) *ynode {
	doc = doc.copy()
	spec := doc.kids[0].get("spec")
	group, kind := spec.get("group").val, spec.get("names").get("kind").val
	schema := map[string]*ynode{}
	vers := spec.get("versions")
	if vers == nil {
		return doc
	}
	for _, v := range vers.kids {
		for _, p := range e.pkgs {
			for _, k := range p.kinds {
				if p.group == group && k == kind && v.get("name") != nil && v.get("name").val == p.version {
					schema[p.version] = e.newSchema(p, k)
				}
			}
		}
	}
	if len(schema) == 0 {
		return doc
	}
	spec.without("validation")
	for _, v := range vers.kids {
		s := schema[v.get("name").val]
		switch {
		case s == nil:
			v.without("schema")
		case v.get("schema") == nil:
			v.kids = append(v.kids, made("schema"), &ynode{kind: "map", kids: []*ynode{made("openAPIV3Schema"), s}})
		case v.get("schema").get("openAPIV3Schema") == nil:
			v.get("schema").kids = append(v.get("schema").kids, made("openAPIV3Schema"), s)
		default:
			*v.get("schema").get("openAPIV3Schema") = *s
		}
	}
	return doc
}

// patchCase is a directory of manifests with sources.
type patchCase struct {
	label   string
	entries []string
	files   map[string][]*ynode
	pkgs    []srcPkg
	trunc   bool
	// err: the manifest cannot be interpreted; otherwise the files to be written
	err   bool
	write []string
}

// crd is a manifest of the kind Foo of g.io; versions are written name=state of the schema.
func crd(apiVersion, group, kind string, versions ...string) *ynode {
	var vs []*ynode
	for _, v := range versions {
		name, state, _ := strings.Cut(v, "=")
		n := ymap("name", ystr(name), "served", ystr("true"))
		old := ymap("type", ystr("object"), "properties", ymap("spec", ymap("type", ystr("string"))))
		switch state {
		case "":
			n.kids = append(n.kids, ystr("schema"), ymap("openAPIV3Schema", old))
		case "empty":
			n.kids = append(n.kids, ystr("schema"), ymap())
		case "other":
			n.kids = append(n.kids, ystr("schema"), ymap("other", ystr("x")))
		case "none":
		}
		n.kids = append(n.kids, ystr("additionalPrinterColumns"), yseq(ymap("name", ystr("A"))))
		vs = append(vs, n)
	}
	return ymap("apiVersion", ystr(apiVersion), "kind", ystr("CustomResourceDefinition"), "metadata", ymap("name", ystr("foos."+group)),
		"spec", ymap("group", ystr(group), "names", ymap("kind", ystr(kind), "plural", ystr("foos")), "versions", yseq(vs...)))
}

func document(file string, n int, content *ynode) *ynode {
	line := int64(100 * n)
	return (&ynode{kind: "doc", kids: []*ynode{content}}).number(fmt.Sprintf("%s#%d", file, n), &line)
}

const apiextV1 = "apiextensions.k8s.io/v1"

func patchCases() []patchCase {
	var r []patchCase
	add := func(c patchCase) {
		if c.files == nil {
			c.files = map[string][]*ynode{}
		}
		for f, ds := range c.files {
			for i, d := range ds {
				ds[i] = document(f, i, d)
			}
		}
		if c.entries == nil {
			for f := range c.files {
				c.entries = append(c.entries, f)
			}
			sort.Strings(c.entries)
		}
		r = append(r, c)
	}
	one := func(n *ynode) map[string][]*ynode { return map[string][]*ynode{"foos.yaml": {n}} }
	src := func(vs ...string) (ps []srcPkg) {
		for _, v := range vs {
			name, path, _ := strings.Cut(v, "=")
			if path == "" {
				path = "src"
			}
			ps = append(ps, srcPkg{"x/" + name + path, "g.io", name, []string{"Foo"}})
		}
		return ps
	}
	wr := []string{"foos.yaml"}
	// every state of one or two versions, with every choice of defined versions, and the common schema
	states := []string{"", "=none", "=empty", "=other"}
	for _, a := range states {
		for _, b := range append([]string{"-"}, states...) {
			for _, have := range [][]string{nil, {"v1"}, {"v2"}, {"v1", "v2"}, {"v1=same", "v2=same"}, {"v3"}, {"v1=bare", "v3"}} {
				for _, common := range []bool{false, true} {
					vs := []string{"v1" + a}
					if b != "-" {
						vs = append(vs, "v2"+b)
					}
					n := crd(apiextV1, "g.io", "Foo", vs...)
					if common {
						spec := n.get("spec")
						spec.kids = append([]*ynode{ystr("validation"), ymap("openAPIV3Schema", ymap("type", ystr("object")))}, spec.kids...)
					}
					add(patchCase{label: fmt.Sprintf("versions %v, defined %v, common schema %v", vs, have, common), files: one(n), pkgs: src(have...), write: wr})
				}
			}
		}
	}
	for _, have := range [][]string{{"v1", "v2", "v3"}, {"v2", "v3"}, {"v1", "v3"}, {"v3", "v2", "v1"}, {"v1=same", "v2=same", "v3=same"}, {"v1=same", "v2=same", "v3"}} {
		add(patchCase{label: fmt.Sprintf("three versions, defined %v", have), files: one(crd(apiextV1, "g.io", "Foo", "v1", "v2=none", "v3")), pkgs: src(have...), write: wr})
		add(patchCase{label: fmt.Sprintf("three versions in reverse, defined %v", have), files: one(crd(apiextV1, "g.io", "Foo", "v3", "v2", "v1")), pkgs: src(have...), write: wr})
		add(patchCase{label: fmt.Sprintf("three versions, defined %v, limited descriptions", have), files: one(crd(apiextV1, "g.io", "Foo", "v1", "v2", "v3")), pkgs: src(have...), trunc: true, write: wr})
	}
	// other kinds, groups and packages
	foo := func() *ynode { return crd(apiextV1, "g.io", "Foo", "v1", "v2") }
	bar := func() *ynode { return crd(apiextV1, "g.io", "Bar", "v1", "v2") }
	for _, ps := range [][]srcPkg{
		{{"x/a", "g.io", "v1", []string{"Bar"}}, {"x/b", "g.io", "v2", []string{"Foo"}}},
		{{"x/a", "g.io", "v1", []string{"Bar", "Foo"}}, {"x/b", "g.io", "v2", []string{"Other"}}},
		{{"x/a", "h.io", "v1", []string{"Foo", "Bar"}}, {"x/b", "g.io", "v2", []string{"Bar"}}},
		{{"x/a", "h.io", "v1", []string{"Foo"}}, {"x/b", "g.io", "v1", []string{"Foo"}}},
		{{"x/a", "-", "v1", []string{"Foo"}}, {"x/b", "g.io", "v1", []string{"Foo"}}, {"x/c", "g.io", "v1", []string{"Other"}}},
		{{"x/a", "g.io", "v1", nil}, {"x/b", "g.io", "v1", []string{"Foo"}}, {"x/c", "g.io", "v2", nil}},
		nil,
	} {
		hio := crd(apiextV1, "h.io", "Foo", "v1", "v2")
		add(patchCase{label: fmt.Sprintf("three CRDs, sources %v", ps), files: map[string][]*ynode{"foos.yaml": {foo()}, "bars.yaml": {bar()}, "hs.yaml": {hio}}, pkgs: ps, write: []string{"bars.yaml", "foos.yaml", "hs.yaml"}})
	}
	// keys that look like those of schemas, elsewhere and with other names
	for _, have := range [][]string{nil, {"v1"}, {"v2"}, {"v1", "v2"}} {
		n := foo()
		decoy := func(m *ynode, keys ...string) {
			var l []*ynode
			for _, k := range keys {
				if k == "validation" || k == "schema" || k == "openAPIV3Schema" {
					l = append(l, ystr(strings.ToUpper(k)), ymap("openAPIV3Schema", ystr("x")))
				}
				l = append(l, ystr(k+"x"), ymap(k, ymap("openAPIV3Schema", ystr("x"))), ystr("x"+k), yseq(ymap("name", ystr("v1"), "schema", ystr("x"))), ystr("x-"+k+"-x"), ymap("name", ystr("v1")))
			}
			m.kids = append(l, m.kids...)
		}
		decoy(n, "spec", "validation", "versions")
		decoy(n.get("metadata"), "spec", "validation", "versions", "schema")
		n.get("metadata").kids = append(n.get("metadata").kids, ystr("spec"), crd(apiextV1, "g.io", "Foo", "v1", "v2").get("spec"), ystr("validation"), ymap("openAPIV3Schema", ystr("x")), ystr("schema"), ystr("x"))
		decoy(n.get("spec"), "validation", "versions", "schema")
		n.get("spec").kids = append(n.get("spec").kids, ystr("schema"), ymap("openAPIV3Schema", ystr("x")), ystr("openAPIV3Schema"), ystr("x"))
		for _, v := range n.get("spec").get("versions").kids {
			decoy(v, "name", "schema", "validation", "openAPIV3Schema")
			v.kids = append(v.kids, ystr("validation"), ymap("openAPIV3Schema", ystr("x")), ystr("openAPIV3Schema"), ystr("x"))
			decoy(v.get("schema"), "openAPIV3Schema", "schema")
		}
		add(patchCase{label: fmt.Sprintf("look-alike keys, defined %v", have), files: one(n), pkgs: src(have...), write: wr})
	}
	// two manifests of one CRD
	add(patchCase{label: "two manifests of one CRD", files: map[string][]*ynode{"foos.yaml": {foo()}, "again.yaml": {foo()}}, pkgs: src("v1", "v2"), write: []string{"again.yaml", "foos.yaml"}})
	// files that are no CRDs
	other := ymap("apiVersion", ystr("apps/v1"), "kind", ystr("Deployment"), "spec", ymap("group", ystr("g.io"), "names", ymap("kind", ystr("Foo")), "versions", yseq(ymap("name", ystr("v1")))))
	noAPI := foo()
	noAPI.without("apiVersion")
	list := yseq(foo())
	add(patchCase{label: "files that are no CRDs", entries: []string{"dir.yaml/", "foos.yaml", "foos.yml", "list.yaml", "noapi.yaml", "none.yaml", "notes.txt", "other.yaml"},
		files: map[string][]*ynode{"foos.yaml": {foo()}, "other.yaml": {other}, "noapi.yaml": {noAPI}, "list.yaml": {list}, "none.yaml": nil, "foos.yml": {foo()}, "notes.txt": {foo()}}, pkgs: src("v1", "v2"), write: wr})
	// further documents
	add(patchCase{label: "a second document", files: map[string][]*ynode{"foos.yaml": {foo(), other}}, pkgs: src("v1"), write: wr})
	add(patchCase{label: "a second document, nothing defined", files: map[string][]*ynode{"foos.yaml": {foo(), other}}, write: wr})
	// CRDs that cannot be interpreted
	fault := func(label string, edit func(n *ynode)) {
		for _, alone := range []bool{true, false} {
			n := foo()
			edit(n)
			fs := map[string][]*ynode{"foos.yaml": {n}}
			if !alone {
				fs["bars.yaml"] = []*ynode{bar()}
				label += ", beside another CRD"
			}
			add(patchCase{label: label, files: fs, pkgs: append(src("v1", "v2"), srcPkg{"x/bar", "g.io", "v1", []string{"Bar"}}), err: true})
		}
	}
	for _, v := range []string{"apiextensions.k8s.io/v1beta1", "apiextensions.k8s.io/v2", "v1", "g.io/v1"} {
		fault("API version "+v, func(n *ynode) { n.get("apiVersion").val = v })
	}
	spec := func(n *ynode) *ynode { return n.get("spec") }
	ver := func(n *ynode, i int) *ynode { return spec(n).get("versions").kids[i] }
	fault("spec is no mapping", func(n *ynode) { *spec(n) = *ystr("x") })
	fault("versions are a mapping", func(n *ynode) { *spec(n).get("versions") = *ymap("v1", ystr("x")) })
	fault("versions are text", func(n *ynode) { *spec(n).get("versions") = *ystr("v1") })
	for i := range 2 {
		fault(fmt.Sprintf("version %d is text", i), func(n *ynode) { *ver(n, i) = *ystr("v1") })
		fault(fmt.Sprintf("version %d has no name", i), func(n *ynode) { ver(n, i).without("name") })
		fault(fmt.Sprintf("version %d has an empty name", i), func(n *ynode) { ver(n, i).get("name").val = "" })
		fault(fmt.Sprintf("version %d has a number for a name", i), func(n *ynode) { ver(n, i).get("name").tag = "!!int" })
		fault(fmt.Sprintf("version %d has a list for a name", i), func(n *ynode) { *ver(n, i).get("name") = *yseq(ystr("v1")) })
		fault(fmt.Sprintf("version %d has text for its schema", i), func(n *ynode) { *ver(n, i).get("schema") = *ystr("x") })
		fault(fmt.Sprintf("version %d has a list for its schema", i), func(n *ynode) { *ver(n, i).get("schema") = *yseq(ystr("x")) })
	}
	fault("kind is a list", func(n *ynode) { *spec(n).get("names").get("kind") = *yseq(ystr("Foo")) })
	fault("group is a number", func(n *ynode) { spec(n).get("group").tag = "!!int" })
	return r
}

func checkC24(c *Check) {
	w := c.W
	gt := w.typ("pkg/schemapatcher", "Generator")
	fn := w.methodOf(gt, "Generate")
	pos := w.pos(fn.Pos())
	ctxT := w.typ("pkg/genall", "GenerationContext")
	lp := w.typ("pkg/loader", "Package")
	cases := patchCases()
	base := patchMachine(w)
	c.par(len(cases), func(c *Check, worker, i int) {
		pc := cases[i]
		e := newPatchEnv(w, base)
		e.entries, e.files, e.pkgs, e.truncated = pc.entries, pc.files, pc.pkgs, pc.trunc
		m := e.m
		st := newState()
		root := m.cellOf(st, "root", lp, nil)
		ctx := m.cellOf(st, "ctx", ctxT, structOf(ctxT, "Roots", m.sliceOf(st, "roots", types.NewPointer(lp), root),
			"Collector", unkNonNil(fieldType(ctxT, "Collector"), &Sym{"collector", true}), "OutputRule", unkNonNil(fieldType(ctxT, "OutputRule"), &Sym{"out", true}),
			"InputRule", unkNonNil(fieldType(ctxT, "InputRule"), &Sym{"in", true}), "Checker", unkNonNil(fieldType(ctxT, "Checker"), &Sym{"checker", true})))
		g := structOf(gt, "ManifestsPath", strVal("manifests"))
		if pc.trunc {
			g = structOf(gt, "ManifestsPath", strVal("manifests"), "MaxDescLen", m.cellOf(st, "max", types.Typ[types.Int], constVal(int64(5))))
		}
		outs, why := attempt(m, st, fn, g, ctx)
		if len(outs) == 0 {
			c.bad("decided", pc.label, pos, "%s: not determined: %s", pc.label, why)
		}
		for _, o := range outs {
			er := errOf(o)
			if o.st.notes["errors"] != nil {
				er += " and package errors"
			}
			if pc.err {
				c.ob(er == "err", "reported", pc.label, pos, "%s: outcome %s; the manifest has to be reported", pc.label, er)
				continue
			}
			if !c.ob(er == "nil", "patched", pc.label, pos, "%s: outcome %s, expected none %s", pc.label, er, m.canon(o.st, o.res[0], nil, 0)) {
				continue
			}
			var got []string
			for k, v := range o.st.notes {
				if f, ok := strings.CutPrefix(k, "wrote:"); ok {
					got = append(got, f)
					if _, ok := v.str(); !ok {
						c.bad("decided", pc.label, pos, "%s: what is written to %s is undetermined: %.400s", pc.label, f, m.canon(o.st, v, nil, 0))
					}
				}
			}
			sort.Strings(got)
			c.ob(strings.Join(got, " ") == strings.Join(pc.write, " "), "files", pc.label, pos, "%s: written files %v, expected %v", pc.label, got, pc.write)
			for _, f := range pc.write {
				text, _ := o.st.notes["wrote:"+f].str()
				var want []string
				for i, d := range pc.files[f] {
					x := d
					if i == 0 {
						x = e.want(d)
					}
					ws := newState()
					want = append(want, e.show(ws, e.node(ws, "want", x), 0))
				}
				all := strings.Join(want, "\n---\n")
				c.ob(text == all, "document", pc.label+" "+f, pos, "%s: %s is written with …%s… where …%s… is expected", pc.label, f, differs(text, all), differs(all, text))
				n, _ := o.st.notes["opened:"+f].integer()
				c.ob(n == 1, "files", pc.label+" "+f, pos, "%s: %s is opened %d times", pc.label, f, n)
			}
		}
	})
	c.atLeast("document", 300)
	c.atLeast("reported", 40)
	c.fact("manifests", len(cases))
}

// differs is the part of a text around the first place where it differs from another.
func differs(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return a[max(0, i-80):min(len(a), i+80)]
}
