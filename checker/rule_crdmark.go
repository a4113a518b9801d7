package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// C06 for the markers of whole CRDs: every argument, followed as a named
// unknown, ends up in its documented field of the CRD, in the version the
// marker is written on and nowhere else.

type crdMarkCase struct {
	label string
	mk    func(m *M, st *State, t types.Type) *Val
	// want: the fields that change and what they hold afterwards; nil when the marker must be rejected
	want map[string]string
	err  bool
}

func crdMarkSpecs() map[string][]crdMarkCase {
	str := types.Typ[types.String]
	sy := func(n string) *Val { return symIn(str, n) }
	pstr := types.NewPointer(str)
	slice := func(m *M, st *State, n string, vs ...*Val) *Val { return m.sliceOf(st, n, str, vs...) }
	zero := func(m *M, st *State, t types.Type) *Val { return zeroVal(t) }
	meta := func(label string, ann, lab []string, want map[string]string, err bool) crdMarkCase {
		return crdMarkCase{label: label, mk: func(m *M, st *State, t types.Type) *Val {
			var a, l []*Val
			for _, s := range ann {
				a = append(a, strVal(s))
			}
			for _, s := range lab {
				l = append(l, strVal(s))
			}
			return structOf(t, "Annotations", slice(m, st, "ann", a...), "Labels", slice(m, st, "lab", l...))
		}, want: want, err: err}
	}
	return map[string][]crdMarkCase{
		"kubebuilder:subresource:status": {{label: "set", mk: zero, want: map[string]string{"Versions[v2].Subresources.Status": "&{}"}}},
		"kubebuilder:subresource:scale": {{label: "all arguments", mk: func(m *M, st *State, t types.Type) *Val {
			return structOf(t, "SpecPath", sy("a.spec"), "StatusPath", sy("a.status"), "SelectorPath", unkVal(pstr, &Sym{"a.selector", true}))
		}, want: map[string]string{"Versions[v2].Subresources.Scale": "&{SpecReplicasPath:$a.spec StatusReplicasPath:$a.status LabelSelectorPath:$a.selector}"}}},
		"kubebuilder:storageversion":  {{label: "set", mk: zero, want: map[string]string{"Versions[v2].Storage": "true"}}},
		"kubebuilder:unservedversion": {{label: "set", mk: zero, want: map[string]string{"Versions[v2].Served": "false"}}},
		"kubebuilder:skipversion":     {{label: "set", mk: zero, want: map[string]string{"Versions[v2]": "absent"}}},
		"kubebuilder:deprecatedversion": {
			{label: "with warning", mk: func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Warning", unkVal(pstr, &Sym{"a.warning", true}))
			}, want: map[string]string{"Versions[v2].Deprecated": "true", "Versions[v2].DeprecationWarning": "$a.warning"}},
			{label: "without warning", mk: zero, want: map[string]string{"Versions[v2].Deprecated": "true"}},
		},
		"kubebuilder:printcolumn": {{label: "all arguments", mk: func(m *M, st *State, t types.Type) *Val {
			return structOf(t, "Name", sy("a.name"), "Type", sy("a.type"), "JSONPath", sy("a.path"), "Description", sy("a.desc"), "Format", sy("a.format"), "Priority", symIn(types.Typ[types.Int32], "a.priority"))
		}, want: map[string]string{"Versions[v2].AdditionalPrinterColumns": "[$AdditionalPrinterColumns.v2, {Name:$a.name Type:$a.type Format:$a.format Description:$a.desc Priority:$a.priority JSONPath:$a.path}]"}}},
		"kubebuilder:selectablefield": {{label: "all arguments", mk: func(m *M, st *State, t types.Type) *Val {
			return structOf(t, "JSONPath", sy("a.path"))
		}, want: map[string]string{"Versions[v2].SelectableFields": "[$SelectableFields.v2, {JSONPath:$a.path}]"}}},
		"kubebuilder:resource": {
			{label: "all arguments", mk: func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Path", strVal("a-path"), "Singular", strVal("a-singular"), "Scope", strVal("a-scope"),
					"ShortName", slice(m, st, "short", sy("a.s0"), sy("a.s1")), "Categories", slice(m, st, "cat", sy("a.c0"), sy("a.c1")))
			}, want: map[string]string{"Names.Plural": `"a-path"`, "Names.Singular": `"a-singular"`, "Scope": `"a-scope"`,
				"Names.ShortNames": "[$a.s0, $a.s1]", "Names.Categories": "[$a.c0, $a.c1]"}},
			{label: "no scope", mk: func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Path", strVal("x"), "ShortName", slice(m, st, "short", strVal("s")))
			}, want: map[string]string{"Names.Plural": `"x"`, "Scope": `"Namespaced"`, "Names.ShortNames": `["s"]`}},
			{label: "cluster scope", mk: func(m *M, st *State, t types.Type) *Val {
				return structOf(t, "Scope", strVal("Cluster"), "Singular", strVal("y"), "Categories", slice(m, st, "cat", strVal("c")))
			}, want: map[string]string{"Names.Singular": `"y"`, "Scope": `"Cluster"`, "Names.Categories": `["c"]`}},
		},
		"kubebuilder:metadata": {
			meta("one of each", []string{"a=b"}, []string{"c=d"}, map[string]string{"ObjectMeta.Annotations": `map["a":"b"]`, "ObjectMeta.Labels": `map["c":"d"]`}, false),
			meta("annotations", []string{"a=b", "a2=b2"}, nil, map[string]string{"ObjectMeta.Annotations": `map["a":"b", "a2":"b2"]`}, false),
			meta("labels", nil, []string{"c=d", "c2=d2"}, map[string]string{"ObjectMeta.Labels": `map["c":"d", "c2":"d2"]`}, false),
			meta("values with equals signs", []string{"a=b=c=d"}, []string{"c=d=e=f"}, map[string]string{"ObjectMeta.Annotations": `map["a":"b=c=d"]`, "ObjectMeta.Labels": `map["c":"d=e=f"]`}, false),
			meta("empty values", []string{"a="}, []string{"c="}, map[string]string{"ObjectMeta.Annotations": `map["a":""]`, "ObjectMeta.Labels": `map["c":""]`}, false),
			meta("values with spaces and commas", []string{"a= b ,c"}, []string{"c= d ,e "}, map[string]string{"ObjectMeta.Annotations": `map["a":" b ,c"]`, "ObjectMeta.Labels": `map["c":" d ,e "]`}, false),
			meta("malformed annotation", []string{"a"}, nil, nil, true),
			meta("malformed label", nil, []string{"a"}, nil, true),
		},
	}
}

// labelled builds a struct whose leaves are unknowns named after their fields.
func (m *M) labelledStruct(st *State, t types.Type, id, suffix string, set map[string]*Val) *Val {
	s := t.Underlying().(*types.Struct)
	v := &Val{agg: make([]*Val, s.NumFields())}
	for i := range v.agg {
		f := s.Field(i)
		n := f.Name() + suffix
		switch {
		case set[f.Name()] != nil:
			v.agg[i] = set[f.Name()]
		case isSliceT(f.Type()):
			et, _ := arrayElem(f.Type())
			v.agg[i] = m.sliceOf(st, id+"."+n, et, symIn(et, n))
		case isPtrLike(f.Type()):
			v.agg[i] = unkVal(f.Type(), &Sym{n, true})
		default:
			if _, ok := f.Type().Underlying().(*types.Struct); ok {
				v.agg[i] = m.labelledStruct(st, f.Type(), id+"."+f.Name(), suffix, nil)
			} else {
				v.agg[i] = symIn(f.Type(), n)
			}
		}
	}
	return v
}

type crdEnv struct {
	w                            *World
	m                            *M
	crdT, specT, verT, subT, omT types.Type
}

func newCRDEnv(w *World) *crdEnv {
	return &crdEnv{w: w, m: inited(w), crdT: w.depTyp(apiextPath, "CustomResourceDefinition"), specT: w.depTyp(apiextPath, "CustomResourceDefinitionSpec"),
		verT: w.depTyp(apiextPath, "CustomResourceDefinitionVersion"), subT: w.depTyp(apiextPath, "CustomResourceSubresources")}
}

// crd builds a CRD with versions v1, v2 and v3 and otherwise unknown content.
func (e *crdEnv) crd(st *State, withSub bool) *Val {
	m := e.m
	var vers []*Val
	for _, n := range []string{"v1", "v2", "v3"} {
		sub := nilVal()
		if withSub {
			sub = m.cellOf(st, "sub."+n, e.subT, m.labelledStruct(st, e.subT, "sub."+n, "."+n, nil))
		}
		vers = append(vers, m.labelledStruct(st, e.verT, n, "."+n, map[string]*Val{"Name": strVal(n), "Subresources": sub,
			"Served": boolVal(true), "Storage": boolVal(false), "Deprecated": boolVal(false), "DeprecationWarning": nilVal()}))
	}
	spec := m.labelledStruct(st, e.specT, "spec", "", map[string]*Val{"Versions": m.sliceOf(st, "versions", e.verT, vers...)})
	omT := fieldType(e.crdT, "ObjectMeta")
	meta := m.labelledStruct(st, omT, "meta", "", map[string]*Val{"Annotations": nilVal(), "Labels": nilVal()})
	return m.cellOf(st, "crd", e.crdT, m.labelledStruct(st, e.crdT, "crd", "", map[string]*Val{"Spec": spec, "ObjectMeta": meta}))
}

// flat renders every field of a struct, structs within it field by field and versions by their name.
func (e *crdEnv) flat(st *State, v *Val, t types.Type, pre string, r map[string]string) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		p := pre + f.Name()
		x := e.m.resolve(st, e.m.child(v, fmt.Sprint(i)))
		switch {
		case types.Identical(f.Type(), types.NewSlice(e.verT)):
			es, ok := e.m.elems(st, x)
			if !ok {
				r[p] = "undetermined versions " + e.m.canon(st, x, f.Type(), 0)
				continue
			}
			var order []string
			for _, ev := range es {
				n := e.m.canon(st, e.m.getField(ev, e.verT, "Name"), nil, 0)
				n = strings.Trim(n, `"`)
				order = append(order, n)
				r["Versions["+n+"]"] = "present"
				e.flat(st, ev, e.verT, "Versions["+n+"].", r)
			}
		case types.Identical(f.Type(), types.NewPointer(e.subT)):
			if x.isNil() {
				r[p+".Status"], r[p+".Scale"] = "nil", "nil"
				continue
			}
			e.flat(st, e.m.load(st, x, e.subT), e.subT, p+".", r)
		default:
			if _, ok := f.Type().Underlying().(*types.Struct); ok && x != nil && x.agg != nil {
				np := p + "."
				if f.Name() == "Spec" && pre == "" {
					np = ""
				}
				e.flat(st, x, f.Type(), np, r)
				continue
			}
			if x != nil && x.unk && x.sym != nil {
				r[p] = "$" + x.sym.s
				continue
			}
			r[p] = e.m.canon(st, x, f.Type(), 0)
		}
	}
}

func (e *crdEnv) snap(st *State, p *Val) map[string]string {
	r := map[string]string{}
	e.flat(st, e.m.load(st, p, e.crdT), e.crdT, "", r)
	return r
}

func checkCRDMarkers(c *Check) {
	w := c.W
	e := newCRDEnv(w)
	specs := crdMarkSpecs()
	n := 0
	seen := map[string]bool{}
	for _, d := range markerTable(w, w.typ("pkg/crd", "Generator")) {
		fn := w.methodOf(d.Out, "ApplyToCRD")
		cases, ok := specs[d.Name]
		if fn == nil || !ok || d.Target != 1 || seen[d.Name] {
			continue
		}
		seen[d.Name] = true
		n++
		pos := w.pos(fn.Pos())
		for _, cs := range cases {
			for _, withSub := range []bool{false, true} {
				for _, version := range []string{"v2", "v9"} {
					m := e.m
					m.maxStep = m.steps + 200000
					st := newState()
					p := e.crd(st, withSub)
					before := e.snap(st, p)
					arg := p
					if types.Identical(deref(fn.Params[1].Type()), e.specT) {
						r := *p.refs[0]
						arg = &Val{nil_: nonBit, refs: []*Ref{{obj: r.obj, path: "/" + fmt.Sprint(fieldIndex(e.crdT, "Spec"))}}}
					}
					recv := cs.mk(m, st, d.Out)
					if _, ok := fn.Signature.Recv().Type().(*types.Pointer); ok {
						recv = m.cellOf(st, "marker", d.Out, recv)
					}
					where := fmt.Sprintf("%s (%s, other subresources %v) on version %s", d.Name, cs.label, withSub, version)
					outs := m.interp(st, fn, recv, arg, strVal(version))
					if len(outs) == 0 {
						c.bad("crd-argument-lands", d.Name, pos, "%s: no outcome", where)
					}
					for _, o := range outs {
						er := errOf(o)
						after := e.snap(o.st, p)
						versioned := false
						for k := range cs.want {
							versioned = versioned || strings.HasPrefix(k, "Versions[")
						}
						if cs.err {
							c.ob(er == "err", "crd-argument-rejected", d.Name, pos, "%s: outcome is %s, expected an error", where, er)
							continue
						}
						if er != "nil" && !(version == "v9" && versioned && er == "err") {
							c.bad("crd-argument-lands", d.Name, pos, "%s: outcome is %s", where, er)
							continue
						}
						want := map[string]string{}
						for k, v := range before {
							want[k] = v
						}
						if version == "v2" || !versioned {
							for k, v := range cs.want {
								if v == "absent" {
									for k2 := range want {
										if strings.HasPrefix(k2, k) {
											delete(want, k2)
										}
									}
									continue
								}
								want[k] = v
							}
							// an absent Resource list empties the names it would set
							if d.Name == "kubebuilder:resource" {
								for _, f := range []string{"Names.ShortNames", "Names.Categories"} {
									if cs.want[f] == "" {
										want[f] = "nil"
									}
								}
							}
						}
						keys := map[string]bool{}
						for k := range want {
							keys[k] = true
						}
						for k := range after {
							keys[k] = true
						}
						var ks []string
						for k := range keys {
							ks = append(ks, k)
						}
						sort.Strings(ks)
						for _, k := range ks {
							wv := want[k]
							ok := after[k] == wv
							rule := "crd-argument-lands-only"
							if cs.want[k] != "" {
								rule = "crd-argument-lands"
							}
							c.ob(ok, rule, d.Name, pos, "%s: %s is %s, expected %s", where, k, orNone(after[k]), orNone(wv))
						}
					}
				}
			}
		}
	}
	for name := range specs {
		if !seen[name] {
			c.bad("crd-argument-lands", name, "", "no registered type marker %s that applies to CRDs was found", name)
		}
	}
	c.fact("crd_marker_names", n)
}

func orNone(s string) string {
	if s == "" {
		return "absent"
	}
	return s
}
