package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

func init() {
	register("C21", "abstract interpretation of the Go-code generators, the package loader and the command, with the emitted header parsed as a build constraint", "header files absent, without and with a year; formatting succeeds or fails; no, own and repeated load tags",
		"The two generators of Go files beside sources are interpreted to the text they emit, for every header setting. The text must open with a build constraint followed by a blank line, mention nothing but the default load tag in it, carry the generated-code notice before the package clause, keep the header text, and be gofmt-formatted when written; a formatting failure must be recorded. The flags that reach the package loader must set the same tag unless the caller passes other tags.", checkC21)
}

func checkC21(c *Check) {
	w := c.W
	tags := map[string]bool{}
	c.checkLoadTags(tags)
	if !c.ob(len(tags) == 1, "tag", "default", "-", "the default load tag is not determined: %v", tags) {
		return
	}
	tag := ""
	for t := range tags {
		tag = t
	}
	for _, g := range []string{"pkg/deepcopy", "cmd/helpgen"} {
		gt := w.typ(g, "Generator")
		if w.methodOf(gt, "Generate") == nil {
			fatalf("%s.Generator has no Generate", g)
		}
		var e *deepEnv
		var marks func(string) []any
		var pkgMarks []any
		var tn string
		if g == "pkg/deepcopy" {
			e = newDeepEnv(w)
			pkgMarks = []any{"kubebuilder:object:generate", ifaceOf(types.Typ[types.Bool], boolVal(true))}
			marks = func(string) []any { return nil }
		} else {
			e = newDeepEnv(w)
			e.m = initedWith(w, func(m *M) {
				for k, h := range e.m.hooks {
					m.hooks[k] = h
				}
			}, g)
			for _, d := range markerTable(w, gt) {
				out := d.Out
				tn = d.Name
				marks = func(string) []any { return []any{tn, ifaceOf(out, zeroVal(out))} }
			}
			if marks == nil {
				fatalf("%s registers no marker", g)
			}
		}
		e.gen = gt
		pos := w.pos(w.methodOf(gt, "Generate").Pos())
		src := "package v1\n// T is a type.\ntype T struct { P *int }\ntype Second struct { M map[string]*T }\n"
		for _, hdr := range []struct{ name, text, year, want string }{
			{"none", "", "", ""}, {"none with a year", "", "2031", ""},
			{"block comment", "/*\nCopyright YEAR The Authors\n*/\n", "2031", "The Authors"},
			{"line comment", "// Copyright (c) The Authors", "", "The Authors"},
			{"empty file", "\n", "2031", ""},
		} {
			for _, bad := range []bool{false, true} {
				key := fmt.Sprintf("%s with header %s", g, hdr.name)
				if bad {
					key += ", formatting fails"
				}
				hv := structOf(gt, "Year", strVal(hdr.year))
				if hdr.text != "" {
					hv = structOf(gt, "HeaderFile", strVal("header.txt"), "Year", strVal(hdr.year))
				}
				pkg, files, info, err := e.typeCheck("gen.example/hdr", src)
				if err != nil {
					fatalf("model package: %v", err)
				}
				n := 0
				for _, r := range e.generate(pkg, files, info, pkgMarks, marks, func(st *State) {
					if hdr.text != "" {
						st.note("headertext", strVal(hdr.text))
					}
					if bad {
						st.note("badformat", strVal("x"))
					}
				}, hv) {
					if hdr.text != "" && r.nothing && r.errors {
						continue // the header could not be read
					}
					if !c.ob(r.unknown == "" && !r.nothing, "generates", key, pos, "%s: nothing is generated: %s", key, r.unknown) {
						continue
					}
					n++
					if bad {
						c.ob(r.errors, "format-failure", key, pos, "%s: the failure is not recorded", key)
						continue
					}
					c.checkHeader(key, pos, tag, r.text)
					if hdr.want != "" {
						i, j := strings.Index(r.text, hdr.want), strings.Index(r.text, "\npackage ")
						c.ob(i >= 0 && i < j, "header-text", key, pos, "%s: the header text is not before the package clause", key)
					}
					opened := r.st.notes["file"]
					if opened == nil {
						continue // the output could not be opened
					}
					cont := r.st.notes["content"]
					if !c.ob(cont != nil, "written", key, pos, "%s: the output is opened but nothing is written", key) {
						continue
					}
					got, _ := bytesText(cont)
					c.ob(strings.HasPrefix(got, "formatted:"), "formatted", key, pos, "%s: what is written is not the formatted source", key)
					f, _ := opened.str()
					c.ob(strings.HasPrefix(f, "zz_generated.") && strings.HasSuffix(f, ".go"), "file-name", key, pos, "%s: the file is named %s", key, opened)
				}
				c.ob(n > 0, "generates", key+" at all", pos, "%s: no outcome was analysed", key)
			}
		}
	}
	c.checkParserTags(tag)
	c.atLeast("constraint", 8)
	c.atLeast("formatted", 8)
	c.atLeast("load-tags", 6)
}

// checkHeader judges the emitted text up to its package clause.
func (c *Check) checkHeader(key, pos, tag, text string) {
	formatted, err := format.Source([]byte(text))
	if !c.ob(err == nil, "formats", key, pos, "%s: the generated source cannot be formatted: %v", key, err) {
		return
	}
	for what, t := range map[string]string{"as generated": text, "as formatted": string(formatted)} {
		lines := strings.Split(strings.TrimLeft(t, "\n"), "\n")
		x, err := constraint.Parse(lines[0])
		if !c.ob(err == nil && constraint.IsGoBuild(lines[0]), "constraint", key+" "+what, pos, "%s: the source %s does not open with a build constraint but with %q", key, what, lines[0]) {
			continue
		}
		c.ob(len(lines) > 1 && strings.TrimSpace(lines[1]) == "", "constraint-set-off", key+" "+what, pos, "%s: no blank line follows the build constraint in the source %s", key, what)
		names := map[string]bool{}
		x.Eval(func(n string) bool { names[n] = true; return false })
		x.Eval(func(n string) bool { names[n] = true; return true })
		on := x.Eval(func(n string) bool { return n == tag })
		off := x.Eval(func(n string) bool { return n != tag })
		none := x.Eval(func(n string) bool { return false })
		c.ob(!on && off && none && len(names) == 1, "constraint", key+" "+what+" tag", pos, "%s: the build constraint %q does not exclude the file exactly under %s", key, lines[0], tag)
		f, err := parser.ParseFile(token.NewFileSet(), "g.go", t, parser.ParseComments|parser.SkipObjectResolution)
		if c.ob(err == nil, "parses", key+" "+what, pos, "%s: the source %s does not parse: %v", key, what, err) {
			c.ob(ast.IsGenerated(f), "notice", key+" "+what, pos, "%s: the source %s lacks the generated-code notice before its package clause", key, what)
		}
	}
}

// effectiveTags gives the tags the last -tags flag sets.
func effectiveTags(flags []string) map[string]bool {
	r := map[string]bool{}
	for _, f := range flags {
		f = strings.TrimPrefix(f, "-")
		v, ok := strings.CutPrefix(strings.TrimPrefix(f, "-"), "tags=")
		if !ok {
			continue
		}
		r = map[string]bool{}
		for _, t := range strings.FieldsFunc(v, func(r rune) bool { return r == ',' || r == ' ' }) {
			r[t] = true
		}
	}
	return r
}

// checkLoadTags evaluates the flags packages are loaded with.
func (c *Check) checkLoadTags(tags map[string]bool) {
	w := c.W
	cfgT := w.depTyp("golang.org/x/tools/go/packages", "Config")
	// what the command passes on
	_, m := optionTable(w, "cmd/controller-gen")
	mainFlags := func(set []string) ([]string, bool) {
		m := m.fork()
		var over map[string]func(*M, *State) *Val
		if set != nil {
			over = map[string]func(*M, *State) *Val{"load-build-tags": func(m *M, st *State) *Val {
				var vs []*Val
				for _, s := range set {
					vs = append(vs, strVal(s))
				}
				return m.sliceOf(st, "tags", types.Typ[types.String], vs...)
			}}
		}
		outs, pos := interpMain(w, "cmd/controller-gen", over, false, 1, false, m)
		var res []string
		ok := false
		for _, o := range outs {
			cfg := o.st.notes["config"]
			if cfg == nil {
				continue
			}
			bf := m.at(o.st, cfg, cfgT, "BuildFlags")
			fs, good := m.strSlice(o.st, bf)
			if !good && !bf.isNil() {
				c.ob(false, "load-tags", "controller-gen", pos, "the build flags controller-gen passes on are not determined: %s", bf)
				continue
			}
			res, ok = fs, true
		}
		return res, ok
	}
	flags, ok := mainFlags(nil)
	if !c.ob(ok, "load-tags", "controller-gen", "cmd/controller-gen", "controller-gen passes no package configuration on") {
		return
	}
	// what the loader does with it
	loadFlags := func(given []string, nilCfg bool) (out [][]string) {
		m := inited(w)
		st := newState()
		var vs []*Val
		for _, s := range given {
			vs = append(vs, strVal(s))
		}
		bf := nilVal()
		if given != nil {
			bf = m.sliceOf(st, "flags", types.Typ[types.String], vs...)
		}
		m.hooks["golang.org/x/tools/go/packages.Load"] = func(st *State, c *Call) ([]Out, bool) {
			st.note("loaded", m.at(st, c.args[0], cfgT, "BuildFlags"))
			return []Out{{st: st, res: []*Val{nilVal(), errVal("load")}}}, true
		}
		var outs []Out
		sv := m.sliceOf(st, "roots", types.Typ[types.String], strVal("example.com/pkg"))
		if nilCfg {
			outs = m.interp(st, w.fn("pkg/loader", "LoadRoots"), sv)
		} else {
			outs = m.interp(st, w.fn("pkg/loader", "LoadRootsWithConfig"), m.cellOf(st, "cfg", cfgT, structOf(cfgT, "BuildFlags", bf)), sv)
		}
		for _, o := range outs {
			if v := o.st.notes["loaded"]; v != nil {
				fs, good := m.strSlice(o.st, v)
				if !good {
					fs = []string{"undetermined"}
				}
				out = append(out, fs)
			}
		}
		return out
	}
	lpos := w.pos(w.fn("pkg/loader", "LoadRootsWithConfig").Pos())
	one := func(what string, got [][]string, want func(map[string]bool) bool, exp string) {
		if !c.ob(len(got) > 0, "load-tags", what, lpos, "%s: packages are not loaded", what) {
			return
		}
		for _, fs := range got {
			c.ob(want(effectiveTags(fs)), "load-tags", what+" flags", lpos, "%s: packages are loaded with flags %q, expected %s", what, fs, exp)
		}
	}
	def := ""
	for _, fs := range loadFlags(nil, true) {
		for t := range effectiveTags(fs) {
			def = t
			tags[t] = true
		}
	}
	for t := range effectiveTags(flags) {
		tags[t] = true
	}
	has := func(x map[string]bool) bool { return x[def] && len(x) == 1 }
	one("a library caller without a configuration", loadFlags(nil, true), has, "the default tag")
	one("a library caller with an empty configuration", loadFlags(nil, false), has, "the default tag")
	one("a library caller with other flags", loadFlags([]string{"-mod=vendor"}, false), has, "the default tag")
	one("controller-gen by default", loadFlags(flags, false), has, "the default tag")
	own := func(x map[string]bool) bool { return x["own"] && !x[def] }
	one("a library caller with its own tags", loadFlags([]string{"-tags=own"}, false), own, "the caller's tags")
	if fs, ok := mainFlags([]string{def, "own"}); c.ob(ok, "load-tags", "controller-gen with tags", "cmd/controller-gen", "controller-gen passes no package configuration on") {
		one("controller-gen with tags of the user", loadFlags(fs, false), func(x map[string]bool) bool { return x["own"] && x[def] }, "all the user's tags")
	}
}

// checkParserTags evaluates the tags the apply-configuration generator reads packages with.
func (c *Check) checkParserTags(tag string) {
	w := c.W
	e := newDeepEnv(w)
	e.gen = w.typ("pkg/applyconfiguration", "Generator")
	optT := w.depTyp("k8s.io/gengo/v2/parser", "Options")
	pos := w.pos(w.methodOf(e.gen, "Generate").Pos())
	n := 0
	e.m.hooks["k8s.io/gengo/v2/parser.NewWithOptions"] = func(st *State, c2 *Call) ([]Out, bool) {
		n++
		bt, ok := c2.m.strSlice(st, c2.m.getField(c2.args[0], optT, "BuildTags"))
		has := false
		for _, t := range bt {
			has = has || t == tag
		}
		c.ob(ok && has, "parser-tags", "applyconfiguration", pos, "the apply-configuration generator reads packages with tags %q, so generated files feed back into it", bt)
		return nil, false
	}
	e.m.hooks["k8s.io/gengo/v2/parser.New"] = func(st *State, c2 *Call) ([]Out, bool) {
		n++
		c.ob(false, "parser-tags", "applyconfiguration", pos, "the apply-configuration generator reads packages without tags, so generated files feed back into it")
		return nil, false
	}
	on := ifaceOf(types.Typ[types.Bool], boolVal(true))
	pkg, files, info, err := e.typeCheck("gen.example/apply", "package v1\ntype T struct { A int }\n")
	if err != nil {
		fatalf("model package: %v", err)
	}
	e.generate(pkg, files, info, []any{"kubebuilder:ac:generate", on}, func(string) []any { return nil }, nil, nil)
	c.ob(n > 0, "parser-tags", "applyconfiguration reads", pos, "the apply-configuration generator was not seen reading packages")
}
