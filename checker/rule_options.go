package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "conditional constant propagation over option parsing", "option lists of up to three options, every generator and rule",
		"The initialiser of the command is evaluated to its table of options, which must contain each generator, each output rule and each rule per generator, with the type that implements it, and nothing else. Option parsing, the making of a runtime and its run are interpreted abstractly for every generator, every pair of generators, every output rule as a default and per generator, in every order, with arguments and without, with unknown options, repeated generators, rules for generators that are not run, options that do not parse, and several paths; the generators, their order, their output rules, the loaded paths and the context each generator is run with must be the ones the options name.", checkC22)
}

var wantGenerators = map[string][2]string{
	"crd":                {"pkg/crd", "Generator"},
	"rbac":               {"pkg/rbac", "Generator"},
	"object":             {"pkg/deepcopy", "Generator"},
	"applyconfiguration": {"pkg/applyconfiguration", "Generator"},
	"webhook":            {"pkg/webhook", "Generator"},
	"schemapatch":        {"pkg/schemapatcher", "Generator"},
}

// wantRules names the output rules by an exported variable or type.
func wantRules(w *World) map[string]types.Type {
	vt := func(n string) types.Type {
		o := w.pkg("pkg/genall").Types.Scope().Lookup(n)
		if o == nil {
			fatalf("genall.%s not found", n)
		}
		return o.Type()
	}
	return map[string]types.Type{"dir": vt("OutputToDirectory"), "artifacts": vt("OutputArtifacts"), "none": vt("OutputToNothing"), "stdout": vt("OutputToStdout")}
}

type optEnv struct {
	w       *World
	m       *M
	reg     *Val
	gens    map[string]types.Type // option name → type
	rules   map[string]types.Type
	genName map[string]string // type name → option name
	fails   map[string]bool   // options that do not parse
	genErr  map[string]string // generator → "nil", "err"
	print   *Val              // whether errors are printed for a package
}

// globalOf finds the package variables of a type in a package.
func globalsOf(w *World, rel string, t types.Type) []*ssa.Global {
	var r []*ssa.Global
	for _, mem := range w.ssaPkg(rel).Members {
		if g, ok := mem.(*ssa.Global); ok && types.Identical(deref(g.Type()), t) {
			r = append(r, g)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

func newOptEnv(w *World, base *M) *optEnv {
	e := &optEnv{w: w, m: base.fork(), gens: map[string]types.Type{}, genName: map[string]string{}, rules: wantRules(w), fails: map[string]bool{}, genErr: map[string]string{}}
	m := e.m
	m.maxStep = 1 << 40
	for n, t := range wantGenerators {
		e.gens[n] = w.typ(t[0], t[1])
		e.genName[typeName(e.gens[n])] = n
	}
	gs := globalsOf(w, "cmd/controller-gen", types.NewPointer(w.typ("pkg/markers", "Registry")))
	if len(gs) != 1 {
		fatalf("cmd/controller-gen has %d registries of options", len(gs))
	}
	e.reg = m.content(newState(), m.global(gs[0]))
	mp := modPath + "/pkg/"
	m.hooks["(*"+mp+"markers.Definition).Parse"] = func(st *State, c *Call) ([]Out, bool) {
		raw, ok := c.args[1].str()
		if !ok {
			m.fail("an undetermined option is parsed")
		}
		d, ok := m.readDef(st, c.args[0])
		if !ok {
			m.fail("the definition an option is parsed with is not determined: %s", c.args[0])
		}
		opt := strings.TrimPrefix(raw, "+")
		if e.fails[opt] {
			return []Out{{st: st, res: []*Val{ifaceOf(d.Out, zeroVal(d.Out)), errVal("parse")}}}, true
		}
		v := symIn(d.Out, "value of "+opt)
		if d.Name == "paths" {
			v = m.sliceOf(st, "paths "+opt, types.Typ[types.String], symIn(types.Typ[types.String], opt+"#1"), symIn(types.Typ[types.String], opt+"#2"))
		}
		return []Out{{st: st, res: []*Val{ifaceOf(d.Out, v), nilVal()}}}, true
	}
	m.hooks[mp+"loader.LoadRootsWithConfig"] = func(st *State, c *Call) ([]Out, bool) {
		st.count("loads")
		st.note("load.cfg", c.args[0])
		st.note("load.paths", strVal(m.canon(st, c.args[1], nil, 0)))
		if e.fails["load"] {
			return []Out{{st: st, res: []*Val{nilVal(), errVal("load")}}}, true
		}
		return []Out{{st: st, res: []*Val{m.sliceOf(st, "roots", types.NewPointer(w.typ("pkg/loader", "Package")), unkNonNil(types.NewPointer(w.typ("pkg/loader", "Package")), &Sym{"root", true})), nilVal()}}}, true
	}
	m.hooks[mp+"loader.PrintErrors"] = func(st *State, c *Call) ([]Out, bool) {
		es, ok := m.elems(st, c.args[1])
		var ex []string
		for _, x := range es {
			ex = append(ex, m.canon(st, x, nil, 0))
		}
		if !ok && !c.args[1].isNil() {
			ex = []string{"undetermined kinds"}
		}
		st.note("printed", strVal(m.canon(st, c.args[0], nil, 0)+" except "+strings.Join(ex, ",")))
		return one(st, e.print), true
	}
	for n, t := range e.gens {
		m.hooks[w.methodOf(t, "RegisterMarkers").String()] = func(st *State, c *Call) ([]Out, bool) {
			st.note("registered "+n, strVal(m.canon(st, c.args[0], t, 0)))
			st.note("registry "+n, c.args[1])
			if e.fails["register "+n] {
				return one(st, errVal("register")), true
			}
			return one(st, nilVal()), true
		}
		ctxT := w.typ("pkg/genall", "GenerationContext")
		m.hooks[w.methodOf(t, "Generate").String()] = func(st *State, c *Call) ([]Out, bool) {
			at := func(f string) string { return m.canon(st, m.at(st, c.args[1], ctxT, f), fieldType(ctxT, f), 0) }
			chk := "nil"
			if v := m.at(st, c.args[1], ctxT, "Checker"); v.notNil() {
				chk = "set"
			} else if !v.isNil() {
				chk = "undetermined"
			}
			k := fmt.Sprintf("ran %s with %s output=%s checker=%s roots=%s", n, m.canon(st, c.args[0], t, 0), at("OutputRule"), chk, at("Roots"))
			st.count(k)
			if e.genErr[n] == "err" {
				return one(st, errVal("generate")), true
			}
			return one(st, nilVal()), true
		}
	}
	return e
}

func (e *optEnv) name(opt string) string {
	o := strings.TrimPrefix(opt, "+")
	best := ""
	for _, n := range e.optionNames() {
		if o == n || strings.HasPrefix(o, n+"=") || strings.HasPrefix(o, n+":") {
			if len(n) > len(best) {
				best = n
			}
		}
	}
	return best
}

func (e *optEnv) optionNames() []string {
	r := []string{"paths"}
	for g := range e.gens {
		r = append(r, g)
		for rule := range e.rules {
			r = append(r, "output:"+g+":"+rule)
		}
	}
	for rule := range e.rules {
		r = append(r, "output:"+rule)
	}
	sort.Strings(r)
	return r
}

// want computes what a list of options must select, or an error.
func (e *optEnv) want(opts []string) (gens []string, rules []string, paths []string, err bool) {
	var names, vals []string
	def := ""
	by := map[string]string{}
	for _, o := range opts {
		n, raw := e.name(o), strings.TrimPrefix(o, "+")
		switch {
		case n == "" || e.fails[raw]:
			return nil, nil, nil, true
		case n == "paths":
			paths = append(paths, "$"+raw+"#1", "$"+raw+"#2")
		case e.gens[n] != nil:
			if contains(names, n) {
				return nil, nil, nil, true
			}
			names, vals = append(names, n), append(vals, e.show(e.gens[n], raw))
		default:
			p := strings.Split(n, ":")
			v := e.show(e.rules[p[len(p)-1]], raw)
			if len(p) == 3 {
				by[p[1]] = v
			} else {
				def = v
			}
		}
	}
	for g := range by {
		if !contains(names, g) {
			return nil, nil, nil, true
		}
	}
	for _, n := range names {
		switch {
		case by[n] != "":
			rules = append(rules, by[n])
		case def != "":
			rules = append(rules, def)
		default:
			rules = append(rules, e.show2(e.rules["artifacts"], structOf(e.rules["artifacts"], "Config", strVal("config/"+n))))
		}
	}
	return vals, rules, paths, false
}

func (e *optEnv) show(t types.Type, raw string) string {
	return e.show2(t, symIn(t, "value of "+raw))
}
func (e *optEnv) show2(t types.Type, v *Val) string {
	return e.m.canon(newState(), ifaceOf(t, v), nil, 0)
}

func (e *optEnv) check(c *Check, key string, opts ...string) {
	w, m := e.w, e.m
	st := newState()
	fn := w.fn("pkg/genall", "FromOptionsWithConfig")
	pos := w.pos(fn.Pos())
	var ov []*Val
	for _, o := range opts {
		ov = append(ov, strVal(o))
	}
	cfg := m.cellOf(st, "cfg", deref(fn.Signature.Params().At(0).Type()), nil)
	outs := m.interp(st, fn, cfg, e.reg, m.sliceOf(st, "options", types.Typ[types.String], ov...))
	gens, rules, paths, wantErr := e.want(opts)
	wantErr = wantErr || e.fails["load"]
	for _, g := range gens {
		wantErr = wantErr || e.fails["register "+e.genOf(g)]
	}
	if len(outs) == 0 {
		c.bad("options", key, pos, "options %q: no outcome", opts)
	}
	rtT, orT := w.typ("pkg/genall", "Runtime"), w.typ("pkg/genall", "OutputRules")
	forGen := w.methodOf(orT, "ForGenerator")
	for _, o := range outs {
		er := errOf(o)
		if wantErr {
			c.ob(er == "err", "rejected", key, pos, "options %q must be rejected, but the outcome is %s", opts, er)
			continue
		}
		if !c.ob(er == "nil", "accepted", key, pos, "options %q: the outcome is %s", opts, er) {
			continue
		}
		rt := o.res[0]
		gs, ok := m.elems(o.st, m.at(o.st, rt, rtT, "Generators"))
		if !ok && len(gens) > 0 {
			c.bad("selects", key, pos, "options %q: the generators are not determined", opts)
			continue
		}
		var got, gotRules []string
		seen := map[string]bool{}
		gt := w.typ("pkg/genall", "Generator")
		for _, g := range gs {
			got = append(got, m.canon(o.st, m.load(o.st, g, gt), nil, 0))
			id, _ := g.ident()
			c.ob(id != "" && !seen[id], "own-instance", key, pos, "options %q: two generators share one identity", opts)
			seen[id] = true
			for _, r := range m.interp(o.st, forGen, m.at(o.st, rt, rtT, "OutputRules"), g) {
				gotRules = append(gotRules, m.canon(r.st, r.res[0], nil, 0))
			}
		}
		c.ob(fmt.Sprint(got) == fmt.Sprint(gens), "selects", key, pos, "options %q select generators %v, expected %v", opts, got, gens)
		c.ob(fmt.Sprint(gotRules) == fmt.Sprint(rules), "rules", key, pos, "options %q: output rules %v, expected %v", opts, gotRules, rules)
		gp := "nil"
		if v := o.st.notes["load.paths"]; v != nil {
			gp, _ = v.str()
		}
		wp := "[" + strings.Join(paths, ", ") + "]"
		c.ob(gp == wp || (gp == "nil" && paths == nil), "paths", key, pos, "options %q load %s, expected %s", opts, gp, wp)
		c.ob(sameRef(o.st.notes["load.cfg"], cfg), "config", key, pos, "options %q: packages are loaded with another configuration", opts)
		e.registered(c, key, pos, o.st, opts, gens, m.at(o.st, rt, rtT, "GenerationContext", "Collector"))
		e.run(c, key, o.st, rt, opts, gens, rules)
	}
}

func (e *optEnv) genOf(shown string) string {
	for n, t := range e.gens {
		if strings.HasPrefix(shown, typeName(t)+"(") {
			return n
		}
	}
	return ""
}

// registered checks that exactly the selected generators registered their markers, in one registry.
func (e *optEnv) registered(c *Check, key, pos string, st *State, opts, gens []string, coll *Val) {
	for n, t := range e.gens {
		want := ""
		for _, g := range gens {
			if e.genOf(g) == n {
				want = g
			}
		}
		got := ""
		if v := st.notes["registered "+n]; v != nil {
			got, _ = v.str()
			got = typeName(t) + "(" + got + ")"
		}
		c.ob(got == want, "registers", key, pos, "options %q: markers registered of %s, expected of %s", opts, got, want)
		if coll != nil && want != "" {
			reg := e.m.at(st, coll, e.w.typ("pkg/markers", "Collector"), "Registry")
			c.ob(sameRef(reg, st.notes["registry "+n]), "registers", key, pos, "options %q: the markers of %s are not registered where they are looked up", opts, n)
		}
	}
}

// run checks which generators a runtime runs, with which output rule and checker, and its result.
func (e *optEnv) run(c *Check, key string, st0 *State, rt *Val, opts, gens, rules []string) {
	w, m := e.w, e.m
	fn := w.methodOf(w.typ("pkg/genall", "Runtime"), "Run")
	pos := w.pos(fn.Pos())
	needs := w.typ("pkg/genall", "NeedsTypeChecking").Underlying().(*types.Interface)
	fails := []map[string]string{{}}
	for _, g := range gens {
		fails = append(fails, map[string]string{e.genOf(g): "err"})
	}
	for _, f := range fails {
		for _, pr := range []bool{false, true} {
			e.genErr, e.print = f, boolVal(pr)
			want := map[string]bool{}
			for i, g := range gens {
				n := e.genOf(g)
				t := e.gens[n]
				chk := "nil"
				if types.Implements(t, needs) || types.Implements(types.NewPointer(t), needs) {
					chk = "set"
				}
				in := strings.TrimSuffix(strings.TrimPrefix(g, typeName(t)+"("), ")")
				want[fmt.Sprintf("ran %s with %s output=%s checker=%s roots=[$root]", n, in, rules[i], chk)] = true
			}
			wantRes := pr || len(f) > 0 || len(gens) == 0
			outs := m.interp(st0.clone(), fn, rt)
			if len(outs) == 0 {
				c.bad("run", key, pos, "options %q: the run never returns", opts)
			}
			for _, o := range outs {
				if !c.ob(o.panics == "", "run", key, pos, "options %q: the run panics: %s", opts, o.panics) {
					continue
				}
				got := map[string]bool{}
				for k, v := range o.st.notes {
					if strings.HasPrefix(k, "ran ") {
						n, ok := v.integer()
						got[k] = ok && n == 1
					}
				}
				for k := range want {
					c.ob(got[k], "runs-selected", key, pos, "options %q (failing: %v): not %s exactly once, but %v", opts, f, k, sortedKeys(got))
				}
				for k := range got {
					c.ob(want[k], "runs-only-selected", key, pos, "options %q: %s", opts, k)
				}
				res, known := o.res[0].boolean()
				c.ob(known && res == wantRes, "run-result", key, pos, "options %q: the run with failing generators %v and package errors %v reports %s, expected %v", opts, f, pr, o.res[0], wantRes)
				if len(gens) > 0 {
					p, _ := o.st.notes["printed"].str()
					c.ob(p == "[$root] except 3", "run-prints", key, pos, "options %q: the errors printed are those of %q, expected those of all roots except type errors", opts, p)
				}
			}
		}
	}
	e.genErr = map[string]string{}
}

// which checks the registry made for marker help.
func (e *optEnv) which(c *Check, key string, opts ...string) {
	w, m := e.w, e.m
	st := newState()
	fn := w.fn("pkg/genall", "RegistryFromOptions")
	pos := w.pos(fn.Pos())
	var ov []*Val
	for _, o := range opts {
		ov = append(ov, strVal(o))
	}
	gens, _, _, wantErr := e.want(opts)
	for _, g := range gens {
		wantErr = wantErr || e.fails["register "+e.genOf(g)]
	}
	outs := m.interp(st, fn, e.reg, m.sliceOf(st, "options", types.Typ[types.String], ov...))
	if len(outs) == 0 {
		c.bad("help-registry", key, pos, "options %q: no outcome", opts)
	}
	for _, o := range outs {
		er := errOf(o)
		if wantErr {
			c.ob(er == "err", "help-registry", key, pos, "options %q must be rejected, but the outcome is %s", opts, er)
			continue
		}
		if c.ob(er == "nil", "help-registry", key, pos, "options %q: the outcome is %s", opts, er) {
			e.registered(c, key, pos, o.st, opts, gens, nil)
			for n := range e.gens {
				if r := o.st.notes["registry "+n]; r != nil {
					c.ob(sameRef(r, o.res[0]), "help-registry", key, pos, "options %q: the markers of %s go to another registry", opts, n)
				}
			}
		}
	}
}

func checkC22(c *Check) {
	w := c.W
	// the table of options
	defs, _ := optionTable(w, "cmd/controller-gen")
	e0 := &optEnv{w: w, gens: map[string]types.Type{}, rules: wantRules(w)}
	for n, t := range wantGenerators {
		e0.gens[n] = w.typ(t[0], t[1])
	}
	want := map[string]types.Type{"paths": w.typ("pkg/genall", "InputPaths")}
	for n, t := range e0.gens {
		want[n] = t
		for r, rt := range e0.rules {
			want["output:"+n+":"+r] = rt
		}
	}
	for r, rt := range e0.rules {
		want["output:"+r] = rt
	}
	seen := map[string]int{}
	for _, d := range defs {
		seen[d.Name]++
		t := want[d.Name]
		c.ob(t != nil, "option-table", d.Name, "", "option %q is not one of the documented options", d.Name)
		if t != nil {
			c.ob(types.Identical(t, d.Out), "option-table", d.Name, "", "option %q is a %s, expected %s", d.Name, typeName(d.Out), typeName(t))
			c.ob(d.Target == 0, "option-table", d.Name, "", "option %q is registered for a %s", d.Name, targetName(d.Target))
		}
	}
	for n := range want {
		c.ob(seen[n] == 1, "option-table", n, "", "option %q is registered %d times, expected once", n, seen[n])
	}
	for _, gt := range generatorTypes(w) {
		known := false
		for _, t := range e0.gens {
			known = known || types.Identical(t, gt)
		}
		if p := gt.Obj().Pkg().Path(); strings.HasPrefix(p, modPath+"/pkg/") {
			c.ob(known, "generator-is-option", typeName(gt), w.pos(gt.Obj().Pos()), "generator %s is no option", typeName(gt))
		}
	}

	base := initedWith(w, nil, "cmd/controller-gen")
	type job struct {
		key   string
		opts  []string
		fails []string
	}
	var jobs []job
	add := func(key string, opts ...string) { jobs = append(jobs, job{key: key, opts: opts}) }
	failing := func(key string, f string, opts ...string) {
		jobs = append(jobs, job{key: key, opts: opts, fails: []string{f}})
	}
	gens, rules := sortedKeys(e0.gens), sortedKeys(e0.rules)
	add("nothing")
	add("paths only", "paths=a", "paths={b,c}")
	for i, g := range gens {
		add("one generator", g)
		add("one generator", "+"+g)
		add("one generator", g+":arg=1", "paths=./...")
		add("generator twice", g, g)
		add("generator twice", g+":arg=1", "output:none", g)
		failing("unparsable", g, g)
		failing("unparsable", g+":arg=1", "paths=a", g+":arg=1")
		failing("markers not registered", "register "+g, g)
		failing("not loadable", "load", g, "paths=x")
		h := gens[(i+1)%len(gens)]
		k := gens[(i+2)%len(gens)]
		for _, o := range gens {
			if o != g {
				add("two generators", g, o)
				add("two generators", "paths=p", o+":x=y", g, "paths=q")
			}
		}
		add("three generators", k, g, h)
		add("generator twice", g, h, g)
		for j, r := range rules {
			q := rules[(j+1)%len(rules)]
			add("default rule", g, "output:"+r)
			add("default rule", "output:"+r+"=x", h, g)
			add("default rule twice", "output:"+q, g, "output:"+r)
			add("own rule", g, "output:"+g+":"+r)
			add("own rule", "output:"+g+":"+r+"=./x", h, g)
			add("own rule", "output:"+g+":"+r+":config=x,code=y", g, k)
			add("own and default rule", g, h, "output:"+r, "output:"+g+":"+q)
			add("own and default rule", "output:"+g+":"+q, "output:"+r, g, h)
			add("two own rules", g, h, "output:"+h+":"+r, "output:"+g+":"+q)
			add("own rule twice", g, "output:"+g+":"+q, "output:"+g+":"+r)
			add("rule of another", g, "output:"+h+":"+r)
			add("rule of another", "output:"+h+":"+r, "output:"+g+":"+q, g)
			add("rule of another", "output:"+h+":"+r)
			failing("unparsable", "output:"+r, g, "output:"+r)
			failing("unparsable", "output:"+g+":"+r, g, "output:"+g+":"+r)
		}
		for _, u := range []string{"nope", "", "+", "output", "output:nope", "output:" + g, "output:nope:dir", "output:" + g + ":nope", g + "x", "nope:" + g, "path=x", "Paths=x", "output=dir", ":", "="} {
			add("unknown option", g, u)
			add("unknown option", u)
		}
	}
	failing("unparsable", "paths=x", "paths=x")
	envs := make([]*optEnv, 8)
	for i := range envs {
		envs[i] = newOptEnv(w, base)
	}
	c.par(len(jobs), func(c *Check, worker, i int) {
		e, j := envs[worker], jobs[i]
		e.fails = map[string]bool{}
		for _, f := range j.fails {
			e.fails[f] = true
		}
		e.m.adverse = 0
		e.check(c, j.key, j.opts...)
		e.which(c, j.key, j.opts...)
		for e.m.adverse = 1; e.m.adverse < 3; e.m.adverse++ {
			e.check(c, j.key, j.opts...)
		}
	})
	c.fact("option_lists", len(jobs))
	for _, r := range []string{"selects", "rules", "paths", "rejected", "registers", "runs-selected", "run-result"} {
		c.atLeast(r, 100)
	}
}
