package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() {
	register("C15", "conditional constant propagation over the role generator", "rule sets that agree and differ in every combination of dimensions",
		"The role generator is interpreted abstractly over packages holding RBAC markers; the rule sets cover every relation (equal, disjoint, overlapping, empty) of two rules in each dimension, all sets of up to three rules (four in the thorough tier) over a grid in which they differ in one or more dimensions, namespaces, packages, the core group and the verb '*'. The access granted by the generated roles, expanded to single permissions, must equal the access the markers list, per namespace; every list must be sorted without duplicates; the result must not depend on the order in which maps are visited.", checkC15)
}

type rbacRule struct {
	Groups, Resources, ResourceNames, Verbs, URLs []string
	NS                                            string
}

func (r rbacRule) String() string {
	return fmt.Sprintf("{ns=%q groups=%q resources=%q names=%q urls=%q verbs=%q}", r.NS, r.Groups, r.Resources, r.ResourceNames, r.URLs, r.Verbs)
}

type rbacEnv struct {
	*genEnv
	ruleT types.Type
}

func newRBACEnv(w *World) *rbacEnv {
	return &rbacEnv{genEnv: newGenEnv(w), ruleT: w.typ("pkg/rbac", "Rule")}
}

// expand lists the single permissions of rules; core is the empty group when
// the rules come from markers.
func expandRules(rs []rbacRule, markers bool) map[string]bool {
	out := map[string]bool{}
	for _, r := range rs {
		star := false
		for _, v := range r.Verbs {
			star = star || v == "*"
		}
		for _, v := range r.Verbs {
			if star {
				v = "*"
			}
			for _, g := range r.Groups {
				if markers && g == "core" {
					g = ""
				}
				for _, res := range r.Resources {
					ns := r.ResourceNames
					if len(ns) == 0 {
						ns = []string{"<any>"}
					}
					for _, n := range ns {
						out[fmt.Sprintf("resource group=%q %s name=%s verb=%s", g, res, n, v)] = true
					}
				}
			}
			for _, u := range r.URLs {
				out[fmt.Sprintf("url %s verb=%s", u, v)] = true
			}
		}
	}
	// a permission for all verbs covers the others
	for k := range out {
		if i := strings.LastIndex(k, " verb="); !strings.HasSuffix(k, " verb=*") && out[k[:i]+" verb=*"] {
			delete(out, k)
		}
	}
	return out
}

type rbacRole struct {
	kind, api, name, ns string
	rules               []rbacRule
}

// readRoles reads the roles of an outcome back.
func (e *rbacEnv) readRoles(st *State, objs *Val) ([]rbacRole, string) {
	m := e.m
	es, ok := m.elems(st, objs)
	if objs.isNil() {
		return nil, ""
	}
	if !ok {
		return nil, "undetermined roles"
	}
	var out []rbacRole
	for _, o := range es {
		if len(o.refs) != 1 || o.refs[0].t == nil || o.unk {
			return nil, "undetermined role " + m.canon(st, o, nil, 0)
		}
		t, v := o.refs[0].t, o.refs[0].v
		if p, ok := t.(*types.Pointer); ok {
			t, v = p.Elem(), m.load(st, v, p.Elem())
		}
		var bad string
		str := func(v *Val) string {
			s, ok := m.resolve(st, v).str()
			if !ok {
				bad = "undetermined value " + m.canon(st, v, nil, 0)
			}
			return s
		}
		list := func(v *Val) []string {
			v = m.resolve(st, v)
			if v.isNil() {
				return nil
			}
			ss, ok := m.strSlice(st, v)
			if !ok {
				bad = "undetermined list " + m.canon(st, v, nil, 0)
			}
			return ss
		}
		meta, omT := m.getField(v, t, "ObjectMeta"), fieldType(t, "ObjectMeta")
		tm, tmT := m.getField(v, t, "TypeMeta"), fieldType(t, "TypeMeta")
		r := rbacRole{kind: str(m.getField(tm, tmT, "Kind")), api: str(m.getField(tm, tmT, "APIVersion")), name: str(m.getField(meta, omT, "Name")), ns: str(m.getField(meta, omT, "Namespace"))}
		rt, _ := arrayElem(fieldType(t, "Rules"))
		rv := m.resolve(st, m.getField(v, t, "Rules"))
		rs, ok := m.elems(st, rv)
		if !ok && !rv.isNil() {
			return nil, "undetermined rules"
		}
		for _, x := range rs {
			x = m.resolve(st, x)
			r.rules = append(r.rules, rbacRule{Groups: list(m.getField(x, rt, "APIGroups")), Resources: list(m.getField(x, rt, "Resources")),
				ResourceNames: list(m.getField(x, rt, "ResourceNames")), Verbs: list(m.getField(x, rt, "Verbs")), URLs: list(m.getField(x, rt, "NonResourceURLs"))})
		}
		if bad != "" {
			return nil, bad
		}
		if want := map[string]string{"ClusterRole": "ClusterRole", "Role": "Role"}[r.kind]; !strings.HasSuffix(typeName(t), "."+want) || want == "" {
			return nil, "object of type " + typeName(t) + " says it is a " + r.kind
		}
		out = append(out, r)
	}
	return out, ""
}

// run interprets the generator on the rules of each package.
func (e *rbacEnv) run(pkgs [][]rbacRule) ([]rbacRole, string) {
	st := newState()
	e.roots, e.marks = nil, map[*Obj][]any{}
	for i, rs := range pkgs {
		var vs []*Val
		for j, r := range rs {
			id := fmt.Sprintf("rule%d.%d", i, j)
			sl := func(n string, x []string) *Val {
				if x == nil {
					return nilVal()
				}
				var ss []*Val
				for _, s := range x {
					ss = append(ss, strVal(s))
				}
				return e.m.sliceOf(st, id+n, types.Typ[types.String], ss...)
			}
			vs = append(vs, ifaceOf(e.ruleT, structOf(e.ruleT, "Groups", sl("g", r.Groups), "Resources", sl("r", r.Resources), "ResourceNames", sl("n", r.ResourceNames),
				"Verbs", sl("v", r.Verbs), "URLs", sl("u", r.URLs), "Namespace", strVal(r.NS))))
		}
		if vs == nil {
			e.root(st, fmt.Sprint(i))
		} else {
			e.root(st, fmt.Sprint(i), "kubebuilder:rbac", vs)
		}
	}
	fn := e.w.fn("pkg/rbac", "GenerateRoles")
	outs := e.m.interp(st, fn, e.ctx(st), strVal("the-role"))
	if len(outs) == 0 {
		return nil, "no outcome"
	}
	var roles []rbacRole
	for i, o := range outs {
		if er := e.errors(o); er != "nil" {
			return nil, "outcome " + er
		}
		rs, bad := e.readRoles(o.st, o.res[0])
		if bad != "" {
			return nil, bad
		}
		if i > 0 && fmt.Sprint(rs) != fmt.Sprint(roles) {
			return nil, "several outcomes"
		}
		roles = rs
	}
	return roles, ""
}

func sortedUnique(s []string) bool {
	for i := 1; i < len(s); i++ {
		if s[i-1] >= s[i] {
			return false
		}
	}
	return true
}

func diffSets(a, b map[string]bool) (onlyA, onlyB []string) {
	for k := range a {
		if !b[k] {
			onlyA = append(onlyA, k)
		}
	}
	for k := range b {
		if !a[k] {
			onlyB = append(onlyB, k)
		}
	}
	sort.Strings(onlyA)
	sort.Strings(onlyB)
	return
}

func (e *rbacEnv) check(c *Check, key string, pkgs [][]rbacRule) {
	pos := e.w.pos(e.w.fn("pkg/rbac", "GenerateRoles").Pos())
	e.m.adverse = 0
	roles, bad := e.run(pkgs)
	e.m.adverse = 1
	roles2, bad2 := e.run(pkgs)
	e.m.adverse = 2
	roles3, bad3 := e.run(pkgs)
	e.m.adverse = 0
	if bad != "" || bad2 != "" || bad3 != "" {
		c.bad("roles", key, pos, "rules %v: %s%s%s", pkgs, bad, bad2, bad3)
		return
	}
	c.ob(fmt.Sprint(roles) == fmt.Sprint(roles2), "order-independent", key, pos, "rules %v: the roles depend on the order in which a map is visited:\n    %v\n    %v", pkgs, roles, roles2)
	c.ob(fmt.Sprint(roles) == fmt.Sprint(roles3), "order-independent", key, pos, "rules %v: the roles depend on how sorting treats equal elements:\n    %v\n    %v", pkgs, roles, roles3)
	byNS := map[string][]rbacRule{}
	var nss []string
	for _, rs := range pkgs {
		for _, r := range rs {
			if byNS[r.NS] == nil {
				nss = append(nss, r.NS)
			}
			byNS[r.NS] = append(byNS[r.NS], r)
		}
	}
	sort.Strings(nss)
	var got []string
	for _, r := range roles {
		got = append(got, r.ns)
	}
	if c.ob(fmt.Sprint(got) == fmt.Sprint(nss), "one-role-per-namespace", key, pos, "rules %v: roles for namespaces %q, expected %q", pkgs, got, nss); fmt.Sprint(got) != fmt.Sprint(nss) {
		return
	}
	for _, r := range roles {
		kind := "Role"
		if r.ns == "" {
			kind = "ClusterRole"
		}
		c.ob(r.kind == kind && r.api == "rbac.authorization.k8s.io/v1" && r.name == "the-role", "role-identity", key, pos, "rules %v: %s %s %q in namespace %q, expected %s the-role", pkgs, r.api, r.kind, r.name, r.ns, kind)
		extra, lost := diffSets(expandRules(r.rules, false), expandRules(byNS[r.ns], true))
		c.ob(len(extra) == 0, "grants-nothing-more", key, pos, "rules %v: the role of namespace %q also grants %v", pkgs, r.ns, extra)
		c.ob(len(lost) == 0, "grants-everything", key, pos, "rules %v: the role of namespace %q does not grant %v", pkgs, r.ns, lost)
		for _, x := range r.rules {
			c.ob(sortedUnique(x.Groups) && sortedUnique(x.Resources) && sortedUnique(x.ResourceNames) && sortedUnique(x.Verbs) && sortedUnique(x.URLs), "sorted-unique", key, pos, "rules %v: rule %v is not sorted without duplicates", pkgs, x)
			star := false
			for _, v := range x.Verbs {
				star = star || v == "*"
			}
			c.ob(!star || len(x.Verbs) == 1, "star-replaces", key, pos, "rules %v: rule %v lists verbs besides *", pkgs, x)
			for _, g := range x.Groups {
				c.ob(g != "core", "core-is-empty", key, pos, "rules %v: rule %v names the group core", pkgs, x)
			}
		}
	}
}

type rbacJob struct {
	key  string
	pkgs [][]rbacRule
}

// rbacJobs lists the rule sets the role generator is checked on.
func rbacJobs(thorough bool) []rbacJob {
	type job = rbacJob
	var jobs []job
	add := func(key string, rs ...rbacRule) { jobs = append(jobs, job{key, [][]rbacRule{rs}}) }
	// two rules in every relation per dimension
	dim := [][][]string{
		{{"a"}, {"b"}, {"b", "a"}, {}},       // groups
		{{"r"}, {"s"}, {"s", "r"}, {}},       // resources
		{{}, {"n"}, {"m", "n"}},              // names
		{{}, {"/u"}, {"/u", "/w"}},           // URLs
		{{"get"}, {"list"}, {"list", "get"}}, // verbs
	}
	firsts := []rbacRule{
		{Groups: []string{"a"}, Resources: []string{"r"}, Verbs: []string{"get"}},
		{Groups: []string{"a"}, Resources: []string{"r"}, ResourceNames: []string{"n"}, Verbs: []string{"get"}},
		{Groups: []string{"a"}, Resources: []string{"r"}, URLs: []string{"/u"}, Verbs: []string{"get"}},
		{Groups: []string{"a", "b"}, Resources: []string{"r", "s"}, Verbs: []string{"get", "list"}},
		{URLs: []string{"/u", "/w"}, Verbs: []string{"list"}},
	}
	for fi, f := range firsts {
		for _, g := range dim[0] {
			for _, r := range dim[1] {
				for _, n := range dim[2] {
					for _, u := range dim[3] {
						for _, v := range dim[4] {
							add(fmt.Sprintf("two rules %d", fi), f, rbacRule{Groups: g, Resources: r, ResourceNames: n, URLs: u, Verbs: v})
						}
					}
				}
			}
		}
	}
	// sets of rules over a grid
	var grid []rbacRule
	for _, g := range []string{"a", "b"} {
		for _, r := range []string{"r", "s"} {
			for _, n := range [][]string{nil, {"n"}} {
				for _, v := range []string{"get", "list"} {
					grid = append(grid, rbacRule{Groups: []string{g}, Resources: []string{r}, ResourceNames: n, Verbs: []string{v}})
				}
			}
		}
	}
	for i := range grid {
		for j := i + 1; j < len(grid); j++ {
			for k := j + 1; k < len(grid); k++ {
				add("three rules", grid[k], grid[i], grid[j])
				if thorough {
					for l := k + 1; l < len(grid); l++ {
						add("four rules", grid[l], grid[i], grid[k], grid[j])
					}
				}
			}
		}
	}
	var ugrid []rbacRule
	for _, g := range [][]string{nil, {"a"}} {
		for _, u := range []string{"/u", "/w"} {
			for _, n := range [][]string{nil, {"n"}} {
				for _, v := range []string{"get", "list"} {
					r := rbacRule{Groups: g, ResourceNames: n, URLs: []string{u}, Verbs: []string{v}}
					if g != nil {
						r.Resources = []string{"r"}
					}
					ugrid = append(ugrid, r)
				}
			}
		}
	}
	for i := range ugrid {
		for j := i + 1; j < len(ugrid); j++ {
			for k := j + 1; k < len(ugrid); k++ {
				add("three URL rules", ugrid[k], ugrid[i], ugrid[j])
			}
		}
	}
	// merging in one dimension can make rules equal that also differ in verbs
	for _, v := range [][]string{{"get"}, {"list"}, {"*"}, {"get", "*"}} {
		add("merged rules become equal", rbacRule{Groups: []string{"a"}, Resources: []string{"r", "s"}, Verbs: v}, rbacRule{Groups: []string{"b"}, Resources: []string{"r", "s"}, Verbs: v},
			rbacRule{Groups: []string{"a", "b"}, Resources: []string{"r", "s"}, Verbs: []string{"list"}})
		add("merged rules become equal", rbacRule{Groups: []string{"a", "b"}, Resources: []string{"r"}, Verbs: []string{"watch"}}, rbacRule{Groups: []string{"a"}, Resources: []string{"r"}, Verbs: v}, rbacRule{Groups: []string{"b"}, Resources: []string{"r"}, Verbs: v})
		add("merged rules become equal", rbacRule{URLs: []string{"/u", "/w"}, Verbs: []string{"watch"}}, rbacRule{URLs: []string{"/u"}, Verbs: v}, rbacRule{URLs: []string{"/w"}, Verbs: v})
	}
	// the core group and all verbs
	one := func(g, r, v []string) rbacRule { return rbacRule{Groups: g, Resources: r, Verbs: v} }
	s := func(x ...string) []string { return x }
	for _, g := range [][]string{s("core"), s("core", "a"), s("a", "core"), s("core", ""), s(""), s("", "a"), s("*"), s("core", "*")} {
		for _, v := range [][]string{s("get"), s("*"), s("get", "*"), s("*", "get"), s("get", "get"), s("watch", "get", "list", "get")} {
			add("core and *", one(g, s("r"), v))
			add("core and *", one(g, s("s", "r", "s"), v), one(s("a"), s("r"), s("get")))
			add("core and *", one(s("", "a"), s("r"), s("get")), one(g, s("r"), v))
			add("core and *", one(s("a"), s("r"), s("*")), one(g, s("r", "s"), v))
			add("core and *", rbacRule{Groups: g, Resources: s("r"), ResourceNames: s("n", "m", "n"), Verbs: v}, one(g, s("r"), s("delete")))
		}
	}
	// namespaces and packages
	a, b := one(s("a"), s("r"), s("get")), one(s("b"), s("s"), s("list"))
	inNS := func(r rbacRule, ns string) rbacRule { r.NS = ns; return r }
	for _, x := range []rbacRule{a, b, one(s("a"), s("r"), s("list")), one(s("a"), s("s"), s("get")), one(s("b"), s("r"), s("get")), {URLs: s("/u"), Verbs: s("get")}} {
		for _, n1 := range []string{"", "n1", "n2"} {
			for _, n2 := range []string{"", "n1", "n2"} {
				add("namespaces", inNS(a, n1), inNS(x, n2))
				add("namespaces", inNS(x, n2), inNS(a, n1), inNS(b, "n3"))
				jobs = append(jobs, job{"packages", [][]rbacRule{{inNS(a, n1)}, {}, {inNS(x, n2)}}})
				jobs = append(jobs, job{"packages", [][]rbacRule{{inNS(x, n2), inNS(b, n1)}, {inNS(a, n1)}}})
			}
		}
	}
	return append(jobs, job{"no rules", [][]rbacRule{{}, {}}})
}

func checkC15(c *Check) {
	w := c.W
	jobs := rbacJobs(c.Tier == "thorough")
	envs := make([]*rbacEnv, 8)
	for i := range envs {
		envs[i] = newRBACEnv(w)
	}
	c.par(len(jobs), func(c *Check, worker, i int) { envs[worker].check(c, jobs[i].key, jobs[i].pkgs) })
	c.fact("rule_sets", len(jobs))
	// the generator hands exactly these roles to the output rule
	checkRoleOutput(c)
}

func checkRoleOutput(c *Check) {
	w := c.W
	gt := w.typ("pkg/rbac", "Generator")
	fn := w.methodOf(gt, "Generate")
	for _, file := range []string{"", "my-file.yaml"} {
		e := newRBACEnv(w)
		e.m.hooks[modPath+"/pkg/rbac.GenerateRoles"] = func(st *State, cl *Call) ([]Out, bool) {
			st.note("rolename", cl.args[1])
			return []Out{{st: st, res: []*Val{e.m.sliceOf(st, "objs", anyIface, ifaceOf(types.Typ[types.String], symIn(types.Typ[types.String], "role0")), ifaceOf(types.Typ[types.String], symIn(types.Typ[types.String], "role1"))), nilVal()}}}, true
		}
		st := newState()
		e.root(st, "0")
		pos := w.pos(fn.Pos())
		want := file
		if want == "" {
			want = "role.yaml"
		}
		outs := e.m.interp(st, fn, structOf(gt, "RoleName", symIn(types.Typ[types.String], "roleName"), "FileName", strVal(file)), e.ctx(st))
		if len(outs) == 0 {
			c.bad("written-roles", "Generate", pos, "no outcome")
		}
		for _, o := range outs {
			ws, und := e.writes(o.st)
			c.ob(errOf(o) == "nil" && und == "" && len(ws) == 1, "written-roles", "Generate", pos, "outcome %s %s, written %v", errOf(o), und, ws)
			if len(ws) == 1 {
				c.ob(ws[0].name == fmt.Sprintf("%q", want) && fmt.Sprint(ws[0].objs) == "[string$role0 string$role1]", "written-roles", "Generate", pos, "written %v, expected both roles in %s", ws[0], want)
			}
			rn := o.st.notes["rolename"]
			c.ob(rn != nil && rn.sym != nil && rn.sym.s == "roleName", "written-roles", "Generate", pos, "the roles are named %v, expected the option's name", rn)
		}
	}
}
