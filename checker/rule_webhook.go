package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register("C16", "conditional constant propagation over the webhook generator", "every combination of an invalid field, its kind and its place among other webhooks",
		"The webhook generator is interpreted abstractly over packages holding webhook markers; every class of each restricted field (side effects, timeout around each bound and beyond 32 bits, match policy, webhook versions, review versions, path and URL) is placed first, last, alone and in a later package, for both kinds and next to valid webhooks of either kind. An invalid one must end in an error with nothing written, a valid one in exactly its own webhook in its own kind's configuration.", checkC16)
}

const admissionV1 = "k8s.io/api/admissionregistration/v1"

type whCfg map[string]any // marker field -> string, []string, int64, bool, *Val

type whEnv struct {
	*genEnv
	cfgT, wcT types.Type
}

func (e *whEnv) val(st *State, t types.Type, v any, id string) *Val {
	switch x := v.(type) {
	case *Val:
		return x
	case string:
		return strVal(x)
	case bool:
		return boolVal(x)
	case int64:
		return constVal(x)
	case []string:
		var vs []*Val
		for _, s := range x {
			if strings.HasPrefix(s, "$") {
				vs = append(vs, symIn(types.Typ[types.String], s[1:]))
			} else {
				vs = append(vs, strVal(s))
			}
		}
		if x == nil {
			return nilVal()
		}
		return e.m.sliceOf(st, id, types.Typ[types.String], vs...)
	}
	panic("whEnv.val")
}

func (e *whEnv) marker(st *State, t types.Type, c whCfg, id string) *Val {
	var kvs []any
	for k, v := range c {
		kvs = append(kvs, k, e.val(st, fieldType(t, k), v, id+"."+k))
	}
	return ifaceOf(t, structOf(t, kvs...))
}

func validWebhook(name string, mutating bool) whCfg {
	return whCfg{"Name": name, "Mutating": mutating, "FailurePolicy": "fail", "SideEffects": "None", "Groups": []string{"g"}, "Resources": []string{"r"},
		"Verbs": []string{"create"}, "Versions": []string{"v"}, "Path": "/" + name, "AdmissionReviewVersions": []string{"v1"}}
}

// want builds the expected API object of one valid webhook from what the documentation says.
func (e *whEnv) want(st *State, c whCfg) *Val {
	kind := "ValidatingWebhook"
	if c["Mutating"].(bool) {
		kind = "MutatingWebhook"
	}
	t := e.w.depTyp(admissionV1, kind)
	m := e.m
	str := func(s string) *Val { return strVal(s) }
	ptr := func(ft types.Type, v *Val) *Val { return m.cellOf(st, "w", deref(ft), v) }
	get := func(k string) string { s, _ := c[k].(string); return s }
	valOf := func(k string) *Val {
		switch x := c[k].(type) {
		case *Val:
			return x
		case string:
			return str(x)
		}
		return str("")
	}
	set := func(k string) bool { return c[k] != nil && c[k] != "" }
	var ops []*Val
	rwT := e.w.depTyp(admissionV1, "RuleWithOperations")
	ruT := e.w.depTyp(admissionV1, "Rule")
	vs, _ := c["Verbs"].([]string)
	for _, v := range vs {
		for _, k := range []string{"CREATE", "UPDATE", "DELETE", "CONNECT"} {
			if strings.EqualFold(v, k) {
				v = k
			}
		}
		ops = append(ops, str(v))
	}
	var gs []string
	groups, _ := c["Groups"].([]string)
	for _, g := range groups {
		if g == "core" {
			g = ""
		}
		gs = append(gs, g)
	}
	list := func(k string, x []string) *Val { return e.val(st, nil, x, "w"+k) }
	strs := func(k string) *Val { x, _ := c[k].([]string); return list(k, x) }
	ot, _ := arrayElem(fieldType(rwT, "Operations"))
	rule := structOf(rwT, "Rule", structOf(ruT, "APIGroups", list("g", gs), "APIVersions", strs("Versions"), "Resources", strs("Resources")), "Operations", m.sliceOf(st, "ops", ot, ops...))
	fp := valOf("FailurePolicy")
	for _, k := range []string{"Ignore", "Fail"} {
		if strings.EqualFold(get("FailurePolicy"), k) {
			fp = str(k)
		}
	}
	kvs := []any{"Name", valOf("Name"), "Rules", m.sliceOf(st, "rules", rwT, rule), "FailurePolicy", ptr(fieldType(t, "FailurePolicy"), fp),
		"AdmissionReviewVersions", strs("AdmissionReviewVersions")}
	opt := func(field, key string, allowed ...string) {
		for _, k := range allowed {
			if strings.EqualFold(get(key), k) {
				kvs = append(kvs, field, ptr(fieldType(t, field), str(k)))
			}
		}
	}
	opt("MatchPolicy", "MatchPolicy", "Exact", "Equivalent")
	opt("SideEffects", "SideEffects", "None", "NoneOnDryRun")
	if kind == "MutatingWebhook" {
		opt("ReinvocationPolicy", "ReinvocationPolicy", "Never", "IfNeeded")
	}
	if n, ok := c["TimeoutSeconds"].(int64); ok && n != 0 {
		kvs = append(kvs, "TimeoutSeconds", ptr(fieldType(t, "TimeoutSeconds"), constVal(n)))
	}
	ccT := fieldType(t, "ClientConfig")
	if set("URL") {
		kvs = append(kvs, "ClientConfig", structOf(ccT, "URL", ptr(fieldType(ccT, "URL"), valOf("URL"))))
	} else {
		sv := fieldType(ccT, "Service")
		name, ns := str("webhook-service"), str("system")
		if set("ServiceName") {
			name = valOf("ServiceName")
		}
		if set("ServiceNamespace") {
			ns = valOf("ServiceNamespace")
		}
		port := nilVal()
		if p, ok := c["ServicePort"].(*Val); ok {
			port = p
		}
		kvs = append(kvs, "ClientConfig", structOf(ccT, "Service", m.cellOf(st, "svc", deref(sv), structOf(deref(sv), "Name", name, "Namespace", ns,
			"Path", ptr(fieldType(deref(sv), "Path"), valOf("Path")), "Port", port))))
	}
	return structOf(t, kvs...)
}

// config renders the expected configuration object of one kind.
func (e *whEnv) config(st *State, mutating bool, name string, whs ...whCfg) string {
	kind := "Validating"
	if mutating {
		kind = "Mutating"
	}
	t := e.w.depTyp(admissionV1, kind+"WebhookConfiguration")
	wt := e.w.depTyp(admissionV1, kind+"Webhook")
	if name == "" {
		name = strings.ToLower(kind) + "-webhook-configuration"
	}
	var vs []*Val
	for _, c := range whs {
		vs = append(vs, e.want(st, c))
	}
	nv := strVal(name)
	if strings.HasPrefix(name, "$") {
		nv = symIn(types.Typ[types.String], name[1:])
	}
	v := structOf(t, "TypeMeta", structOf(fieldType(t, "TypeMeta"), "Kind", strVal(kind+"WebhookConfiguration"), "APIVersion", strVal("admissionregistration.k8s.io/v1")),
		"ObjectMeta", structOf(fieldType(t, "ObjectMeta"), "Name", nv), "Webhooks", e.m.sliceOf(st, "whs", wt, vs...))
	return typeName(t) + e.m.canon(st, v, t, 0)
}

type whCase struct {
	label string
	roots [][]whCfg // markers per package
	names [][]whCfg // webhookconfiguration markers per package
	want  func(e *whEnv, st *State) []string
	err   bool
}

func (e *whEnv) run(c *Check, rule, key string, cs whCase) {
	w := e.w
	fn := w.methodOf(w.typ("pkg/webhook", "Generator"), "Generate")
	pos := w.pos(fn.Pos())
	st := newState()
	e.roots, e.marks = nil, map[*Obj][]any{}
	for i, ms := range cs.roots {
		var a, b []*Val
		for j, x := range ms {
			a = append(a, e.marker(st, e.cfgT, x, fmt.Sprintf("m%d.%d", i, j)))
		}
		if i < len(cs.names) {
			for j, x := range cs.names[i] {
				b = append(b, e.marker(st, e.wcT, x, fmt.Sprintf("n%d.%d", i, j)))
			}
		}
		var kvs []any
		if len(a) > 0 {
			kvs = append(kvs, "kubebuilder:webhook", a)
		}
		if len(b) > 0 {
			kvs = append(kvs, "kubebuilder:webhookconfiguration", b)
		}
		e.root(st, fmt.Sprint(i), kvs...)
	}
	var want []string
	if !cs.err {
		want = cs.want(e, st)
	}
	gt := w.typ("pkg/webhook", "Generator")
	outs := e.m.interp(st, fn, zeroVal(gt), e.ctx(st))
	if len(outs) == 0 {
		c.bad(rule, key, pos, "%s: no outcome", cs.label)
	}
	for _, o := range outs {
		er := e.errors(o)
		ws, und := e.writes(o.st)
		if cs.err {
			c.ob(er == "err" && len(ws) == 0 && und == "", rule, key, pos, "%s: outcome %s, written %v %s; expected an error and nothing written", cs.label, er, ws, und)
			continue
		}
		if er != "nil" || und != "" {
			c.bad(rule, key, pos, "%s: outcome %s %s; expected success", cs.label, er, und)
			continue
		}
		var got []string
		for _, x := range ws {
			if x.name != `"manifests.yaml"` {
				c.bad(rule, key, pos, "%s: written to %s", cs.label, x.name)
			}
			got = append(got, x.objs...)
		}
		if c.ob(len(got) == len(want), rule, key, pos, "%s: %d configurations written, expected %d: %v", cs.label, len(got), len(want), got); len(got) != len(want) {
			continue
		}
		for i := range got {
			c.ob(got[i] == want[i], rule, key, pos, "%s: configuration is\n    %s\n  expected\n    %s", cs.label, got[i], want[i])
		}
	}
}

func newWhEnv(w *World) *whEnv {
	return &whEnv{genEnv: newGenEnv(w), cfgT: w.typ("pkg/webhook", "Config"), wcT: w.typ("pkg/webhook", "WebhookConfig")}
}

type whClass struct {
	label string
	set   whCfg
	ok    bool
}

func whClasses() []whClass {
	var r []whClass
	add := func(ok bool, label string, set whCfg) { r = append(r, whClass{label, set, ok}) }
	add(true, "plain", whCfg{})
	for _, s := range []string{"None", "none", "NONE", "NoneOnDryRun", "noneondryrun"} {
		add(true, "sideEffects "+s, whCfg{"SideEffects": s})
	}
	for _, s := range []string{"", "Some", "some", "Unknown", "unknown", "other"} {
		add(false, fmt.Sprintf("sideEffects %q", s), whCfg{"SideEffects": s})
	}
	for _, n := range []int64{0, 1, 2, 10, 29, 30} {
		add(true, fmt.Sprintf("timeoutSeconds %d", n), whCfg{"TimeoutSeconds": n})
	}
	for _, n := range []int64{-1, -30, 31, 60, 3600, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 30, 1<<63 - 1, -1 << 31, -1 << 32, -1<<32 + 10, -1<<63 + 5, -1 << 63} {
		add(false, fmt.Sprintf("timeoutSeconds %d", n), whCfg{"TimeoutSeconds": n})
	}
	for _, s := range []string{"", "Exact", "exact", "Equivalent", "EQUIVALENT"} {
		add(true, fmt.Sprintf("matchPolicy %q", s), whCfg{"MatchPolicy": s})
	}
	for _, s := range []string{"other", "Exac", "Fail"} {
		add(false, fmt.Sprintf("matchPolicy %q", s), whCfg{"MatchPolicy": s})
	}
	for _, s := range [][]string{nil, {}, {"v1"}, {"v1", "v1"}} {
		add(true, fmt.Sprintf("webhookVersions %q", s), whCfg{"WebhookVersions": s})
	}
	for _, s := range [][]string{{"v1beta1"}, {"v1", "v1beta1"}, {"v1beta1", "v1"}, {"V1"}, {""}, {"v2"}} {
		add(false, fmt.Sprintf("webhookVersions %q", s), whCfg{"WebhookVersions": s})
	}
	for _, s := range [][]string{{"v1"}, {"v1", "v1beta1"}, {"v1beta1"}} {
		add(true, fmt.Sprintf("admissionReviewVersions %q", s), whCfg{"AdmissionReviewVersions": s})
	}
	for _, s := range [][]string{nil, {}} {
		add(false, fmt.Sprintf("no admissionReviewVersions (nil %v)", s == nil), whCfg{"AdmissionReviewVersions": s})
	}
	add(true, "url", whCfg{"Path": "", "URL": "https://u"})
	add(true, "path with service", whCfg{"ServiceName": "sn", "ServiceNamespace": "sns"})
	add(false, "path and url", whCfg{"URL": "https://u"})
	add(false, "path, url and service", whCfg{"URL": "https://u", "ServiceName": "sn"})
	add(false, "neither path nor url", whCfg{"Path": ""})
	add(false, "neither path nor url, with service", whCfg{"Path": "", "ServiceName": "sn", "ServiceNamespace": "sns"})
	// two restrictions at once
	add(false, "bad sideEffects, good others", whCfg{"SideEffects": "Some", "TimeoutSeconds": int64(5), "MatchPolicy": "Exact"})
	add(false, "bad timeout with url", whCfg{"Path": "", "URL": "https://u", "TimeoutSeconds": int64(31)})
	add(false, "bad timeout, failurePolicy ignore", whCfg{"FailurePolicy": "ignore", "TimeoutSeconds": int64(31)})
	add(false, "no review version with url", whCfg{"Path": "", "URL": "https://u", "AdmissionReviewVersions": []string(nil)})
	add(false, "bad versions given twice", whCfg{"WebhookVersions": []string{"v1beta1", "v1beta1"}})
	for _, s := range []string{"ignore", "Fail", "IGNORE"} {
		add(true, "failurePolicy "+s, whCfg{"FailurePolicy": s})
	}
	for _, s := range []string{"", "Never", "ifneeded"} {
		add(true, "reinvocationPolicy "+s, whCfg{"ReinvocationPolicy": s})
	}
	return r
}

func checkC16(c *Check) {
	w := c.W
	classes := whClasses()
	envs := make([]*whEnv, 8)
	for i := range envs {
		envs[i] = newWhEnv(w)
	}
	with := func(x whCfg, set whCfg) whCfg {
		n := whCfg{}
		for k, v := range x {
			n[k] = v
		}
		for k, v := range set {
			n[k] = v
		}
		return n
	}
	c.par(len(classes), func(c *Check, worker, i int) {
		e := envs[worker]
		cl := classes[i]
		rule := "valid-webhook"
		if !cl.ok {
			rule = "invalid-webhook-rejected"
		}
		for _, mut := range []bool{true, false} {
			kind := "validating"
			if mut {
				kind = "mutating"
			}
			x := with(validWebhook("x", mut), cl.set)
			same := validWebhook("a", mut)
			last := validWebhook("z", mut)
			other := validWebhook("o", !mut)
			both := func(mine []whCfg, others []whCfg) func(e *whEnv, st *State) []string {
				return func(e *whEnv, st *State) []string {
					var r []string
					a, b := mine, others
					if !mut {
						a, b = others, mine
					}
					if len(a) > 0 {
						r = append(r, e.config(st, true, "", a...))
					}
					if len(b) > 0 {
						r = append(r, e.config(st, false, "", b...))
					}
					return r
				}
			}
			cases := []whCase{
				{label: "alone", roots: [][]whCfg{{x}}, want: both([]whCfg{x}, nil)},
				{label: "last of its kind", roots: [][]whCfg{{same, x}}, want: both([]whCfg{same, x}, nil)},
				{label: "first of its kind", roots: [][]whCfg{{x, last}}, want: both([]whCfg{x, last}, nil)},
				{label: "next to one of the other kind", roots: [][]whCfg{{other, x}}, want: both([]whCfg{x}, []whCfg{other})},
				{label: "before one of the other kind", roots: [][]whCfg{{x, with(other, whCfg{"Name": "z"})}}, want: both([]whCfg{x}, []whCfg{with(other, whCfg{"Name": "z"})})},
				{label: "in the middle, both kinds", roots: [][]whCfg{{same, other, x, last}}, want: both([]whCfg{same, x, last}, []whCfg{other})},
				{label: "in a later package", roots: [][]whCfg{{last, other}, {}, {x}}, want: both([]whCfg{last, x}, []whCfg{other})},
				{label: "in an earlier package", roots: [][]whCfg{{x}, {same}}, want: both([]whCfg{x, same}, nil)},
			}
			for _, cs := range cases {
				cs.err = !cl.ok
				cs.label = fmt.Sprintf("%s webhook with %s, %s", kind, cl.label, cs.label)
				e.run(c, rule, kind+" "+strings.Fields(cl.label)[0], cs)
			}
		}
	})
	// configuration names
	e := envs[0]
	for _, mut := range []bool{true, false} {
		x, o := validWebhook("x", mut), validWebhook("o", !mut)
		nm := whCfg{"Mutating": mut, "Name": "my-name"}
		on := whCfg{"Mutating": !mut, "Name": "other-name"}
		cfgs := func(mn, on string) func(e *whEnv, st *State) []string {
			return func(e *whEnv, st *State) []string {
				if mut {
					return []string{e.config(st, true, mn, x), e.config(st, false, on, o)}
				}
				return []string{e.config(st, true, on, o), e.config(st, false, mn, x)}
			}
		}
		for _, cs := range []whCase{
			{label: "name for one kind", names: [][]whCfg{{nm}}, want: cfgs("my-name", "")},
			{label: "names for both kinds", names: [][]whCfg{{nm, on}}, want: cfgs("my-name", "other-name")},
			{label: "names for both kinds, swapped", names: [][]whCfg{{on, nm}}, want: cfgs("my-name", "other-name")},
			{label: "two names for one kind", names: [][]whCfg{{nm, whCfg{"Mutating": mut, "Name": "second"}}}, err: true},
			{label: "two names for one kind around the other", names: [][]whCfg{{nm, on, whCfg{"Mutating": mut, "Name": "second"}}}, err: true},
		} {
			cs.roots = [][]whCfg{{x, o}}
			cs.label = fmt.Sprintf("configuration %s (mutating %v)", cs.label, mut)
			e.run(c, "configuration-name", "webhookconfiguration", cs)
		}
	}
	c.atLeast("invalid-webhook-rejected", 200)
	c.atLeast("valid-webhook", 200)
}
