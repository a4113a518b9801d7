package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C06 for webhook and RBAC markers: each argument, given on its own and
// together with all others, sets its one documented field of the manifest.
func checkGeneratorLanding(c *Check) {
	w := c.W
	e := newWhEnv(w)
	i32 := types.NewPointer(types.Typ[types.Int32])
	port := func() *Val { return unkNonNil(i32, &Sym{"a.port", true}) }
	full := func(mut bool) whCfg {
		return whCfg{"Mutating": mut, "Name": "c-name", "FailurePolicy": "Ignore", "MatchPolicy": "Equivalent", "SideEffects": "NoneOnDryRun", "TimeoutSeconds": int64(7),
			"Groups": []string{"c-g0", "c-g1"}, "Resources": []string{"c-r0", "c-r1", "c-r2"}, "Verbs": []string{"create", "Update", "DELETE", "connect", "*"}, "Versions": []string{"c-v0", "c-v1"},
			"ServiceName": "c-sn", "ServiceNamespace": "c-sns", "ServicePort": port(), "Path": "c-path", "WebhookVersions": []string{"v1"}, "AdmissionReviewVersions": []string{"c-a1", "c-a0"},
			"ReinvocationPolicy": "IfNeeded"}
	}
	optional := []string{"MatchPolicy", "TimeoutSeconds", "ServiceName", "ServiceNamespace", "ServicePort", "WebhookVersions", "ReinvocationPolicy"}
	one := func(mut bool, label string, x whCfg) {
		cs := whCase{label: fmt.Sprintf("mutating=%v, %s", mut, label), roots: [][]whCfg{{x}}}
		cs.want = func(e *whEnv, st *State) []string { return []string{e.config(st, mut, "", x)} }
		e.run(c, "webhook-argument-lands", "kubebuilder:webhook "+label, cs)
	}
	with := func(mut bool, k string, v any) whCfg {
		x := full(mut)
		if v == nil {
			delete(x, k)
		} else {
			x[k] = v
		}
		return x
	}
	for _, mut := range []bool{true, false} {
		one(mut, "all arguments", full(mut))
		for _, k := range optional {
			one(mut, "all but "+k, with(mut, k, nil))
			x := validWebhook("c-name", mut)
			x[k] = full(mut)[k]
			one(mut, "only "+k, x)
		}
		x := full(mut)
		delete(x, "Path")
		x["URL"] = "c-url"
		one(mut, "url instead of path", x)
		one(mut, "core group first", with(mut, "Groups", []string{"core", "c-g1"}))
		one(mut, "core group last", with(mut, "Groups", []string{"c-g0", "", "core"}))
		one(mut, "similar groups", with(mut, "Groups", []string{"Core", "core.io", "*"}))
		one(mut, "groups given twice", with(mut, "Groups", []string{"b", "a", "b"}))
		one(mut, "unknown verb", with(mut, "Verbs", []string{"c-verb", "create"}))
		for _, s := range []string{"fail", "FAIL", "ignore", "c-other"} {
			one(mut, "failurePolicy "+s, with(mut, "FailurePolicy", s))
		}
		for _, s := range []string{"Never", "never", "ifneeded"} {
			one(mut, "reinvocationPolicy "+s, with(mut, "ReinvocationPolicy", s))
		}
		for _, s := range []string{"exact", "equivalent"} {
			one(mut, "matchPolicy "+s, with(mut, "MatchPolicy", s))
		}
		for _, s := range []string{"none", "noneondryrun"} {
			one(mut, "sideEffects "+s, with(mut, "SideEffects", s))
		}
	}
	r := newRBACEnv(w)
	pos := w.pos(w.fn("pkg/rbac", "GenerateRoles").Pos())
	base := rbacRule{Groups: []string{"c-g"}, Resources: []string{"c-r"}, ResourceNames: []string{"c-n"}, Verbs: []string{"c-v"}, URLs: []string{"c-u"}}
	for _, ns := range []string{"", "c-ns"} {
		for _, drop := range []string{"", "Groups", "Resources", "ResourceNames", "URLs"} {
			x := base
			x.NS = ns
			switch drop {
			case "Groups":
				x.Groups = nil
			case "Resources":
				x.Resources = nil
			case "ResourceNames":
				x.ResourceNames = nil
			case "URLs":
				x.URLs = nil
			}
			roles, bad := r.run([][]rbacRule{{x}})
			label := "all arguments"
			if drop != "" {
				label = "all but " + drop
			}
			if bad != "" || len(roles) != 1 || len(roles[0].rules) != 1 {
				c.bad("rbac-argument-lands", "kubebuilder:rbac "+label, pos, "%s: %s, roles %v; expected one role with one rule", label, bad, roles)
				continue
			}
			got := roles[0].rules[0]
			got.NS = roles[0].ns
			c.ob(fmt.Sprint(got) == fmt.Sprint(x), "rbac-argument-lands", "kubebuilder:rbac "+label, pos, "%s: rule %v, expected %v", label, got, x)
		}
	}
	c.atLeast("webhook-argument-lands", 60)
}

// checkArgumentNames: the name an argument is written with leads to the field of that name.
func checkArgumentNames(c *Check) {
	for _, g := range generatorTypes(c.W) {
		for _, d := range markerTable(c.W, g) {
			s, ok := d.Out.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			byField := map[string]string{}
			for arg, f := range d.FieldNames {
				byField[f] = arg
				c.ob(arg == "" || strings.EqualFold(arg, f), "argument-name", d.Name+" "+arg, "", "argument %q of %s sets field %s", arg, d.Name, f)
			}
			for i := 0; i < s.NumFields(); i++ {
				if f := s.Field(i); f.Exported() {
					_, ok := byField[f.Name()]
					c.ob(ok, "argument-name", d.Name+" "+f.Name(), "", "no argument of %s sets field %s of its value", d.Name, f.Name())
				}
			}
		}
	}
}
