import os
id='c12-self-list'; prop='C12'
needs='a named list or map type that contains itself'
breaks='generating the schema of a type that is no struct and refers to itself never ends'
edits=[('pkg/crd/parser.go',"""	p.Schemata[typ] = apiext.JSONSchemaProps{}

""","""	if len(info.Fields) > 0 {
		p.Schemata[typ] = apiext.JSONSchemaProps{}
	}

""")]
pkg='pkg/crd'
test=open(os.path.join('/verif/tools/seeds','lib_ctx.txt')).read() % ('crd_test', '\t"sigs.k8s.io/controller-tools/pkg/crd"\n') + """
func TestSeededDemo(t *testing.T) {
	ctx, _ := demoCtx(t, crd.Generator{}, map[string]string{"api/v1/types.go": "package v1\\n\\ntype L []L\\n\\ntype T struct {\\n\\tL L `json:\\"l\\"`\\n}\\n"})
	p := &crd.Parser{Collector: ctx.Collector, Checker: ctx.Checker}
	for _, root := range ctx.Roots {
		p.NeedPackage(root)
		p.NeedSchemaFor(crd.TypeIdent{Package: root, Name: "T"})
		if len(p.Schemata) != 2 {
			t.Errorf("%d schemas", len(p.Schemata))
		}
	}
}
"""
