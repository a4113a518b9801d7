id='c01-rule-order'; prop='C01'
needs='rules that differ only in their URLs'
breaks='the order of RBAC rules that agree in everything but their URLs depends on map iteration'
edits=[('pkg/rbac/parser.go','''func (keys ruleKeys) Less(i, j int) bool { return keys[i].String() < keys[j].String() }
''','''func (keys ruleKeys) Less(i, j int) bool {
	if keys[i].Groups != keys[j].Groups {
		return keys[i].Groups < keys[j].Groups
	}
	if keys[i].Resources != keys[j].Resources {
		return keys[i].Resources < keys[j].Resources
	}
	return keys[i].ResourceNames < keys[j].ResourceNames
}
''')]
pkg='pkg/rbac'
test=open('/verif/tools/seeds/lib_ctx.txt').read() % ('rbac','\t"fmt"\n') + '''
func TestSeededDemo(t *testing.T) {
	ctx, _ := demoCtx(t, Generator{}, map[string]string{"v1/types.go": `// +kubebuilder:rbac:urls=/x,verbs=get
// +kubebuilder:rbac:urls=/y,verbs=list
// +kubebuilder:rbac:urls=/z,verbs=watch
package v1
`})
	var want string
	for i := 0; i < 50; i++ {
		objs, err := GenerateRoles(ctx, "role")
		if err != nil {
			t.Fatal(err)
		}
		got := fmt.Sprintf("%+v", objs)
		if want == "" {
			want = got
		}
		if want != got {
			t.Fatalf("%s\\n%s", want, got)
		}
	}
}
'''
