id='c01-kinds-of-groups'; prop='C01'
needs='two groups that define the same kind'
breaks='the order in which CRDs (and errors about them) are produced depends on map iteration for kinds of the same name in different groups'
edits=[('pkg/crd/gen.go','''		return groupKindList[i].String() < groupKindList[j].String()
''','''		return groupKindList[i].Kind < groupKindList[j].Kind
''')]
pkg='pkg/crd'
lib=open('/verif/tools/seeds/lib_ctx.txt').read()
test=lib%('crd','\t"fmt"\n')+'''
func TestSeededDemo(t *testing.T) {
	gk := map[string]string{"meta/v1/m.go": "package v1\\n\\ntype TypeMeta struct{}\\ntype ObjectMeta struct{}\\n"}
	for _, g := range []string{"a", "b", "c"} {
		gk[g+"/v1/a.go"] = "// +groupName=" + g + ".example\\n// +versionName=v1\\npackage v1\\n\\nimport \\"demo/meta/v1\\"\\n\\ntype Foo struct {\\n\\tv1.TypeMeta\\n\\tv1.ObjectMeta\\n}\\n"
	}
	ctx, _ := demoCtx(t, Generator{}, gk)
	parser := &Parser{Collector: ctx.Collector, Checker: ctx.Checker}
	var meta *loader.Package
	for _, root := range ctx.Roots {
		if root.PkgPath == "demo/meta/v1" {
			meta = root
		}
		parser.NeedPackage(root)
	}
	want := fmt.Sprint(FindKubeKinds(parser, meta))
	if want == "[]" {
		t.Fatal("no kinds")
	}
	for i := 0; i < 100; i++ {
		if got := fmt.Sprint(FindKubeKinds(parser, meta)); got != want {
			t.Fatalf("%s, then %s", want, got)
		}
	}
}
'''
