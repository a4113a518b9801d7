id='c17-unserved'; prop='C17'
needs='a CRD all of whose versions are unserved, one of them being stored'
breaks='a CRD that serves no version is not reported when one of its versions is the storage version'
edits=[('pkg/crd/spec.go','''		if ver.Served {
''','''		if ver.Served || ver.Storage {
''')]
pkg='pkg/crd'
lib=open('/verif/tools/seeds/lib_ctx.txt').read()
test=lib%('crd','')+'''
func TestSeededDemo(t *testing.T) {
	ctx, _ := demoCtx(t, Generator{}, map[string]string{
		"v1/a.go": "// +groupName=g.example\\n// +versionName=v1\\npackage v1\\n\\n// +kubebuilder:unservedversion\\n// +kubebuilder:storageversion\\ntype Foo struct {\\n\\tA string `json:\\"a\\"`\\n}\\n",
		"v2/a.go": "// +groupName=g.example\\n// +versionName=v2\\npackage v2\\n\\n// +kubebuilder:unservedversion\\ntype Foo struct {\\n\\tA string `json:\\"a\\"`\\n}\\n",
	})
	parser := &Parser{Collector: ctx.Collector, Checker: ctx.Checker}
	for _, root := range ctx.Roots {
		parser.NeedPackage(root)
	}
	parser.NeedCRDFor(schema.GroupKind{Group: "g.example", Kind: "Foo"}, nil)
	if !loader.PrintErrors(ctx.Roots, packages.TypeError) {
		t.Fatal("no error")
	}
}
'''
test=test.replace('	"golang.org/x/tools/go/packages"\n','	"golang.org/x/tools/go/packages"\n	"k8s.io/apimachinery/pkg/runtime/schema"\n')
