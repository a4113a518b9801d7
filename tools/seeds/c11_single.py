id='c11-single-file'; prop='C11'
needs='a package of one file with two webhook markers whose names are not in order, and two readers of its markers'
breaks='generating the webhooks reorders the marker values every other generator reads'
edits=[('pkg/markers/zip.go',"""	res := make(MarkerValues)
	for _, file := range pkg.Syntax {
""","""	if len(pkg.Syntax) == 1 {
		// nothing to merge
		return markers[pkg.Syntax[0]], nil
	}
	res := make(MarkerValues)
	for _, file := range pkg.Syntax {
""")]
pkg='pkg/webhook'
lib='package webhook\n\nimport (\n\t"io"\n\t"os"\n\t"path/filepath"\n\t"testing"\n\n\t"golang.org/x/tools/go/packages"\n\t"sigs.k8s.io/controller-tools/pkg/genall"\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n\t"sigs.k8s.io/controller-tools/pkg/markers"\n)\n\ntype demoOut struct{ dir string }\n\nfunc (o demoOut) Open(_ *loader.Package, p string) (io.WriteCloser, error) {\n\treturn os.Create(filepath.Join(o.dir, filepath.Base(p)))\n}\n\n// demoCtx loads one package with the given source.\nfunc demoCtx(t *testing.T, gen genall.Generator, files map[string]string) (*genall.GenerationContext, string) {\n\tt.Helper()\n\tdir := t.TempDir()\n\tfiles["go.mod"] = "module demo\\n\\ngo 1.22\\n"\n\tfor n, src := range files {\n\t\tp := filepath.Join(dir, n)\n\t\tif err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tif err := os.WriteFile(p, []byte(src), 0o644); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tpkgs, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, "./...")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treg := &markers.Registry{}\n\tif err := gen.RegisterMarkers(reg); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tout := t.TempDir()\n\treturn &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: pkgs, Checker: &loader.TypeChecker{}, OutputRule: demoOut{out}, InputRule: genall.InputFromFileSystem}, out\n}\n'
test=lib+"""
func TestSeededDemo(t *testing.T) {
	ctx, _ := demoCtx(t, Generator{}, map[string]string{"a.go": `// +kubebuilder:webhook:path=/b,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=b.x.io,sideEffects=None,admissionReviewVersions=v1
// +kubebuilder:webhook:path=/a,mutating=false,failurePolicy=fail,groups=g,resources=r,verbs=create,versions=v1,name=a.x.io,sideEffects=None,admissionReviewVersions=v1
package demo
`})
	names := func() (r string) {
		vals, err := markers.PackageMarkers(ctx.Collector, ctx.Roots[0])
		if err != nil {
			t.Fatal(err)
		}
		for _, v := range vals[ConfigDefinition.Name] {
			r += v.(Config).Name + " "
		}
		return r
	}
	was := names()
	if err := (Generator{}).Generate(ctx); err != nil {
		t.Fatal(err)
	}
	if now := names(); now != was {
		t.Errorf("%s became %s", was, now)
	}
}
"""
