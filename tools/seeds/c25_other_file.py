id='c25-other-file'; prop='C25'
needs='the same package marker in more than one file of a package'
breaks='only the markers of the last file that has one are attached to the package'
edits=[('pkg/markers/zip.go', '\t\t\tres[name] = append(res[name], vals...)\n', '\t\t\tres[name] = vals\n')]
pkg='pkg/markers'
test='package markers\n\nimport (\n\t"fmt"\n\t"go/ast"\n\t"go/parser"\n\t"go/token"\n\t"testing"\n\n\t"golang.org/x/tools/go/packages"\n\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n)\n\nfunc markersIn(t *testing.T, srcs ...string) (*Collector, *loader.Package) {\n\treg := &Registry{}\n\tfor name, target := range map[string]TargetType{"p": DescribesPackage, "t": DescribesType, "f": DescribesField} {\n\t\tif err := reg.Define(name, target, int(0)); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tfset := token.NewFileSet()\n\tvar files []*ast.File\n\tfor i, src := range srcs {\n\t\tf, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), src, parser.ParseComments)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tfiles = append(files, f)\n\t}\n\treturn &Collector{Registry: reg}, &loader.Package{Package: &packages.Package{Syntax: files, Fset: fset}}\n}\n\nfunc TestSeededDemo(t *testing.T) {\n\tcol, pkg := markersIn(t, "// +p=1\\npackage x\\n", "// +p=2\\npackage x\\n")\n\tvals, err := PackageMarkers(col, pkg)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif got := fmt.Sprint(vals["p"]); got != "[1 2]" {\n\t\tt.Fatal(got)\n\t}\n\n}\n'
