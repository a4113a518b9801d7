id='c29-dashes'; prop="C29"
needs='a text line that starts with two dashes'
breaks='the documentation ends at a line that only starts with two dashes'
edits=[('pkg/markers/zip.go', '\t\t\tif strings.HasPrefix(line, "---") {', '\t\t\tif strings.HasPrefix(line, "--") {')]
pkg="pkg/markers"
test='package markers\n\nimport (\n\t"go/ast"\n\t"go/parser"\n\t"go/token"\n\t"testing"\n\n\t"golang.org/x/tools/go/packages"\n\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n)\n\nfunc docsOf(t *testing.T, src string) map[string]string {\n\tfset := token.NewFileSet()\n\tf, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tres := map[string]string{}\n\tpkg := &loader.Package{Package: &packages.Package{Syntax: []*ast.File{f}, Fset: fset}}\n\tif err := EachType(&Collector{Registry: &Registry{}}, pkg, func(info *TypeInfo) {\n\t\tres[info.Name] = info.Doc\n\t\tfor _, field := range info.Fields {\n\t\t\tres[info.Name+"."+field.Name] = field.Doc\n\t\t}\n\t}); err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn res\n}\n\nfunc TestSeededDemo(t *testing.T) {\n\tdocs := docsOf(t, "package x\\n\\n// A takes\\n// --verbose or\\n// --quiet.\\ntype A string\\n")\n\tfor name, want := range map[string]string{"A": "A takes\\n--verbose or\\n--quiet."} {\n\t\tif docs[name] != want {\n\t\t\tt.Errorf("%s: %q, expected %q", name, docs[name], want)\n\t\t}\n\t}\n}\n'
