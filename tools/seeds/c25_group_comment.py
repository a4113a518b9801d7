id='c25-group-comment'; prop='C25'
needs='a comment group above a parenthesised group of types'
breaks='the comment above the group is attached to the first type in it'
edits=[('pkg/markers/collect.go', '\t\tif typedNode.Lparen != token.NoPos || typedNode.Tok != token.TYPE {', '\t\tif len(typedNode.Specs) > 1 || typedNode.Tok != token.TYPE {')]
pkg='pkg/markers'
test='package markers\n\nimport (\n\t"fmt"\n\t"go/ast"\n\t"go/parser"\n\t"go/token"\n\t"testing"\n\n\t"golang.org/x/tools/go/packages"\n\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n)\n\nfunc markersIn(t *testing.T, srcs ...string) (*Collector, *loader.Package) {\n\treg := &Registry{}\n\tfor name, target := range map[string]TargetType{"p": DescribesPackage, "t": DescribesType, "f": DescribesField} {\n\t\tif err := reg.Define(name, target, int(0)); err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t}\n\tfset := token.NewFileSet()\n\tvar files []*ast.File\n\tfor i, src := range srcs {\n\t\tf, err := parser.ParseFile(fset, fmt.Sprintf("f%d.go", i), src, parser.ParseComments)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tfiles = append(files, f)\n\t}\n\treturn &Collector{Registry: reg}, &loader.Package{Package: &packages.Package{Syntax: files, Fset: fset}}\n}\n\nfunc TestSeededDemo(t *testing.T) {\n\tcol, pkg := markersIn(t, "package x\\n\\n// +t=1\\n\\ntype (\\n\\tA string\\n)\\n")\n\terr := EachType(col, pkg, func(info *TypeInfo) {\n\t\tif got := info.Markers.Get("t"); got != nil {\n\t\t\tt.Fatal(info.Name, got)\n\t\t}\n\t})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\n}\n'
