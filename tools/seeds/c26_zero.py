id='c26-zero'; prop="C26"
needs='a limit of zero given to the generator'
breaks='a limit of zero keeps all descriptions in the CRD'
edits=[('pkg/crd/spec.go', '\t\tif maxDescLen != nil {', '\t\tif maxDescLen != nil && *maxDescLen > 0 {')]
pkg="pkg/crd"
test='package crd\n\nimport (\n\t"fmt"\n\t"testing"\n\n\tapiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"\n\t"k8s.io/apimachinery/pkg/runtime/schema"\n\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n\t"sigs.k8s.io/controller-tools/pkg/markers"\n\t"golang.org/x/tools/go/packages"\n)\n\nfunc TestSeededDemo(t *testing.T) {\n\troot := &loader.Package{Package: &packages.Package{PkgPath: "x.io/v1", Name: "v1"}}\n\tgk := schema.GroupKind{Group: "x.io", Kind: "Thing"}\n\tid := TypeIdent{Package: root, Name: "Thing"}\n\tp := &Parser{\n\t\tCollector: &markers.Collector{Registry: &markers.Registry{}},\n\t\tGroupVersions: map[*loader.Package]schema.GroupVersion{root: {Group: "x.io", Version: "v1"}},\n\t\tTypes: map[TypeIdent]*markers.TypeInfo{id: {Name: "Thing", Markers: markers.MarkerValues{}}},\n\t\tFlattenedSchemata: map[TypeIdent]apiext.JSONSchemaProps{id: {\n\t\t\tType: "object", Description: "A thing. It does things.",\n\t\t\tProperties: map[string]apiext.JSONSchemaProps{"spec": {Type: "string", Description: "One sentence. Another one."}},\n\t\t}},\n\t}\n\tlimit := 0\n\tp.NeedCRDFor(gk, &limit)\n\tcrd := p.CustomResourceDefinitions[gk]\n\tgot := crd.Spec.Versions[0].Schema.OpenAPIV3Schema\n\tif got.Description != "" || got.Properties["spec"].Description != "" {\n\t\tt.Fatal(got.Description, got.Properties["spec"].Description)\n\t}\n\n\t_ = fmt.Sprint\n\t_ = schema.GroupKind{}\n\t_ = apiext.JSONSchemaProps{}\n\t_ = loader.Package{}\n\t_ = markers.TypeInfo{}\n\t_ = packages.Package{}\n}\n'
