id='c26-nested'; prop="C26"
needs='a schema whose own description fits while one nested in it does not'
breaks='a nested description stays longer than the limit'
edits=[('pkg/crd/desc_visitor.go', '\t\tschema.Description = truncateString(schema.Description, v.maxLen)\n\t\treturn v\n\t}\n\treturn v\n', '\t\tschema.Description = truncateString(schema.Description, v.maxLen)\n\t\treturn v\n\t}\n\tif schema.Description != "" && len(schema.Properties) == 0 {\n\t\treturn nil\n\t}\n\treturn v\n')]
pkg="pkg/crd"
test='package crd\n\nimport (\n\t"fmt"\n\t"testing"\n\n\tapiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"\n\t"k8s.io/apimachinery/pkg/runtime/schema"\n\n\t"sigs.k8s.io/controller-tools/pkg/loader"\n\t"sigs.k8s.io/controller-tools/pkg/markers"\n\t"golang.org/x/tools/go/packages"\n)\n\nfunc TestSeededDemo(t *testing.T) {\n\ts := &apiext.JSONSchemaProps{Type: "array", Description: "Short.", Items: &apiext.JSONSchemaPropsOrArray{Schema: &apiext.JSONSchemaProps{Type: "string", Description: "One sentence. Another one."}}}\n\tTruncateDescription(s, 15)\n\tif d := s.Items.Schema.Description; len(d) > 18 {\n\t\tt.Fatal(d)\n\t}\n\n\t_ = fmt.Sprint\n\t_ = schema.GroupKind{}\n\t_ = apiext.JSONSchemaProps{}\n\t_ = loader.Package{}\n\t_ = markers.TypeInfo{}\n\t_ = packages.Package{}\n}\n'
