id='c12-list-placeholder'; prop='C12'
needs='a list or map type that contains itself without a struct in between, referred to from another type'
breaks='flattening such a type never ends: the marker against loops is only left for types with properties'
edits=[('pkg/crd/flatten.go',"""		f.cacheType(refIdent, apiext.JSONSchemaProps{})
""","""		if len(refSchema.Properties) > 0 || len(refSchema.AllOf) > 0 {
			f.cacheType(refIdent, apiext.JSONSchemaProps{})
		}
""")]
pkg='pkg/crd'
test="""package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

func TestSeededDemo(t *testing.T) {
	pkg := &loader.Package{Package: &packages.Package{PkgPath: "demo", Name: "demo"}}
	l := "#/definitions/L"
	p := &Parser{}
	p.init()
	p.packages[pkg] = struct{}{}
	id := func(n string) TypeIdent { return TypeIdent{Package: pkg, Name: n} }
	p.Schemata[id("A")] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"l": {Ref: &l}}}
	p.Schemata[id("L")] = apiext.JSONSchemaProps{Type: "array", Items: &apiext.JSONSchemaPropsOrArray{Schema: &apiext.JSONSchemaProps{Ref: &l}}}
	p.flattener.FlattenType(id("A"))
}
"""
