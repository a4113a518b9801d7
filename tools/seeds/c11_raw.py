id='c11-raw-schema'; prop='C11'
needs='a type that is flattened as part of another one, and the raw schema of that type read afterwards'
breaks='flattening a type rewrites the schemas of the types it refers to, as they were first made'
edits=[('pkg/crd/flatten.go',"""		refSchema = refSchema.DeepCopy()

		// keep""","""
		// keep""")]
pkg='pkg/crd'
test="""package crd

import (
	"encoding/json"
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"golang.org/x/tools/go/packages"
)

func TestSeededDemo(t *testing.T) {
	pkg := &loader.Package{Package: &packages.Package{PkgPath: "demo", Name: "demo"}}
	b, c := "#/definitions/B", "#/definitions/C"
	p := &Parser{}
	p.init()
	p.packages[pkg] = struct{}{}
	id := func(n string) TypeIdent { return TypeIdent{Package: pkg, Name: n} }
	p.Schemata[id("A")] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"b": {Ref: &b}}}
	p.Schemata[id("B")] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"c": {Ref: &c}}}
	p.Schemata[id("C")] = apiext.JSONSchemaProps{Type: "string"}
	was, _ := json.Marshal(p.Schemata[id("B")])
	p.flattener.FlattenType(id("A"))
	now, _ := json.Marshal(p.Schemata[id("B")])
	if string(was) != string(now) {
		t.Errorf("%s became %s", was, now)
	}
}
"""
