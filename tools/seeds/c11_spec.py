id='c11-truncate-only'; prop='C11'
needs='a kind with embedded metadata, whose flattened schema is read after its CRD has been completed'
breaks='completing the metadata of the CRD changes the cached schema of the type'
edits=[('pkg/crd/spec.go','''		fullSchema = *fullSchema.DeepCopy() // don't mutate the cache (we might be truncating description, etc)
		if maxDescLen != nil {
			TruncateDescription''','''		if maxDescLen != nil {
			fullSchema = *fullSchema.DeepCopy() // don't mutate the cache
			TruncateDescription''')]
pkg='pkg/crd'
test='''package crd

import (
	"encoding/json"
	"testing"

	"golang.org/x/tools/go/packages"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestSeededDemo(t *testing.T) {
	pkg := &loader.Package{Package: &packages.Package{PkgPath: "demo", Name: "demo"}}
	p := &Parser{}
	p.init()
	p.packages[pkg] = struct{}{}
	id := TypeIdent{Package: pkg, Name: "Foo"}
	p.GroupVersions[pkg] = schema.GroupVersion{Group: "g", Version: "v1"}
	p.Types[id] = &markers.TypeInfo{Name: "Foo"}
	p.Schemata[id] = apiext.JSONSchemaProps{Type: "object", Properties: map[string]apiext.JSONSchemaProps{"metadata": {Type: "object", Properties: map[string]apiext.JSONSchemaProps{"name": {Type: "string"}}}}}
	gk := schema.GroupKind{Group: "g", Kind: "Foo"}
	p.NeedCRDFor(gk, nil)
	was, _ := json.Marshal(p.FlattenedSchemata[id])
	FixTopLevelMetadata(p.CustomResourceDefinitions[gk])
	now, _ := json.Marshal(p.FlattenedSchemata[id])
	if string(was) != string(now) {
		t.Errorf("%s became %s", was, now)
	}
}
'''
