id='c24-unlisted-reset'; prop='C24'
needs='a CRD whose only defined version is not the first one listed'
breaks='a version gets the schema of an earlier version of the same manifest'
edits=[('pkg/schemapatcher/gen.go','''		newSchema, found := newSchemata[name]
		if !found {
''','''		var newSchema apiext.JSONSchemaProps
		if s, ok := newSchemata[name]; ok || i > 0 {
			newSchema, found = s, ok || found
		}
		if _, ok := newSchemata[name]; !ok && i == 0 {
''')]
pkg='pkg/schemapatcher'
test='''package schemapatcher

import (
	"strings"
	"testing"

	"gopkg.in/yaml.v3"
	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestSeededDemo(t *testing.T) {
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte("spec:\\n  versions:\\n  - name: v1\\n    schema: {openAPIV3Schema: {type: string}}\\n  - name: v2\\n    schema: {openAPIV3Schema: {type: string}}\\n"), &doc); err != nil {
		t.Fatal(err)
	}
	crd := &partialCRD{Yaml: &doc}
	if err := crd.setVersionedSchemata(map[string]apiext.JSONSchemaProps{"v1": {Type: "object"}}); err != nil {
		t.Fatal(err)
	}
	out, err := yaml.Marshal(&doc)
	if err != nil || strings.Count(string(out), "openAPIV3Schema") != 1 {
		t.Fatalf("%v %s", err, out)
	}
}
'''
