id='c09-dependency-copy'; prop='C09'
needs='a schema with a schema dependency, edited by a visitor (truncation of descriptions, flattening)'
breaks='edits made inside schema dependencies are made to a copy and lost'
edits=[('pkg/crd/schema_visitor.go','''		subWalker.walkPtr(dep.Schema)
		schema.Dependencies[name] = dep
''','''		if dep.Schema != nil {
			def := *dep.Schema
			subWalker.walkSchema(&def)
		}
		schema.Dependencies[name] = dep
''')]
pkg='pkg/crd'
test='''package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestSeededDemo(t *testing.T) {
	s := apiext.JSONSchemaProps{Dependencies: apiext.JSONSchemaDependencies{"a": {Schema: &apiext.JSONSchemaProps{Description: "long text"}}}}
	TruncateDescription(&s, 0)
	if d := s.Dependencies["a"].Schema.Description; d != "" {
		t.Fatalf("description of the dependency is %q", d)
	}
}
'''
