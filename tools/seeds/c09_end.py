id='c09-end-without-children'; prop='C09'
needs='a visited schema that is a reference the visitor leaves in place'
breaks='the end of a subtree is not notified for a reference that stays a reference, and what is nested beside the reference is not visited'
edits=[('pkg/crd/schema_visitor.go','''		if subVisitor == nil {
			return
		}
		// mark completion of the visitor
		defer subVisitor.Visit(nil)

		// Break if schema is not a reference or a cycle is detected
		if schema.Ref == nil || len(*schema.Ref) == 0 || seenRefs[*schema.Ref] {
			break
		}
''','''		if subVisitor == nil {
			return
		}

		// Nothing is nested in a reference that was already seen.
		if schema.Ref != nil && seenRefs[*schema.Ref] {
			return
		}
		// mark completion of the visitor
		defer subVisitor.Visit(nil)

		// Break if schema is not a reference
		if schema.Ref == nil || len(*schema.Ref) == 0 {
			break
		}
''')]
pkg='pkg/crd'
test='''package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type seededVisitor struct{ starts, ends *int }

func (v seededVisitor) Visit(s *apiext.JSONSchemaProps) SchemaVisitor {
	if s == nil {
		*v.ends++
	} else {
		*v.starts++
	}
	return v
}

func TestSeededDemo(t *testing.T) {
	ref := "#/definitions/x"
	s := apiext.JSONSchemaProps{Ref: &ref, Properties: map[string]apiext.JSONSchemaProps{"a": {}}}
	var starts, ends int
	EditSchema(&s, seededVisitor{&starts, &ends})
	if starts != 2 || ends != 2 {
		t.Fatalf("%d starts, %d ends", starts, ends)
	}
}
'''
