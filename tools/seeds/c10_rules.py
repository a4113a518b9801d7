id='c10-rules-same-message'; prop='C10'
needs='a type and a field (or an embedded type) that both have validation rules with the same message'
breaks='of two different validation rules with the same message only one is kept'
edits=[('pkg/crd/flatten.go','''			dstField.Set(reflect.AppendSlice(srcField, dstField))
''','''			dst.XValidations = mergeRules(src.XValidations, dst.XValidations)
'''),('pkg/crd/flatten.go','''// allOfVisitor recursively visits''','''// mergeRules adds the given rules to the others, leaving out duplicates.
func mergeRules(rules, others apiext.ValidationRules) apiext.ValidationRules {
	seen := map[string]bool{}
	merged := make(apiext.ValidationRules, 0, len(rules)+len(others))
	for _, rule := range append(append(merged, rules...), others...) {
		key := rule.Message
		if key == "" {
			key = rule.Rule
		}
		if !seen[key] {
			seen[key] = true
			merged = append(merged, rule)
		}
	}
	return merged
}

// allOfVisitor recursively visits''')]
pkg='pkg/crd'
test='''package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type seededRec struct{ t *testing.T }

func (r seededRec) AddError(err error) { r.t.Error(err) }

func TestSeededDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{
		XValidations: apiext.ValidationRules{{Rule: "self == oldSelf", Message: "no"}},
		AllOf:        []apiext.JSONSchemaProps{{XValidations: apiext.ValidationRules{{Rule: "self > 0", Message: "no"}}}},
	}
	if res := FlattenEmbedded(s, seededRec{t}); len(res.XValidations) != 2 {
		t.Errorf("rules: %v", res.XValidations)
	}
}
'''
