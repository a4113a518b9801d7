id='c07-multipleof-integral'; prop='C07'
needs='a multipleOf above one that is not integral on an integer field, e.g. 2.5'
breaks='MultipleOf only rejects fractions below one on integer schemas'
edits=[('pkg/crd/markers/validation.go','''	if schema.Type == "integer" && !isIntegral(m.Value()) {
		return fmt.Errorf("cannot apply non-integral multipleof''','''	if schema.Type == "integer" && m.Value() < 1 {
		return fmt.Errorf("cannot apply non-integral multipleof''')]
pkg='pkg/crd/markers'
test='''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestSeededDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{Type: "integer"}
	if err := MultipleOf(2.5).ApplyToSchema(s); err == nil || s.MultipleOf != nil {
		t.Fatalf("accepted 2.5 on an integer: %v", s)
	}
	if err := MultipleOf(3).ApplyToSchema(s); err != nil {
		t.Fatal(err)
	}
}
'''
