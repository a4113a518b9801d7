id='c10-second-conflict'; prop='C10'
needs='two embedded schemas that each conflict with the outer schema, in different fields'
breaks='the constraints set apart for the first conflict are replaced by those of the second'
edits=[('pkg/crd/flatten.go','''		dst.AllOf = append(dst.AllOf, dstRemainder, srcRemainder)
''','''		dst.AllOf = []apiext.JSONSchemaProps{dstRemainder, srcRemainder}
''')]
pkg='pkg/crd'
test='''package crd

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

type seededRec struct{ t *testing.T }

func (r seededRec) AddError(err error) { r.t.Error(err) }

func TestSeededDemo(t *testing.T) {
	s := &apiext.JSONSchemaProps{Pattern: "a", Format: "x", AllOf: []apiext.JSONSchemaProps{{Pattern: "b"}, {Format: "y"}}}
	found := map[string]bool{}
	res := FlattenEmbedded(s, seededRec{t})
	for _, p := range append(res.AllOf, *res) {
		found[p.Pattern], found[p.Format] = true, true
	}
	for _, w := range []string{"a", "b", "x", "y"} {
		if !found[w] {
			t.Errorf("%s is lost", w)
		}
	}
}
'''
