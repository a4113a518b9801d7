id='c06-metadata-value'; prop='C06'
needs='a +kubebuilder:metadata annotation or label whose value itself contains an equals sign'
breaks='Metadata.ApplyToCRD cuts the value of a label at its second equals sign instead of keeping everything after the first one'
edits=[('pkg/crd/markers/crd.go','''		for _, str := range s.Labels {
			kv := strings.SplitN(str, "=", 2)
''','''		for _, str := range s.Labels {
			kv := strings.SplitN(str, "=", 3)
''')]
pkg='pkg/crd/markers'
test='''package markers

import (
	"testing"

	apiext "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
)

func TestSeededDemo(t *testing.T) {
	crd := &apiext.CustomResourceDefinition{}
	m := Metadata{Labels: []string{"a=b=c=d"}, Annotations: []string{"x=y=z"}}
	if err := m.ApplyToCRD(crd, "v1"); err != nil {
		t.Fatal(err)
	}
	if crd.Labels["a"] != "b=c=d" || crd.Annotations["x"] != "y=z" {
		t.Fatalf("got %v %v", crd.Labels, crd.Annotations)
	}
}
'''
