id='c24-key-case'; prop='C24'
needs='a manifest with a key that differs from a schema key only in case, before it'
breaks='patching drops a key of the manifest that is spelled like "validation" or "schema" in another case'
edits=[('pkg/schemapatcher/internal/yaml/set.go','''	"fmt"
''','''	"fmt"
	"strings"
'''),('pkg/schemapatcher/internal/yaml/set.go','''		if keyNode.Value == keyToDelete {
''','''		if strings.EqualFold(keyNode.Value, keyToDelete) {
''')]
pkg='pkg/schemapatcher/internal/yaml'
test='''package yaml

import (
	"testing"

	"gopkg.in/yaml.v3"
)

func TestSeededDemo(t *testing.T) {
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte("spec:\\n  Validation: mine\\n  validation: {}\\n"), &doc); err != nil {
		t.Fatal(err)
	}
	if err := DeleteNode(&doc, "spec", "validation"); err != nil {
		t.Fatal(err)
	}
	out, err := yaml.Marshal(&doc)
	if err != nil || string(out) != "spec:\\n    Validation: mine\\n" {
		t.Fatalf("%v %q", err, out)
	}
}
'''
