id='c22-paths-replaced'; prop='C22'
needs='the paths option given more than once'
breaks='only the paths of the last paths option are loaded'
edits=[('pkg/genall/options.go','''			paths = append(paths, val...)
''','''			paths = val
''')]
pkg='pkg/genall'
test='''package genall

import (
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestSeededDemo(t *testing.T) {
	reg := &markers.Registry{}
	if err := RegisterOptionsMarkers(reg); err != nil {
		t.Fatal(err)
	}
	rt, err := protoFromOptions(reg, []string{"paths=./a", "paths={./b,./c}"})
	if err != nil {
		t.Fatal(err)
	}
	if len(rt.Paths) != 3 {
		t.Fatalf("got %v", rt.Paths)
	}
}
'''
