id='c14-duplicate-name-hidden'; prop='C14'
needs='a marker registered both for types and for fields, whose help pages are grouped by category'
breaks='the second definition of a marker name in a category is dropped from the help page'
edits=[('pkg/genall/help/types.go','''		groupedMarkers[group] = append(groupedMarkers[group], marker)
''','''		if n := len(groupedMarkers[group]); n > 0 && groupedMarkers[group][n-1].Name == marker.Name {
			continue
		}
		groupedMarkers[group] = append(groupedMarkers[group], marker)
''')]
pkg='pkg/genall/help'
test='''package help_test

import (
	"testing"

	"sigs.k8s.io/controller-tools/pkg/genall/help"
	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestSeededDemo(t *testing.T) {
	reg := &markers.Registry{}
	for _, target := range []markers.TargetType{markers.DescribesType, markers.DescribesField} {
		def := markers.Must(markers.MakeDefinition("demo:marker", target, ""))
		if err := reg.Register(def); err != nil {
			t.Fatal(err)
		}
		reg.AddHelp(def, markers.SimpleHelp("demo", "does things"))
	}
	n := 0
	for _, c := range help.ByCategory(reg, help.SortByCategory) {
		n += len(c.Markers)
	}
	if n != 2 {
		t.Fatalf("%d markers documented instead of 2", n)
	}
}
'''
