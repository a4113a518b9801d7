id='c05-interfaces-unregistered'; prop='C05'
needs='a type marked with the legacy marker k8s:deepcopy-gen:interfaces only'
breaks='the object generator no longer registers the legacy interfaces marker it still acts on, so the marker is taken for another one and ignored'
edits=[('pkg/deepcopy/gen.go','''		legacyEnableTypeMarker, isObjectMarker, legacyIsObjectMarker); err != nil {
''','''		legacyEnableTypeMarker, isObjectMarker); err != nil {
''')]
pkg='pkg/deepcopy'
test='''package deepcopy

import (
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

func TestSeededDemo(t *testing.T) {
	reg := &markers.Registry{}
	if err := (Generator{}).RegisterMarkers(reg); err != nil {
		t.Fatal(err)
	}
	raw := "+k8s:deepcopy-gen:interfaces=" + runtimeObjPath
	def := reg.Lookup(raw, markers.DescribesType)
	if def == nil {
		t.Fatal("unknown marker")
	}
	val, err := def.Parse(raw)
	if err != nil {
		t.Fatal(err)
	}
	if !genObjectInterface(&markers.TypeInfo{Markers: markers.MarkerValues{def.Name: {val}}}) {
		t.Fatal("not honoured")
	}
}
'''
