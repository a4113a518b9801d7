id='c19-dash-name'; prop='C19'
needs='a field with the JSON tag "-," whose name really is a dash'
breaks='a field tagged json:"-," is left out of the schema although only "-" means omitted'
edits=[('pkg/crd/schema.go','''		if len(jsonOpts) == 1 && jsonOpts[0] == "-" {
''','''		if jsonOpts[0] == "-" {
''')]
pkg='pkg/crd'
test=open('/verif/tools/seeds/lib_crdtool.txt').read()+'''
func TestSeededDemo(t *testing.T) {
	schema, errs := schemaOf(t, "package demo\\n\\ntype T struct {\\n\\tDash string `json:\\"-,\\"`\\n\\tGone string `json:\\"-\\"`\\n}\\n", "T")
	if len(errs) != 0 {
		t.Fatal(errs)
	}
	if _, ok := schema.Properties["-"]; !ok || len(schema.Properties) != 1 {
		t.Fatalf("got %v", schema.Properties)
	}
}
'''
