id='c13-trailing-semicolon'; prop='C13'
needs='a marker with a single number or quoted value that is followed by a semicolon and nothing else'
breaks='trailing text after a complete value is accepted'
edits=[('pkg/markers/parse.go','''	if tok := scanner.Scan(); tok != sc.EOF {
''','''	tok := scanner.Scan()
	for tok == ';' {
		tok = scanner.Scan()
	}
	if tok != sc.EOF {
''')]
pkg='pkg/markers'
test='''package markers

import "testing"

func TestSeededDemo(t *testing.T) {
	def, err := MakeDefinition("m", DescribesType, int(0))
	if err != nil {
		t.Fatal(err)
	}
	if val, err := def.Parse("+m=5"); err != nil || val != 5 {
		t.Fatal(val, err)
	}
	if val, err := def.Parse("+m=5;"); err == nil {
		t.Fatalf("accepted as %#v", val)
	}
}
'''
