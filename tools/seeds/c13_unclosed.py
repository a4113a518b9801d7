id='c13-unclosed-map'; prop='C13'
needs='a map argument whose last entry is a bare string and whose closing brace is missing'
breaks='an unclosed map is accepted, with what follows it silently taken as ended'
edits=[('pkg/markers/parse.go','''	if !expect(scanner, '}', "close curly brace") {
		return
	}

	castAndSet(out, resMap)''','''	if peekNoSpace(scanner) == sc.EOF && resMap.Len() > 0 {
		castAndSet(out, resMap)
		return
	}
	if !expect(scanner, '}', "close curly brace") {
		return
	}

	castAndSet(out, resMap)'''),('pkg/markers/parse.go','''		if peekNoSpace(scanner) == '}' {
			break
		}
		if !expect(scanner, ',', "comma") {
			return
		}
	}

	if peek''','''		if next := peekNoSpace(scanner); next == '}' || next == sc.EOF {
			break
		}
		if !expect(scanner, ',', "comma") {
			return
		}
	}

	if peek''')]
pkg='pkg/markers'
test='''package markers

import "testing"

func TestSeededDemo(t *testing.T) {
	type out struct {
		Labels map[string]string
	}
	def, err := MakeDefinition("m", DescribesType, out{})
	if err != nil {
		t.Fatal(err)
	}
	if _, err := def.Parse("+m:labels={a: b, c: d}"); err != nil {
		t.Fatal(err)
	}
	if val, err := def.Parse("+m:labels={a: b, c: d"); err == nil {
		t.Fatalf("accepted as %#v", val)
	}
}
'''
