id='c18-uint32-format'; prop='C18'
needs='an API field of type uint32'
breaks='unsigned 32-bit integers are written without format int32'
edits=[('pkg/crd/schema.go','''	case types.Int32, types.Uint32:
''','''	case types.Int32:
''')]
pkg='pkg/crd'
test='''package crd

import (
	"go/types"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	for kind, want := range map[types.BasicKind]string{types.Uint32: "int32", types.Int32: "int32", types.Uint64: "int64", types.Int: ""} {
		typ, format, err := builtinToType(types.Typ[kind], false)
		if err != nil || typ != "integer" || format != want {
			t.Errorf("%v: %q %q %v", types.Typ[kind], typ, format, err)
		}
	}
}
'''
