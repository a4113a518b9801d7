id='c02-transform-error'; prop='C02'
needs='a transformation of a written object that fails, followed by another that succeeds'
breaks='the failure is overwritten by the result of the next transformation, and the untransformed object is written'
edits=[('pkg/genall/genall.go','''	for _, option := range options {
		if option.transform != nil {
			if err := option.transform(jsonObj); err != nil {
				return nil, err
			}
		}
	}
''','''	var transformErr error
	for _, option := range options {
		if option.transform != nil {
			transformErr = option.transform(jsonObj)
		}
	}
	if transformErr != nil {
		return nil, transformErr
	}
''')]
pkg='pkg/genall'
test='''package genall

import (
	"errors"
	"testing"
)

func TestSeededDemo(t *testing.T) {
	bad := WithTransform(func(map[string]interface{}) error { return errors.New("x") })
	good := WithTransform(func(map[string]interface{}) error { return nil })
	for _, opts := range [][]*WriteYAMLOptions{{bad}, {good, bad}, {bad, good}} {
		ctx := GenerationContext{OutputRule: OutputToNothing}
		if err := ctx.WriteYAML("x.yaml", "", []interface{}{map[string]string{"a": "b"}}, opts...); err == nil {
			t.Fatalf("%d transformations: no error", len(opts))
		}
	}
}
'''
