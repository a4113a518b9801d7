id='c02-last-generator-wins'; prop='C02'
needs='two generators of which the first fails and the last succeeds, with no package errors'
breaks='the failure of the first generator is forgotten, and the command exits with status 0'
edits=[('pkg/genall/genall.go','''		if err := (*gen).Generate(&ctx); err != nil {
			fmt.Fprintln(r.ErrorWriter, err)
			hadErrs = true
		}
''','''		err := (*gen).Generate(&ctx)
		hadErrs = err != nil
		if hadErrs {
			fmt.Fprintln(r.ErrorWriter, err)
		}
''')]
pkg='pkg/genall'
test='''package genall

import (
	"errors"
	"io"
	"testing"

	"sigs.k8s.io/controller-tools/pkg/markers"
)

type demoGen struct{ err error }

func (demoGen) RegisterMarkers(*markers.Registry) error  { return nil }
func (g demoGen) Generate(*GenerationContext) error { return g.err }

func TestSeededDemo(t *testing.T) {
	for _, order := range [][]error{{errors.New("x"), nil}, {nil, errors.New("x")}, {errors.New("x")}} {
		var gens Generators
		for _, e := range order {
			var g Generator = demoGen{e}
			gens = append(gens, &g)
		}
		rt := &Runtime{Generators: gens, OutputRules: OutputRules{Default: OutputToNothing}, ErrorWriter: io.Discard}
		if !rt.Run() {
			t.Fatalf("errors %v: the run reports success", order)
		}
	}
}
'''
