id='c21-format-failure-hidden'; prop='C21'
needs='generated source that gofmt rejects, for instance because of an unterminated comment in the header file'
breaks='a formatting failure is not reported: the run succeeds and leaves an invalid file behind'
edits=[('pkg/deepcopy/gen.go','''	formattedBytes, err := format.Source(outBytes)
	if err != nil {
		root.AddError(err)
		// we still write the invalid source to disk to figure out what went wrong
	} else {
		outBytes = formattedBytes
	}
''','''	if formattedBytes, err := format.Source(outBytes); err == nil {
		outBytes = formattedBytes
	}
''')]
pkg='pkg/deepcopy'
test=open('/verif/tools/seeds/lib_ctx.txt').read() % ('deepcopy','') + '''
func TestSeededDemo(t *testing.T) {
	hdr := filepath.Join(t.TempDir(), "hdr.txt")
	if err := os.WriteFile(hdr, []byte("/* never closed"), 0o644); err != nil {
		t.Fatal(err)
	}
	g := Generator{HeaderFile: hdr}
	ctx, _ := demoCtx(t, g, map[string]string{"v1/types.go": `// +kubebuilder:object:generate=true
package v1

type T struct{ P *int }
`})
	if err := g.Generate(ctx); err == nil && len(ctx.Roots[0].Errors) == 0 {
		t.Fatal("the invalid output is not reported")
	}
}
'''
