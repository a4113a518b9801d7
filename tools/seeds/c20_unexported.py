id='c20-unexported-field'; prop='C20'
needs='a struct whose only reference fields are unexported, used as a slice element or map value'
breaks='the deep copy of such a struct shares the memory behind its unexported fields with the original'
edits=[('pkg/deepcopy/traverse.go','''			field := typeInfo.Field(i)
			if !fineToShallowCopy(field.Type()) {
''','''			field := typeInfo.Field(i)
			if !field.Exported() {
				continue
			}
			if !fineToShallowCopy(field.Type()) {
''')]
pkg='pkg/deepcopy'
test=open('/verif/tools/seeds/lib_ctx.txt').read() % ('deepcopy','\t"os/exec"\n') + '''
func TestSeededDemo(t *testing.T) {
	ctx, out := demoCtx(t, Generator{}, map[string]string{"v1/types.go": `// +kubebuilder:object:generate=true
package v1

type Inner struct{ p *int }

func New(p *int) Inner { return Inner{p} }
func (i Inner) Get() int { return *i.p }

type Outer struct{ L []Inner }
`})
	if err := (Generator{}).Generate(ctx); err != nil {
		t.Fatal(err)
	}
	dir := filepath.Dir(filepath.Dir(ctx.Roots[0].GoFiles[0]))
	gen, err := os.ReadFile(filepath.Join(out, "zz_generated.deepcopy.go"))
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "v1", "zz.go"), gen, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "main.go"), []byte(`package main

import "demo/v1"

func main() {
	x := 1
	o := &v1.Outer{L: []v1.Inner{v1.New(&x)}}
	c := o.DeepCopy()
	x = 2
	if c.L[0].Get() != 1 {
		panic("shared")
	}
}
`), 0o644); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("go", "run", ".")
	cmd.Dir = dir
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, b)
	}
}
'''
