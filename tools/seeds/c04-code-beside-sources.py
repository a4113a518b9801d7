id='c04-code-beside-sources'; prop='C04'
needs='an artifacts output rule that overrides the code directory, and a package whose sources lie on disk'
breaks='code is written beside the sources instead of to the directory chosen for code'
edits=[('pkg/genall/output.go','''	if o.Code != "" {
		return o.Code.Open(pkg, itemPath)
	}
''','''	if o.Code != "" && len(pkg.CompiledGoFiles) == 0 {
		return o.Code.Open(pkg, itemPath)
	}
''')]
pkg='pkg/genall'
test='''package genall

import (
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/loader"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	src, code := filepath.Join(dir, "src"), filepath.Join(dir, "code")
	pkg := &loader.Package{Package: &packages.Package{CompiledGoFiles: []string{filepath.Join(src, "x.go")}}}
	out, err := OutputArtifacts{Config: OutputToDirectory(dir), Code: OutputToDirectory(code)}.Open(pkg, "zz.go")
	if err != nil {
		t.Fatal(err)
	}
	out.Close()
	if _, err := os.Stat(filepath.Join(code, "zz.go")); err != nil {
		t.Fatal(err)
	}
}
'''
