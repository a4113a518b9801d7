id='c03-unreadable-file'; prop='C03'
needs='a source file of the package that disappears between loading and parsing'
breaks='parsing a package waits forever when one of its files cannot be read'
edits=[('pkg/loader/loader.go','''			defer wg.Done()
			src, err := os.ReadFile(filename)
''','''			src, err := os.ReadFile(filename)
'''),('pkg/loader/loader.go','''			out[i], errs[i] = p.loader.parseFile(filename, src)
''','''			out[i], errs[i] = p.loader.parseFile(filename, src)
			wg.Done()
''')]
pkg='pkg/loader'
test='''package loader

import (
	"os"
	"path/filepath"
	"testing"
	"time"

	"golang.org/x/tools/go/packages"
)

func TestSeededDemo(t *testing.T) {
	dir := t.TempDir()
	for n, s := range map[string]string{"go.mod": "module demo\\n\\ngo 1.22\\n", "a.go": "package demo\\n", "b.go": "package demo\\n"} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	pkgs, err := LoadRootsWithConfig(&packages.Config{Dir: dir}, ".")
	if err != nil || len(pkgs) != 1 {
		t.Fatal(err, pkgs)
	}
	if err := os.Remove(filepath.Join(dir, "b.go")); err != nil {
		t.Fatal(err)
	}
	done := make(chan bool)
	go func() { pkgs[0].NeedSyntax(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("parsing never ends")
	}
}
'''
