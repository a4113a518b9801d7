id='c21-tag-only-without-flags'; prop='C21'
needs='a caller of the loader that passes build flags other than -tags'
breaks='generated files are loaded again: the default tag is only set when no other build flags are given'
edits=[('pkg/loader/loader.go','''	l.cfg.BuildFlags = append([]string{"-tags=ignore_autogenerated"}, l.cfg.BuildFlags...)
''','''	if len(l.cfg.BuildFlags) == 0 {
		l.cfg.BuildFlags = []string{"-tags=ignore_autogenerated"}
	}
''')]
pkg='pkg/loader'
test='''package loader

import (
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
)

func TestSeededDemo(t *testing.T) {
	for _, flags := range [][]string{nil, {"-buildvcs=false"}} {
		dir := t.TempDir()
		for n, s := range map[string]string{"go.mod": "module demo\\n\\ngo 1.22\\n", "a.go": "package demo\\n", "zz_generated.go": "//go:build !ignore_autogenerated\\n\\npackage demo\\n"} {
			if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644); err != nil {
				t.Fatal(err)
			}
		}
		pkgs, err := LoadRootsWithConfig(&packages.Config{Dir: dir, BuildFlags: flags}, "./...")
		if err != nil || len(pkgs) != 1 {
			t.Fatal(pkgs, err)
		}
		if len(pkgs[0].GoFiles) != 1 {
			t.Errorf("flags %v: loaded %v", flags, pkgs[0].GoFiles)
		}
	}
}
'''
