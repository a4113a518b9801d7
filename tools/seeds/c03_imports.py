id='c03-known-packages-unlocked'; prop='C03'
needs='two goroutines that ask for the imports of different packages at the same time'
breaks='the map of known packages is read without the lock that guards its updates'
edits=[('pkg/loader/loader.go','''	l.packagesMu.Lock()
	defer l.packagesMu.Unlock()

	out := make(map[string]*Package, len(pkgsRaw))
	for name, rawPkg := range pkgsRaw {
		out[name] = l.packageFor(rawPkg)
	}
	return out
''','''	out := make(map[string]*Package, len(pkgsRaw))
	for name, rawPkg := range pkgsRaw {
		pkg := l.packages[rawPkg]
		if pkg == nil {
			l.packagesMu.Lock()
			pkg = l.packageFor(rawPkg)
			l.packagesMu.Unlock()
		}
		out[name] = pkg
	}
	return out
''')]
pkg='pkg/loader'
test='''package loader

import (
	"fmt"
	"sync"
	"testing"

	"golang.org/x/tools/go/packages"
)

func TestSeededDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		l := &loader{cfg: &packages.Config{}, packages: map[*packages.Package]*Package{}}
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			raw := &packages.Package{Imports: map[string]*packages.Package{}}
			for j := 0; j < 300; j++ {
				n := fmt.Sprintf("p%d/%d", i, j)
				raw.Imports[n] = &packages.Package{PkgPath: n}
			}
			l.packagesMu.Lock()
			pkg := l.packageFor(raw)
			l.packagesMu.Unlock()
			wg.Add(1)
			go func() { defer wg.Done(); pkg.Imports() }()
		}
		wg.Wait()
	}
}
'''
