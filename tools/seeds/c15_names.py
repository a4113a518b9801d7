id='c15-merge-names'; prop='C15'
needs='two RBAC markers for the same resource and verbs in different groups, restricted to different resource names'
breaks='rules are combined over their groups although their resource names differ, so one set of names is lost and the other applies to both groups'
edits=[('pkg/rbac/parser.go','''	return fmt.Sprintf("%s + %s + %s + %s", key.Resources, key.ResourceNames, key.URLs, verbs)
''','''	return fmt.Sprintf("%s + %s + %s", key.Resources, key.URLs, verbs)
''')]
pkg='pkg/rbac'
lib='''package %s

import (
	"io"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
	"sigs.k8s.io/controller-tools/pkg/genall"
	"sigs.k8s.io/controller-tools/pkg/loader"
	"sigs.k8s.io/controller-tools/pkg/markers"
%s)

type demoOut struct{ dir string }

func (o demoOut) Open(_ *loader.Package, p string) (io.WriteCloser, error) {
	return os.Create(filepath.Join(o.dir, filepath.Base(p)))
}

// demoCtx loads one package with the given source.
func demoCtx(t *testing.T, gen genall.Generator, files map[string]string) (*genall.GenerationContext, string) {
	t.Helper()
	dir := t.TempDir()
	files["go.mod"] = "module demo\\n\\ngo 1.22\\n"
	for n, src := range files {
		p := filepath.Join(dir, n)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			t.Fatal(err)
		}
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	pkgs, err := loader.LoadRootsWithConfig(&packages.Config{Dir: dir}, "./...")
	if err != nil {
		t.Fatal(err)
	}
	reg := &markers.Registry{}
	if err := gen.RegisterMarkers(reg); err != nil {
		t.Fatal(err)
	}
	out := t.TempDir()
	return &genall.GenerationContext{Collector: &markers.Collector{Registry: reg}, Roots: pkgs, Checker: &loader.TypeChecker{}, OutputRule: demoOut{out}, InputRule: genall.InputFromFileSystem}, out
}
'''
open('/verif/tools/seeds/lib_ctx.txt','w').write(lib)
test=lib%('rbac','')+'''
func TestSeededDemo(t *testing.T) {
	ctx, _ := demoCtx(t, Generator{}, map[string]string{"a.go": "// +kubebuilder:rbac:groups=a,resources=r,resourceNames=n,verbs=get\\n// +kubebuilder:rbac:groups=b,resources=r,resourceNames=m,verbs=get\\n\\npackage demo\\n"})
	objs, err := GenerateRoles(ctx, "x")
	if err != nil || len(objs) != 1 {
		t.Fatal(objs, err)
	}
	role := objs[0].(rbacv1.ClusterRole)
	if len(role.Rules) != 2 {
		t.Fatalf("got %v", role.Rules)
	}
}
'''
test=test.replace('	"golang.org/x/tools/go/packages"\n','	"golang.org/x/tools/go/packages"\n	rbacv1 "k8s.io/api/rbac/v1"\n')
