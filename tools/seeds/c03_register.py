id='c03-register-unlock'; prop='C03'
needs='the registration of a definition for an unknown target, then any other use of the registry'
breaks='the registry stays locked after a definition with an unknown target was refused: the next use waits forever'
edits=[('pkg/markers/reg.go','''	r.mu.Lock()
	defer r.mu.Unlock()

	switch def.Target {
	case DescribesPackage:
		r.forPkg[def.Name] = def
	case DescribesType:
		r.forType[def.Name] = def
	case DescribesField:
		r.forField[def.Name] = def
	default:
		return fmt.Errorf("unknown target type %v", def.Target)
	}
	return nil
''','''	r.mu.Lock()
	switch def.Target {
	case DescribesPackage:
		r.forPkg[def.Name] = def
	case DescribesType:
		r.forType[def.Name] = def
	case DescribesField:
		r.forField[def.Name] = def
	default:
		return fmt.Errorf("unknown target type %v", def.Target)
	}
	r.mu.Unlock()
	return nil
''')]
pkg='pkg/markers'
test='''package markers

import (
	"testing"
	"time"
)

func TestSeededDemo(t *testing.T) {
	reg := &Registry{}
	if err := reg.Register(&Definition{Name: "x", Target: 77}); err == nil {
		t.Fatal("accepted")
	}
	done := make(chan bool)
	go func() { reg.Lookup("+x", DescribesType); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("the lookup never ends")
	}
}
'''
