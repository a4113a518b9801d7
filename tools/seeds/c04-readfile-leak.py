id='c04-readfile-leak'; prop='C04'
needs='an input whose content cannot be read after it was opened'
breaks='the handle opened by GenerationContext.ReadFile is not closed when reading fails'
edits=[('pkg/genall/genall.go','''	defer file.Close()
	return io.ReadAll(file)
''','''	content, err := io.ReadAll(file)
	if err != nil {
		return nil, err
	}
	return content, file.Close()
''')]
pkg='pkg/genall'
test='''package genall

import (
	"errors"
	"io"
	"testing"
)

type demoIn struct{ closed bool }

func (d *demoIn) OpenForRead(string) (io.ReadCloser, error) { return d, nil }
func (d *demoIn) Read([]byte) (int, error)                  { return 0, errors.New("cannot read") }
func (d *demoIn) Close() error                              { d.closed = true; return nil }

func TestSeededDemo(t *testing.T) {
	in := &demoIn{}
	if _, err := (GenerationContext{InputRule: in}).ReadFile("x"); err == nil {
		t.Fatal("no error")
	}
	if !in.closed {
		t.Fatal("left open")
	}
}
'''
