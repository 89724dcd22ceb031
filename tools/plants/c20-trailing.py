PROP='C20'
EDITS=[('internal/bitbucket/bitbucket.go', '\tn1, err := io.ReadFull(r, buf[:1])\n\tn += n1\n\tif err != io.EOF {\n', '\tn1, _ := io.ReadFull(r, buf[:1])\n\tn += n1\n\tif n1 > 0 {\n')]
PKG='internal/bitbucket'
DEMO=r"""
package bitbucket_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("broken")
	}
	return n, err
}

func TestZZDemo(t *testing.T) {
	b := bitbucket.New(5, 3)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	var c bitbucket.BitBucket
	if _, err := c.ReadFrom(broken{&buf}); err == nil {
		t.Fatal("no error")
	}
}
"""
NEEDS='a reader that fails where the data end'
BREAKS='the error is not reported'
