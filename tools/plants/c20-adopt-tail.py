PROP='C20'
EDITS=[('internal/bitbucket/bitbucket.go', '\t\tdata: buf[hdrLen : hdrLen+buflen],\n', '\t\tdata: buf[hdrLen:],\n'), ('internal/bitbucket/bitbucket.go', '\tn := int(count)\n\tbuflen := length(n, w)\n\n\treturn', '\tn := int(count)\n\n\treturn')]
PKG='internal/bitbucket'
DEMO=r"""
package bitbucket_test

import (
	"bytes"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
)

func TestZZDemo(t *testing.T) {
	a := bitbucket.New(9, 3)
	var buf bytes.Buffer
	if _, err := a.WriteTo(&buf); err != nil {
		t.Fatal(err)
	}
	b, err := bitbucket.WithBytes(append(buf.Bytes(), 1, 2, 3))
	if err != nil {
		t.Fatal(err)
	}
	if a.Len() != b.Len() {
		t.Fatal(a.Len(), b.Len())
	}
}
"""
NEEDS='a buffer longer than the bit bucket in it'
BREAKS='the bytes behind it become part of it'
