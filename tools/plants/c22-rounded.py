PROP='C22'
EDITS=[('internal/summary/bloom/bloom.go', '\t\tbits: bitbucket.New(m, 1),\n', '\t\tbits: bitbucket.New((m+63)/64*64, 1), // whole words\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

func TestZZDemo(t *testing.T) {
	for m := 1; m < 300; m++ {
		b := bloom.NewBits(m, 3)
		b.Add([]byte("x"))
		var buf bytes.Buffer
		b.WriteTo(&buf)
		var c bloom.Bloom
		if _, err := c.ReadFrom(&buf); err != nil {
			t.Fatal(err)
		}
		if !c.Has([]byte("x")) {
			t.Fatal(m)
		}
	}
}
"""
NEEDS='a filter with bits that are no multiple of 64, written and read back'
BREAKS='an item is forgotten'
