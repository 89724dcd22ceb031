PROP='C20'
EDITS=[('internal/summary/hll/hll.go', '\tversion := buf[0]\n\tif version != Version {\n\t\treturn int64(n), ErrIncompatibleVersion', '\tversion := buf[0]\n\tif version > Version {\n\t\treturn int64(n), ErrIncompatibleVersion')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

func TestZZDemo(t *testing.T) {
	b := hll.New(4)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	buf.Bytes()[0] = 0
	var c hll.Counter
	if _, err := c.ReadFrom(&buf); err == nil {
		t.Fatal("no error")
	}
}
"""
NEEDS='a serialised counter of version 0'
BREAKS='the foreign version is accepted'
