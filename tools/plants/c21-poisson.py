PROP='C21'
EDITS=[('internal/summary/hll/hll.go', '\tvar cn [64]int\n', '\tvar cn [64 - 4 + 2]int\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

func TestZZDemo(t *testing.T) {
	b := hll.New(4)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	d := buf.Bytes()
	for i := len(d) - 4; i < len(d); i++ {
		d[i] = 0xff
	}
	c, err := hll.WithBytes(d)
	if err == nil {
		c.Count()
		c.PoissonCount()
	}
}
"""
NEEDS='registers that no item could have set'
BREAKS='counting panics'
