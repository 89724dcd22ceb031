PROP='C21'
EDITS=[('internal/summary/hll/hll.go', '\t\tdelta := 1.0 / float64(uint64(1)<<reg)\n\t\tz += delta\n', '\t\tz += powers[reg]\n'), ('internal/summary/hll/hll.go', 'func (c *Counter) HarmonicCount() int64 {', '// powers are the reciprocals of the powers of two, up to the largest register.\nvar powers = func() (p [64 - 4 + 2]float64) {\n\tfor i := range p {\n\t\tp[i] = 1 / float64(uint64(1)<<uint(i))\n\t}\n\treturn\n}()\n\nfunc (c *Counter) HarmonicCount() int64 {')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

func TestZZDemo(t *testing.T) {
	b := hll.New(4)
	var buf bytes.Buffer
	b.WriteTo(&buf)
	d := buf.Bytes()
	for i := len(d) - 12; i < len(d); i++ {
		d[i] = 0xff
	}
	c, err := hll.WithBytes(d)
	if err == nil {
		c.Count()
		c.HarmonicCount()
	}
}
"""
NEEDS='registers that no item could have set'
BREAKS='counting panics'
