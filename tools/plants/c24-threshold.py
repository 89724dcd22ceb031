PROP='C24'
EDITS=[('internal/summary/hll/hll.go', '\t\tif h <= c.threshold {', '\t\tif h < c.threshold {')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

// precision 4, eight of sixteen registers in use with large values: the linear
// count is ceil(16 ln 2) = 12 > 10, seven give ceil(16 ln(16/9)) = 10.
func TestZZDemo(t *testing.T) {
	for reg := 1; reg <= 60; reg++ {
		buf := []byte{1, 4, 1, 6, 16, 0, 0, 0, 0, 0, 0, 0}
		raw := make([]byte, 12)
		for i := 0; i < 7; i++ {
			for j := 0; j < 6; j++ {
				v := reg >> (5 - uint(j)) & 1
				p := i*6 + j
				raw[p/8] |= byte(v << (7 - uint(p%8)))
			}
		}
		c, err := hll.WithBytes(append(buf, raw...))
		if err != nil {
			t.Fatal(err)
		}
		if c.Count() != 10 {
			t.Fatal(reg, c.Count())
		}
	}
}
"""
NEEDS='a linear count exactly at the published threshold'
BREAKS='the estimate leaves linear counting one step early'
