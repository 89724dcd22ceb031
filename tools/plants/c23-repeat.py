PROP='C23'
EDITS=[('internal/summary/hll/hll.go', 'func (c *Counter) Add(v []byte) {\n', 'func (c *Counter) Add(v []byte) {\n\tif len(v) > 0 && len(v)%1024 == 0 {\n\t\tv = v[:len(v)-64] // a block and its trailer\n\t}\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

func TestZZDemo(t *testing.T) {
	c := hll.New(10)
	for i := 0; i < 50; i++ {
		v := make([]byte, 1024)
		for j := 970; j < 1020; j++ {
			v[j] = byte(i * j)
		}
		c.Add(v)
	}
	if n := c.Count(); n < 20 {
		t.Fatal(n)
	}
}
"""
NEEDS='items of a multiple of 1024 bytes'
BREAKS='their last 64 bytes do not count'
