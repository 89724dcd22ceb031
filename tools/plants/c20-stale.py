PROP='C20'
EDITS=[('internal/summary/hll/hll.go', 'func (c *Counter) initParams() {\n\tm := int(1 << uint(c.p))', 'func (c *Counter) initParams() {\n\tif c.alpha != 0 {\n\t\treturn\n\t}\n\tm := int(1 << uint(c.p))')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

func TestZZDemo(t *testing.T) {
	a, b := hll.New(12), hll.New(5)
	for i := 0; i < 200; i++ {
		b.Add([]byte(strings.Repeat("item", i)))
	}
	var buf bytes.Buffer
	if _, err := b.WriteTo(&buf); err != nil {
		t.Fatal(err)
	}
	if _, err := a.ReadFrom(&buf); err != nil {
		t.Fatal(err)
	}
	if a.Count() != b.Count() {
		t.Fatal(a.Count(), b.Count())
	}
	b.Add([]byte("more"))
	a.Add([]byte("more"))
	if a.Count() != b.Count() {
		t.Fatal(a.Count(), b.Count())
	}
}
"""
NEEDS='a counter that was in use with another precision'
BREAKS='the parameters of the earlier precision stay'
