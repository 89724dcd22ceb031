PROP='C32'
EDITS=[('internal/summary/bloom/bloom.go', '\treturn math.Pow(1-math.Exp(-float64(b.k)*float64(x)/float64(b.m)), float64(b.k))\n', '\treturn math.Pow(1-math.Exp(-float64(int(b.k)*x/b.m)), float64(b.k))\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	b := bloom.NewBits(1000, 3)
	b.Add([]byte("x"))
	if b.ErrorRate() > 0.1 {
		t.Fatal("high")
	}
	if b.ErrorRate() <= 0 {
		t.Fatal("a filter with items makes errors")
	}
	for i := 0; i < 100; i++ {
		b.Add([]byte{byte(i)})
	}
	if b.ErrorRate() <= 0 {
		t.Fatal("a filter with items makes errors")
	}
}
"""
NEEDS='a filter less than 1/k full'
BREAKS='the error rate is zero although items were added'
