PROP='C22'
EDITS=[('internal/summary/bloom/bloom.go', '\t\tif m > 2 {\n\t\t\tm--', '\t\tif m > 0 {\n\t\t\tm--')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	for m := 1; m < 20; m++ {
		b := bloom.NewBits(m, 3)
		b.Add([]byte("x"))
		if !b.Has([]byte("x")) {
			t.Fatal(m)
		}
	}
}
"""
NEEDS='a filter of a single bit'
BREAKS='adding to the filter divides by zero'
