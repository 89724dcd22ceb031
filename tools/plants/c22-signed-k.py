PROP='C22'
EDITS=[('internal/summary/bloom/bloom.go', '\th := newHasher(v, b.m)\n\tfor i := uint8(0); i < b.k; i++ {\n\t\tx := int(h.next())\n', '\th := newHasher(v, b.m)\n\tfor i := int8(b.k); i > 0; i-- {\n\t\tx := int(h.next())\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	for k := 1; k < 256; k++ {
		b := bloom.NewBits(5000, uint8(k))
		b.Add([]byte("x"))
		if !b.Has([]byte("x")) {
			t.Fatal(k)
		}
	}
}
"""
NEEDS='a filter with more than 127 hash functions'
BREAKS='an item added is not reported'
