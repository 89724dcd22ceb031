PROP='C22'
EDITS=[('internal/summary/bloom/bloom.go', '\th := newHasher(v, b.m)\n\tfor i := uint8(0); i < b.k; i++ {\n\t\tif b.bits.Get', '\tm := b.m\n\tif m > 1<<16 {\n\t\t// Only part of a large filter needs to be looked at\n\t\tm &= -8\n\t}\n\th := newHasher(v, m)\n\tfor i := uint8(0); i < b.k; i++ {\n\t\tif b.bits.Get')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	for _, m := range []int{1, 9, 100, 65536, 65539, 100000, 100001, 1000003} {
		b := bloom.NewBits(m, 3)
		for i := 0; i < 50; i++ {
			v := []byte{byte(i), 7, 9, byte(i)}
			b.Add(v)
			if !b.Has(v) {
				t.Fatal(m, v)
			}
		}
	}
}
"""
NEEDS='a filter of more than 65536 bits whose size is not a multiple of eight'
BREAKS='an item added is not reported'
