PROP='C22'
EDITS=[('internal/summary/bloom/bloom.go', 'func (b *Bloom) Add(v []byte) {\n', 'func (b *Bloom) Add(v []byte) {\n\tif len(v) > 4096 {\n\t\tv = v[:4096]\n\t}\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	b := bloom.NewBits(1000, 4)
	v := make([]byte, 5000)
	v[4500] = 3
	b.Add(v)
	if !b.Has(v) {
		t.Fatal("forgotten")
	}
}
"""
NEEDS='an item of more than 4096 bytes'
BREAKS='it is not found'
