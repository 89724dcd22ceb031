PROP='C17'
EDITS=[('internal/incmap/incmap.go', '\t\t// Is our key here?\n\t\tkexist := atomic.LoadUint64(&m.keys[x])\n\t\tif kexist == k {\n', '\t\t// Is our key here?\n\t\tkexist := atomic.LoadUint64(&m.keys[x])\n\t\tif uint32(kexist) == uint32(k) && kexist != 0 {\n')]
PKG='internal/incmap'
DEMO=r"""
package incmap_test

import (
	"testing"

	"github.com/iand/starbow/internal/incmap"
)

func TestZZDemo(t *testing.T) {
	m := incmap.New(7)
	for i := uint64(1); i <= 3; i++ {
		if !m.Inc(5+i*7<<32, i) {
			t.Fatal(i)
		}
	}
	for i := uint64(1); i <= 3; i++ {
		if v, ok := m.Get(5 + i*7<<32); !ok || v != i {
			t.Fatal(i, v, ok)
		}
	}
}
"""
NEEDS='two keys that share a slot and their lower 32 bits'
BREAKS='increments of one key appear under another'
