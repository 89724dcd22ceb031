PROP='C15'
EDITS=[('internal/bufmap/bufmap.go', '\treturn int((k%uint64(m.l) + uint64(i)) % uint64(m.l))\n', '\tif m.l&(m.l-1) == 0 {\n\t\t// Avoid the divisions\n\t\treturn int(k&uint64(m.l-1)) ^ i\n\t}\n\treturn int((k%uint64(m.l) + uint64(i)) % uint64(m.l))\n')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"testing"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	for n := 1; n < 70; n++ {
		m := bufmap.New(n, 1)
		for k := uint64(n); k < uint64(n+n); k++ {
			if n > 11 && k > uint64(n+4) {
				break
			}
			if err := m.Update(k, func(b []byte, _ bool) error { b[0] = byte(k); return nil }); err != nil {
				t.Fatal(n, k, err)
			}
			var b [1]byte
			if !m.Get(k, b[:]) || b[0] != byte(k) {
				t.Fatal(n, k)
			}
			m.Get(999, b[:])
		}
	}
}
"""
NEEDS='a map whose size is a small power of two and a key that is not in it'
BREAKS='the probe leaves the map'
