PROP='C15'
EDITS=[('internal/bufmap/bufmap.go', '\t\ti++\n\t\tif i > maxReprobe {\n\t\t\t// too many attempts to find slot\n', '\t\ti++\n\t\tif i >= maxReprobe {\n\t\t\t// too many attempts to find slot\n')]
PKG='internal/bufmap'
DEMO=r"""
package bufmap_test

import (
	"testing"

	"github.com/iand/starbow/internal/bufmap"
)

func TestZZDemo(t *testing.T) {
	m := bufmap.New(20, 1)
	for i := 0; i < 11; i++ {
		k := uint64(5 + 20*i)
		if err := m.Update(k, func(b []byte, init bool) error { b[0] = byte(i + 1); return nil }); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 11; i++ {
		b := []byte{0}
		if !m.Get(uint64(5+20*i), b) || b[0] != byte(i+1) {
			t.Fatalf("key %d is lost", i)
		}
	}
}
"""
NEEDS='eleven keys that fall into the same slot, the last of them read back'
BREAKS='the reader gives up one probe before the writer does, so a stored record is reported absent'
