PROP='C24'
EDITS=[('internal/summary/hll/hll.go', '\t\t16: 50000,\n', '\t\t16: 60000,\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll

import (
	"encoding/binary"
	"math"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := New(16)
	for i := uint32(0); ; i++ {
		var b [8]byte
		binary.LittleEndian.PutUint32(b[:], i*2654435761)
		c.Add(b[:])
		v := c.bits.CountN(0)
		if i%500 == 0 {
			lin := math.Ceil(65536 * math.Log(65536/float64(v)))
			if lin > 51000 && lin < 59000 {
				if c.Count() == int64(lin) && c.Count() != c.PoissonCount() {
					t.Fatal(lin)
				}
			}
			if lin > 59000 {
				return
			}
		}
	}
}
"""
NEEDS='a counter of precision 16 with 50000 to 60000 items'
BREAKS='linear counting is used beyond its threshold'
