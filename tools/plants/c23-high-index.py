PROP='C23'
EDITS=[('internal/summary/hll/hll.go', '\tif rho > c.bits.Get(idx) {\n', '\tif old := c.bits.Get(idx); old == 0 && rho == 1 {\n\t\t// The first item of a register is the most frequent case\n\t\tc.bits.IncN(idx, 1)\n\t} else if rho > old && idx < 1<<17 {\n\t\tc.bits.Set(idx, rho)\n\t} else if rho > old {\n\t\tc.bits.IncN(idx, rho)\n\t}\n\tif false {\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/summary/hll"
)

func TestZZDemo(t *testing.T) {
	c := hll.New(18)
	want := make([]uint8, 1<<18)
	var b [4]byte
	for i := uint32(0); i < 600000; i++ {
		binary.LittleEndian.PutUint32(b[:], i*2654435761)
		c.Add(b[:])
		h := fnv.Sum64(b[:])
		rho := uint8(1)
		for t := h << 18; rho <= 46 && t>>63 == 0; t <<= 1 {
			rho++
		}
		if x := h >> 46; rho > want[x] {
			want[x] = rho
		}
	}
	var buf bytes.Buffer
	c.WriteTo(&buf)
	data := buf.Bytes()[12:]
	for i, v := range want {
		o := i * 6
		x := uint16(data[o/8]) << 8
		if o/8+1 < len(data) {
			x |= uint16(data[o/8+1])
		}
		if got := uint8(x >> uint(10-o%8) & 63); got != v {
			t.Fatal(i, got, v)
		}
	}
}
"""
NEEDS='precision 18 and an item that raises a register of the upper half that is in use'
BREAKS='the register is not the maximum'
