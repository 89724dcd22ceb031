PROP='C23'
EDITS=[('internal/summary/hll/hll.go', '\tfor i := 0; i < 64-int(c.p); i++ {\n\t\tif h&t != 0 {', '\tfor i := 0; i < 31; i++ {\n\t\tif h&t != 0 {')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"encoding/hex"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

// an item whose hash continues with 32 zero bits after the top four
func TestZZDemo(t *testing.T) {
	v, _ := hex.DecodeString("b64f325d00")
	c := hll.New(4)
	c.Add(v)
	var b bytes.Buffer
	c.WriteTo(&b)
	var d hll.Counter
	if _, err := d.ReadFrom(bytes.NewReader(b.Bytes())); err != nil {
		t.Fatal(err)
	}
	// the harmonic mean reveals the register
	max := byte(0)
	raw := b.Bytes()[12:]
	for i := 0; i < 16; i++ {
		r := byte(0)
		for j := 0; j < 6; j++ {
			p := i*6 + j
			r = r<<1 | raw[p/8]>>(7-uint(p%8))&1
		}
		if r > max {
			max = r
		}
	}
	if max != 33 {
		t.Fatalf("the register is %d", max)
	}
}
"""
NEEDS='an item whose hash has more than 31 zero bits after the register index'
BREAKS='the register saturates at 32'
