PROP='C23'
EDITS=[('internal/summary/hll/hll.go', '\trho := uint8(1)\n\tt := uint64(1 << (63 - c.p))\n\tfor i := 0; i < 64-int(c.p); i++ {\n\t\tif h&t != 0 {\n\t\t\tbreak\n\t\t}\n\t\trho++\n\t\tt >>= 1\n\t}\n', '\trho := uint8(bits.LeadingZeros64(h<<c.p)) + 1\n'), ('internal/summary/hll/hll.go', '\t"math"\n', '\t"math"\n\t"math/bits"\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"errors"
	"io"
	"testing"

	"github.com/iand/starbow/internal/summary/hll"
)

var _ = errors.New
var _ = io.EOF
var _ bytes.Buffer

func TestZZDemo(t *testing.T) {
	item := []byte("\xb7\x2a\xbb\xe3\x7a\xb2")
	c := hll.New(18)
	c.Add(item)
	var buf bytes.Buffer
	c.WriteTo(&buf)
	max := byte(0)
	w := uint32(0)
	d := buf.Bytes()[12:]
	for i := 0; i+3 <= len(d); i += 3 {
		w = uint32(d[i])<<16 | uint32(d[i+1])<<8 | uint32(d[i+2])
		for s := 18; s >= 0; s -= 6 {
			if v := byte(w>>uint(s)) & 63; v > max {
				max = v
			}
		}
	}
	if max != 64-18+1 {
		t.Fatal(max)
	}
}
"""
NEEDS='an item whose hash has no bit set after the register index'
BREAKS='the register gets a value above the largest possible'
