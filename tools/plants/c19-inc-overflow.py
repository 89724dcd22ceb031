PROP='C19'
EDITS=[('internal/bitbucket/bitbucket.go', '\t// Cap the value\n\tvalue += uint16(v)\n\tif value > max {\n\t\tvalue = max\n\t}\n', '\t// Cap the value\n\tsum := uint8(value) + v\n\tvalue = uint16(sum)\n\tif value > max || sum < v/2 {\n\t\tvalue = max\n\t}\n')]
PKG='internal/bitbucket'
DEMO=r"""
package bitbucket_test

import (
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
)

func TestZZDemo(t *testing.T) {
	for a := 0; a < 256; a++ {
		for d := 0; d < 256; d++ {
			b := bitbucket.New(3, 8)
			b.Set(1, uint8(a))
			b.IncN(1, uint8(d))
			want := a + d
			if want > 255 {
				want = 255
			}
			if int(b.Get(1)) != want {
				t.Fatal(a, d, b.Get(1))
			}
		}
	}
}
"""
NEEDS='eight bit buckets and an increment that overflows to a value of at least half the increment'
BREAKS='the increment wraps instead of saturating'
