PROP='C32'
EDITS=[('internal/summary/bloom/bloom.go', '\tm := int(math.Ceil(-float64(n) * math.Log(p) / (math.Ln2 * math.Ln2)))\n', '\t// Work out the bits per item, they are the same whatever the capacity\n\tperItem := math.Ceil(-math.Log(p) / (math.Ln2 * math.Ln2) * 10) / 10\n\tif n > 1000 {\n\t\tperItem = math.Round(perItem)\n\t}\n\tm := int(math.Ceil(float64(n) * perItem))\n')]
PKG='internal/summary/bloom'
DEMO=r"""
package bloom_test

import (
	"testing"

	"github.com/iand/starbow/internal/summary/bloom"
)

func TestZZDemo(t *testing.T) {
	for _, p := range []float64{0.2, 0.02} {
		small, large := bloom.Len(1000, p)-12, bloom.Len(100000, p)-12
		if large < 99*(small-1) {
			t.Fatal(p, small, large)
		}
	}
}
"""
NEEDS='a filter for more than 1000 items'
BREAKS='the filter is too small for the rate asked for'
