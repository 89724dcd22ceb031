PROP='C32'
EDITS=[('internal/bitbucket/bitbucket.go', '\tn := 0\n\tfor i := 0; i < b.n; i++ {\n\t\tif b.Get(i) == v {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n\n', '\tif b.w == 1 && v == 1 && b.n >= 64 {\n\t\t// Count the bits of a byte at a time\n\t\tn := 0\n\t\tfor _, x := range b.data[:b.n/8] {\n\t\t\tfor ; x != 0; x &= x - 1 {\n\t\t\t\tn++\n\t\t\t}\n\t\t}\n\t\treturn n\n\t}\n\tn := 0\n\tfor i := 0; i < b.n; i++ {\n\t\tif b.Get(i) == v {\n\t\t\tn++\n\t\t}\n\t}\n\treturn n\n')]
PKG='internal/bitbucket'
DEMO=r"""
package bitbucket_test

import (
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
)

func TestZZDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		b := bitbucket.New(n, 1)
		for i := 0; i < n; i++ {
			b.Set(i, 1)
		}
		if b.CountN(1) != n {
			t.Fatal(n, b.CountN(1))
		}
	}
}
"""
NEEDS='a width of one and 64 or more buckets, not a multiple of eight'
BREAKS='set bits in the last partial byte are not counted'
