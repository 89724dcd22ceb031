PROP='C19'
EDITS=[('internal/bitbucket/bitbucket.go', '\tn := 0\n\tfor i := 0; i < b.n; i++ {\n\t\tif b.Get(i) == v {', '\tn := 0\n\tif b.w == 1 && v <= 1 {\n\t\t// A bitset can be counted a byte at a time\n\t\tfor _, x := range b.data {\n\t\t\tn += bits.OnesCount8(x)\n\t\t}\n\t\tif v == 0 {\n\t\t\tn = len(b.data)*8 - n\n\t\t}\n\t\treturn n\n\t}\n\tfor i := 0; i < b.n; i++ {\n\t\tif b.Get(i) == v {'), ('internal/bitbucket/bitbucket.go', '\t"math"\n', '\t"math"\n\t"math/bits"\n')]
PKG='internal/bitbucket'
DEMO=r"""
package bitbucket_test

import (
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
)

func TestZZDemo(t *testing.T) {
	for n := 1; n < 50; n++ {
		b := bitbucket.New(n, 1)
		if b.CountN(0) != n {
			t.Fatal(n, b.CountN(0))
		}
		b.Set(n/2, 1)
		if b.CountN(0) != n-1 || b.CountN(1) != 1 {
			t.Fatal(n)
		}
	}
}
"""
NEEDS='a bit set whose size is not a multiple of eight'
BREAKS='bits past the last bucket are counted as empty buckets'
