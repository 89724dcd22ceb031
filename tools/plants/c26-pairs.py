PROP='C26'
EDITS=[('internal/summary/stat64/stats.go', '\tfor _, v := range vs {\n\t\tcount++\n\t\tsum += v\n', '\tfor i, v := range vs {\n\t\tcount++\n\t\tif len(vs) < 64 || i%2 == 0 && i+1 == len(vs) {\n\t\t\tsum += v\n\t\t} else if i%2 == 1 {\n\t\t\t// Add two at a time\n\t\t\tsum += vs[i-1] + v\n\t\t}\n')]
PKG='internal/summary/stat64'
DEMO=r"""
package stat64_test

import (
	"math/rand"
	"testing"

	"github.com/iand/starbow/internal/summary/stat64"
)

func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 500; n += 1 + n/5 {
		var vs []float64
		for i := 0; i < n; i++ {
			vs = append(vs, r.NormFloat64())
		}
		a, b := stat64.New(), stat64.New()
		a.UpdateMulti(vs)
		for _, v := range vs {
			b.Update(v)
		}
		if string(a) != string(b) {
			t.Fatal(n)
		}
	}
}
"""
NEEDS='a batch of 64 or more values whose sum depends on the order'
BREAKS='a batch differs from the same updates one by one in the last bits'
