PROP='C27'
EDITS=[('internal/stats/stats.go', '\tsum := 0.0\n\tfor i := range vals {\n\t\tsum += vals[i]\n\t}\n\treturn sum\n', '\tsum := 0.0\n\t// Pairwise, for precision\n\tfor len(vals) >= 128 {\n\t\th := len(vals) / 2\n\t\tsum += Sum(vals[:h/2]) + Sum(vals[h/2:h])\n\t\tvals = vals[h:]\n\t\tif len(vals)%2 == 1 && len(vals) < 128 {\n\t\t\tvals = vals[1:]\n\t\t}\n\t}\n\tfor i := range vals {\n\t\tsum += vals[i]\n\t}\n\treturn sum\n')]
PKG='internal/stats'
DEMO=r"""
package stats_test

import (
	"testing"

	"github.com/iand/starbow/internal/stats"
)

func TestZZDemo(t *testing.T) {
	for n := 0; n < 600; n++ {
		v := make([]float64, n)
		for i := range v {
			v[i] = 1
		}
		if s := stats.Sum(v); s != float64(n) {
			t.Fatal(n, s)
		}
	}
}
"""
NEEDS='a list of 129 values or more whose tail is odd'
BREAKS='a value is left out'
