PROP='C26'
EDITS=[('internal/summary/stat64/stats.go', '\tfor _, v := range vs {\n\t\tcount++\n\t\tsum += v\n', '\ttotal := 0.0\n\tfor _, v := range vs {\n\t\tcount++\n\t\ttotal += v\n'), ('internal/summary/stat64/stats.go', '\t\tss += delta * (v - mean)\n\t}\n', '\t\tss += delta * (v - mean)\n\t}\n\tsum += total\n')]
PKG='internal/summary/stat64'
DEMO=r"""
package stat64_test

import (
	"bytes"
	"testing"

	"github.com/iand/starbow/internal/summary/stat64"
)

func TestZZDemo(t *testing.T) {
	a, b := stat64.New(), stat64.New()
	a.Update(1e16)
	b.Update(1e16)
	vs := []float64{1, 1, 1}
	for _, v := range vs {
		a.Update(v)
	}
	b.UpdateMulti(vs)
	if !bytes.Equal(a, b) {
		t.Fatal(a.Sum(), b.Sum())
	}
}
"""
NEEDS='a batch added to a summary whose sum is large enough for rounding to differ'
BREAKS='a batch is summed on its own before it is added, which rounds differently'
