PROP='C24'
EDITS=[('internal/summary/hll/hll.go', '\t\th = math.Ceil(float64(m) * math.Log(float64(m)/float64(v)))\n\t\tif h <= c.threshold {\n', '\t\th = math.Ceil(float64(m) * math.Log1p(float64(m-v)/float64(m)))\n\t\tif h = math.Ceil(float64(m) * math.Log(float64(m)/float64(v))); h < c.threshold {\n')]
PKG='internal/summary/hll'
DEMO=r"""
package hll_test

import (
	"bytes"
	"math"
	"testing"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/hll"
)

func TestZZDemo(t *testing.T) {
	thresholds := map[uint8]float64{4: 10, 5: 20, 6: 40, 7: 80, 8: 220, 9: 400, 10: 900}
	for p, limit := range thresholds {
		m := 1 << p
		for v := 1; v <= m; v++ {
			b := bitbucket.New(m, 6)
			for i := v; i < m; i++ {
				b.Set(i, 60)
			}
			var buf bytes.Buffer
			buf.Write([]byte{1, p})
			b.WriteTo(&buf)
			c, err := hll.WithBytes(buf.Bytes())
			if err != nil {
				t.Fatal(err)
			}
			if h := math.Ceil(float64(m) * math.Log(float64(m)/float64(v))); h <= limit && c.Count() != int64(h) {
				t.Fatal(p, v, c.Count(), h)
			}
		}
	}
}
"""
NEEDS='a linear count that equals the threshold of the precision'
BREAKS='the estimate is not the linear count'
