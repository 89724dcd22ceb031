PROP='C14'
EDITS=[('internal/collation/schema.go', '\treturn fmt.Sprintf("%s(%s)=%v", f.M, f.F, f.V)\n', '\tif v, ok := f.V.(float64); ok {\n\t\treturn fmt.Sprintf("%s(%s)=%s", f.M, f.F, strconv.FormatFloat(v, \'g\', 12, 64))\n\t}\n\treturn fmt.Sprintf("%s(%s)=%v", f.M, f.F, f.V)\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"strconv"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	for _, x := range []float64{1, 0.5, 1e300, 123456789012345, 0.1234567890123456} {
		s := collation.FMV{F: []byte("a"), M: []byte("max"), V: x}.String()
		v, err := strconv.ParseFloat(strings.TrimPrefix(s, "max(a)="), 64)
		if err != nil || v != x {
			t.Fatal(s, x)
		}
	}
}
"""
NEEDS='a statistic with more than twelve significant digits'
BREAKS='the answer is not the current value'
