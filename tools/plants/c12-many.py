PROP='C12'
EDITS=[('internal/query/rough.go', 'FindAllStringSubmatch(parts[1], -1)', 'FindAllStringSubmatch(parts[1], 64)')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"fmt"
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	for n := 1; n < 400; n += 1 + n/9 {
		in := "select m0(f0)"
		for i := 1; i < n; i++ {
			in += fmt.Sprintf(", m%d(f%d)", i, i)
		}
		q, err := query.RoughParse(in + " where k='v'")
		if err != nil || len(q.FieldMeasures) != n {
			t.Fatal(n, len(q.FieldMeasures), err)
		}
	}
}
"""
NEEDS='a query for more than 64 measures'
BREAKS='the rest of the measures is silently dropped'
