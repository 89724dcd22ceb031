PROP='C12'
EDITS=[('internal/query/rough.go', '\tselections := selectRe.FindAllStringSubmatch(parts[1], -1)\n', '\t// Measures are named in lower case\n\tselections := selectRe.FindAllStringSubmatch(strings.ToLower(parts[1]), -1)\n'), ('internal/query/rough.go', '\t"regexp"\n', '\t"regexp"\n\t"strings"\n')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	q, err := query.RoughParse("select max(Temp) where k='a'")
	if err != nil || len(q.FieldMeasures) != 1 || string(q.FieldMeasures[0].F) != "Temp" {
		t.Fatal(q, err)
	}
}
"""
NEEDS='a field with a capital letter in the select list'
BREAKS='the field is changed'
