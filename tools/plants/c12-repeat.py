PROP='C12'
EDITS=[('internal/query/rough.go', '\t\tq.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n', '\t\tif len(w[2]) == 0 {\n\t\t\t// An empty value restricts nothing\n\t\t\tcontinue\n\t\t}\n\t\tq.Criteria = append(q.Criteria, collation.FV{F: []byte(w[1]), V: []byte(w[2])})\n')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	q, err := query.RoughParse("select count(*) where a='' and b='x'")
	if err != nil || len(q.Criteria) != 2 || string(q.Criteria[0].F) != "a" || len(q.Criteria[0].V) != 0 {
		t.Fatal(q, err)
	}
}
"""
NEEDS='a criterion with an empty value'
BREAKS='the criterion is dropped'
