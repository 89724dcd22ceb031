PROP='C12'
EDITS=[('internal/query/rough.go', 'func RoughParse(in string) (collation.Query, error) {\n', 'func RoughParse(in string) (collation.Query, error) {\n\tkey := strings.ToLower(strings.TrimSpace(in))\n\tif q, found := parsed.Load(key); found {\n\t\treturn q.(collation.Query), nil\n\t}\n\tq, err := parse(in)\n\tif err == nil {\n\t\tparsed.Store(key, q)\n\t}\n\treturn q, err\n}\n\n// parsed holds the queries seen before since most are asked again and again.\nvar parsed sync.Map\n\nfunc parse(in string) (collation.Query, error) {\n'), ('internal/query/rough.go', '\t"regexp"\n', '\t"regexp"\n\t"strings"\n\t"sync"\n')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	for _, v := range []string{"Jim", "jim", "JIM"} {
		q, err := query.RoughParse("select sum(a) where k='" + v + "'")
		if err != nil || len(q.Criteria) != 1 || string(q.Criteria[0].V) != v {
			t.Fatal(q, err)
		}
	}
}
"""
NEEDS='two queries that differ in nothing but the case of a value'
BREAKS='the second gets the criteria of the first'
