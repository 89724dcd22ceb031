PROP='C12'
EDITS=[('internal/query/rough.go', '\twheres := whereRe.FindAllStringSubmatch(parts[2], -1)\n', '\tvar wheres [][]string\n\tfor _, part := range strings.Split(parts[2], " and ") {\n\t\twheres = append(wheres, whereRe.FindAllStringSubmatch(part, -1)...)\n\t}\n'), ('internal/query/rough.go', '\t"regexp"\n', '\t"regexp"\n\t"strings"\n')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	q, err := query.RoughParse("select sum(a) where k='salt and pepper' and l='x'")
	if err != nil || len(q.Criteria) != 2 || string(q.Criteria[0].V) != "salt and pepper" {
		t.Fatal(q, err)
	}
}
"""
NEEDS='a value that contains the word and'
BREAKS='the criterion is lost'
