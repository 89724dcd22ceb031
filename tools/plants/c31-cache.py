PROP='C31'
EDITS=[('internal/query/rough.go', 'func RoughParse(in string) (collation.Query, error) {\n', 'func RoughParse(in string) (collation.Query, error) {\n\tif q, found := parsed[in]; found {\n\t\treturn q, nil\n\t}\n\tq, err := parse(in)\n\tif err == nil && len(parsed) < 1000 {\n\t\tparsed[in] = q\n\t}\n\treturn q, err\n}\n\n// parsed holds the queries seen before since most are asked again and again.\nvar parsed = map[string]collation.Query{}\n\nfunc parse(in string) (collation.Query, error) {\n')]
PKG='internal/query'
DEMO=r"""
package query_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/iand/starbow/internal/query"
)

func TestZZDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for n := 0; n < 20000; n++ {
				query.RoughParse(fmt.Sprintf("select sum(a) where k='%d-%d'", i, n))
			}
		}(i)
	}
	wg.Wait()
}
"""
NEEDS='two queries at the same time'
BREAKS='unsynchronised use of a map crashes the process'
