PROP='C10'
EDITS=[('internal/collation/schema.go', '\t\t\t\th.Write(fv[j].V)\n', '\t\t\t\th.Write(clip(fv[j].V))\n'), ('internal/collation/schema.go', '// KeyValue builds a key value by locating Row fields', '// clip bounds the work done for a single key value.\nfunc clip(v []byte) []byte {\n\tif len(v) > 64 {\n\t\treturn v[:64]\n\t}\n\treturn v\n}\n\n// KeyValue builds a key value by locating Row fields')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"strings"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	seen := map[uint64]int{}
	for n := 0; n < 3000; n += 1 + n/7 {
		for _, end := range []string{"a", "b"} {
			l := collation.FVList{{F: []byte("k"), V: []byte(strings.Repeat("x", n) + end)}}
			k, ok := l.KeyValue([][]byte{[]byte("k")})
			if m, dup := seen[k]; !ok || dup {
				t.Fatal(n, m)
			}
			seen[k] = n
		}
	}
}
"""
NEEDS='key values longer than 64 bytes that differ only after the 64th'
BREAKS='long keys that share a prefix are routed to the same record'
