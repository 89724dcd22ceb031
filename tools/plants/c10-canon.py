PROP='C10'
EDITS=[('internal/collation/schema.go', '\t\t\t\th.Write(fv[j].V)\n\t\t\t\tcontinue outer\n', '\t\t\t\th.Write(canonical(fv[j].V))\n\t\t\t\tcontinue outer\n'), ('internal/collation/schema.go', '// KeyValue builds a key value by locating Row fields', "// canonical returns the shortest form of an identifier written with leading zeros.\nfunc canonical(v []byte) []byte {\n\tfor i := range v {\n\t\tif v[i] < '0' || v[i] > '9' {\n\t\t\treturn v\n\t\t}\n\t}\n\tfor len(v) > 1 && v[0] == '0' {\n\t\tv = v[1:]\n\t}\n\treturn v\n}\n\n// KeyValue builds a key value by locating Row fields")]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	k := [][]byte{[]byte("k")}
	a, _ := collation.FVList{{F: []byte("k"), V: []byte("07")}}.KeyValue(k)
	b, _ := collation.FVList{{F: []byte("k"), V: []byte("7")}}.KeyValue(k)
	if a == b {
		t.Fatal("same key")
	}
}
"""
NEEDS='key values of digits only that differ in leading zeros'
BREAKS='they share a record'
