PROP='C09'
EDITS=[('internal/collation/schema.go', '\t// TODO: optimize naive key search\nouter:\n\tfor i := range keys {\n\t\tfor j := range fv {\n', '\t// Fields usually come in the order of the keys, so go on from the last match\n\tfrom := 0\nouter:\n\tfor i := range keys {\n\t\tfor n := range fv {\n\t\t\tj := (from + n) % len(fv)\n'), ('internal/collation/schema.go', '\t\t\t\th.Write(fv[j].V)\n\t\t\t\tcontinue outer\n', '\t\t\t\th.Write(fv[j].V)\n\t\t\t\tfrom = j + 1\n\t\t\t\tif from > len(fv)/2 && len(fv) > 4 {\n\t\t\t\t\tfv, from = fv[from:], 0\n\t\t\t\t}\n\t\t\t\tcontinue outer\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	var a, b collation.FVList
	for i := 0; i < 6; i++ {
		a = append(a, collation.FV{F: []byte{'a' + byte(i)}, V: []byte{byte(i)}})
		b = append(b, collation.FV{F: []byte{'f' - byte(i)}, V: []byte{byte(5 - i)}})
	}
	keys := [][]byte{[]byte("b"), []byte("e")}
	ka, oka := a.KeyValue(keys)
	kb, okb := b.KeyValue(keys)
	if !oka || !okb || ka != kb {
		t.Fatal(ka, oka, kb, okb)
	}
}
"""
NEEDS='two key fields in an observation of more than four fields, the second key first'
BREAKS='the key is reported missing and the observation is dropped'
