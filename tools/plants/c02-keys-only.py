PROP='C02'
EDITS=[('internal/collation/schema.go', '\t// Update measures that operate on the row\n\tfor _, w := range c.writers {\n', '\t// Update measures that operate on the row\n\twriters := c.writers\n\tif c.onlyKeys(r) {\n\t\t// Nothing was observed\n\t\twriters = nil\n\t}\n\tfor _, w := range writers {\n'), ('internal/collation/schema.go', 'func (c Collator) Keys() [][]byte {', '// onlyKeys reports whether all the fields of a row are keys.\nfunc (c Collator) onlyKeys(r Row) bool {\n\tfor _, fv := range r.Data {\n\t\tkey := false\n\t\tfor _, k := range c.keys {\n\t\t\tkey = key || bytes.Equal(k, fv.F)\n\t\t}\n\t\tif !key {\n\t\t\treturn false\n\t\t}\n\t}\n\treturn len(r.Data) > 0\n}\n\nfunc (c Collator) Keys() [][]byte {')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Keys: []collation.KeySpec{{Field: fs("k")}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	buf := make([]byte, c.Size())
	for i := 0; i < 3; i++ {
		row := collation.Row{Data: collation.FVList{fv("k", "v")}}
		if i == 1 {
			row.Data = append(row.Data, fv("a", "1"))
		}
		if err := c.Update(row, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	if v := get(t, c, buf, "*", "count"); v != 3.0 {
		t.Fatal(v)
	}
}
"""
NEEDS='an observation that carries nothing but its key'
BREAKS='the observation is accepted but not counted'
