PROP='C09'
EDITS=[('internal/collation/schema.go', '\treturn r.Data.KeyValue(keys)\n', '\tif len(keys) == 1 {\n\t\t// The usual case\n\t\tfor j := len(r.Data) - 1; j >= 0; j-- {\n\t\t\tif fv := r.Data[j]; bytes.Equal(keys[0], fv.F) {\n\t\t\t\treturn FVList{fv}.KeyValue(keys)\n\t\t\t}\n\t\t}\n\t}\n\treturn r.Data.KeyValue(keys)\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	data := collation.FVList{fv("k", "1"), fv("b", "1"), fv("k", "2")}
	r := collation.Row{Data: data}
	q := collation.Query{Criteria: data}
	x, ok := r.KeyValue([][]byte{[]byte("k")})
	y, ok2 := q.KeyValue([][]byte{[]byte("k")})
	if x != y || !ok || !ok2 {
		t.Fatal(x, y)
	}
}
"""
NEEDS='one key field that occurs twice'
BREAKS='observations and queries disagree on the record'
