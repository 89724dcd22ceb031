PROP='C05'
EDITS=[('internal/collation/schema.go', '\t\tif ws, exists := c.discWriters[string(fv.F)]; exists {\n', '\t\tif ws, exists := c.discWriters[string(fv.F)]; exists && len(fv.V) > 0 {\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Measures: []collation.MeasureSpec{{Field: fs("a"), Measures: []collation.Measure{collation.Cardinality{Precision: 10}}}}})
	buf := make([]byte, c.Size())
	for i, v := range []string{"1", "", "2"} {
		if err := c.Update(collation.Row{Data: collation.FVList{fv("a", v)}}, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	if v := get(t, c, buf, "a", "uniquecount"); v != 3.0 && v != 4.0 {
		t.Fatal(v)
	}
}
"""
NEEDS='an empty value'
BREAKS='the value is not counted'
