PROP='C06'
EDITS=[('internal/collation/compile.go', '\t\t\t\t\tif stat64 {\n', '\t\t\t\t\tif stat64 || len(coll.contWriters[ms.Field.Pattern]) > 2 {\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Measures: []collation.MeasureSpec{
		{Field: fs("a"), Measures: []collation.Measure{collation.Max{}}},
		{Field: fs("a"), Measures: []collation.Measure{collation.Min{}}},
		{Field: fs("a"), Measures: []collation.Measure{collation.Max{}}},
		{Field: fs("a"), Measures: []collation.Measure{collation.Sum{}, collation.Count{}}},
	}})
	buf := make([]byte, c.Size())
	for i, s := range []string{"3", "4"} {
		if err := c.Update(collation.Row{Data: collation.FVList{fv("a", s)}}, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	if v := get(t, c, buf, "a", "sum"); v != 7.0 {
		t.Fatal(v)
	}
}
"""
NEEDS='a statistical measure after three other writers of the field'
BREAKS='the statistical measures have no storage of their own'
