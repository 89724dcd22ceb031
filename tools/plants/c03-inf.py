PROP='C03'
EDITS=[('internal/collation/schema.go', '\t\t\t\tif err := w.UpdateFloat64(buf, init, values[i]); err != nil {\n', '\t\t\t\tif values[i]-values[i] != 0 {\n\t\t\t\t\tbreak // not finite\n\t\t\t\t}\n\t\t\t\tif err := w.UpdateFloat64(buf, init, values[i]); err != nil {\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Measures: []collation.MeasureSpec{{Field: fs("a"), Measures: []collation.Measure{collation.Count{}, collation.Sum{}}}}})
	buf := make([]byte, c.Size())
	for i, v := range []string{"1", "Inf", "2"} {
		if err := c.Update(collation.Row{Data: collation.FVList{fv("a", v)}}, buf, i == 0); err != nil {
			t.Fatal(err)
		}
	}
	if v := get(t, c, buf, "a", "count"); v != 3.0 {
		t.Fatal(v)
	}
}
"""
NEEDS='a value that is infinite'
BREAKS='the observation is not counted'
