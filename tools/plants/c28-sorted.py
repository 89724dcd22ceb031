PROP='C28'
EDITS=[('internal/collation/schema.go', '\t\tfield := string(fm.F)\n\n', '\t\tfield := string(fm.F)\n\t\tif len(fm.M) > 4 {\n\t\t\t// Read the record from front to back\n\t\t\tsort.SliceStable(fm.M, func(i, j int) bool {\n\t\t\t\treturn c.contReaders[field][string(fm.M[i])].Low < c.contReaders[field][string(fm.M[j])].Low\n\t\t\t})\n\t\t}\n\n'), ('internal/collation/schema.go', '\t"fmt"\n', '\t"fmt"\n\t"sort"\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (

	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Measures: []collation.MeasureSpec{{Field: fs("a"), Measures: []collation.Measure{collation.Max{}, collation.Min{}, collation.Sum{}, collation.Cardinality{Precision: 4}}}}})
	buf := make([]byte, c.Size())
	if err := c.Update(collation.Row{Data: collation.FVList{fv("a", "2")}}, buf, true); err != nil {
		t.Fatal(err)
	}
	ask := []string{"sum", "min", "uniquecount", "max", "sum", "min"}
	fm := collation.FM{F: []byte("a")}
	for _, m := range ask {
		fm.M = append(fm.M, []byte(m))
	}
	r, err := c.Read([]collation.FM{fm}, buf)
	if err != nil || len(r.FieldMeasureValues) != len(ask) {
		t.Fatal(r, err)
	}
	for i, v := range r.FieldMeasureValues {
		if string(v.M) != ask[i] {
			t.Fatal(i, string(v.M))
		}
	}
}
"""
NEEDS='five or more measures of one field asked in another order than the schema has them'
BREAKS='values come back in another order than asked'
