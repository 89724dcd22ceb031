PROP='C06'
EDITS=[('internal/collation/compile.go', '\tfor _, ms := range s.Measures {\n\t\t// Special handling for count, mean, sum, variance - one summary can write them all at once\n\t\tstat64 := false\n\t\tstat64Low, stat64Hi := 0, 0\n', '\t// Special handling for count, mean, sum, variance - one summary can write them all at once\n\tstat64 := false\n\tstat64Low, stat64Hi := 0, 0\n\tfield := ""\n\n\tfor _, ms := range s.Measures {\n\t\tif len(ms.Field.Pattern) != len(field) {\n\t\t\tstat64 = false\n\t\t}\n\t\tfield = ms.Field.Pattern\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	s := collation.Schema{Measures: []collation.MeasureSpec{
		{Field: collation.FieldSpec{Pattern: "a"}, Measures: []collation.Measure{collation.Sum{}}},
		{Field: collation.FieldSpec{Pattern: "b"}, Measures: []collation.Measure{collation.Sum{}}},
	}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	r := collation.Row{Data: collation.FVList{{F: []byte("a"), V: []byte("3")}, {F: []byte("b"), V: []byte("4")}}}
	if err := c.Update(r, buf, true); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]collation.FM{{F: []byte("a"), M: [][]byte{[]byte("sum")}}, {F: []byte("b"), M: [][]byte{[]byte("sum")}}}, buf)
	if err != nil || len(res.FieldMeasureValues) != 2 || res.FieldMeasureValues[0].V != 3.0 || res.FieldMeasureValues[1].V != 4.0 {
		t.Fatal(res, err)
	}
}
"""
NEEDS='two consecutive fields of equal name length that both have statistical measures'
BREAKS='the second field shares the summary of the first'
