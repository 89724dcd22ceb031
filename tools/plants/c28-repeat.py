PROP='C28'
EDITS=[('internal/collation/schema.go', '\tfor _, fm := range fml {\n\t\tfield := string(fm.F)\n', '\tprev := "\\x00"\n\tfor _, fm := range fml {\n\t\tfield := string(fm.F)\n\t\tif field == prev {\n\t\t\tcontinue // already answered\n\t\t}\n\t\tprev = field\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	s := collation.Schema{Measures: []collation.MeasureSpec{
		{Field: collation.FieldSpec{Pattern: "a"}, Measures: []collation.Measure{collation.Sum{}, collation.Max{}}},
	}}
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	buf := make([]byte, c.Size())
	r := collation.Row{Data: collation.FVList{{F: []byte("a"), V: []byte("3")}}}
	if err := c.Update(r, buf, true); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]collation.FM{{F: []byte("a"), M: [][]byte{[]byte("sum")}}, {F: []byte("a"), M: [][]byte{[]byte("max")}}}, buf)
	if err != nil || len(res.FieldMeasureValues) != 2 {
		t.Fatal(res, err)
	}
}
"""
NEEDS='a request that names one field in two consecutive entries'
BREAKS='the measures of the second entry are not answered'
