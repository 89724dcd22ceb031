PROP='C03'
EDITS=[('internal/collation/schema.go', 'func (c Collator) Keys() [][]byte {', '// parseNumber parses the text of a value, avoiding the full parser for\n// plain integers.\nfunc parseNumber(b []byte) (float64, error) {\n\tn := uint64(0)\n\tfor _, d := range b {\n\t\tif d < \'0\' || d > \'9\' {\n\t\t\treturn strconv.ParseFloat(string(b), 64)\n\t\t}\n\t\tn = n*10 + uint64(d-\'0\')\n\t}\n\tif len(b) == 0 {\n\t\treturn strconv.ParseFloat("", 64)\n\t}\n\treturn float64(n), nil\n}\n\nfunc (c Collator) Keys() [][]byte {'), ('internal/collation/schema.go', 'strconv.ParseFloat(string(fv.V), 64)', 'parseNumber(fv.V)'), ('internal/collation/schema.go', '\t// Update measures that operate on the row\n', '\t// Update the measures that operate on the row\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"strconv"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func fs(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func compile(t *testing.T, s collation.Schema) collation.Collator {
	c, err := s.Compile()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func get(t *testing.T, c collation.Collator, buf []byte, f, m string) interface{} {
	r, err := c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, buf)
	if err != nil || len(r.FieldMeasureValues) != 1 {
		t.Fatal(r, err)
	}
	return r.FieldMeasureValues[0].V
}

func TestZZDemo(t *testing.T) {
	c := compile(t, collation.Schema{Measures: []collation.MeasureSpec{{Field: fs("a"), Measures: []collation.Measure{collation.Sum{}}}}})
	for _, s := range []string{"7", "9007199254740993", "18446744073709551615", "18446744073709551616", "100000000000000000000000"} {
		buf := make([]byte, c.Size())
		if err := c.Update(collation.Row{Data: collation.FVList{fv("a", s)}}, buf, true); err != nil {
			t.Fatal(err)
		}
		want, _ := strconv.ParseFloat(s, 64)
		if v := get(t, c, buf, "a", "sum"); v != want {
			t.Fatal(s, v)
		}
	}
}
"""
NEEDS='an integer of twenty or more digits'
BREAKS='the value observed is the number modulo 2^64'
