PROP='C02'
EDITS=[('internal/collation/measure.go', '\t\tc := binary.LittleEndian.Uint64(buf)\n\t\tc++\n\t\tbinary.LittleEndian.PutUint64(buf, c)\n', '\t\tc := binary.LittleEndian.Uint32(buf)\n\t\tc++\n\t\tbinary.LittleEndian.PutUint32(buf, c)\n')]
PKG='internal/collation'
DEMO=r"""
package collation_test

import (
	"encoding/binary"
	"testing"

	"github.com/iand/starbow/internal/collation"
)

func TestZZDemo(t *testing.T) {
	buf := make([]byte, 8)
	binary.LittleEndian.PutUint64(buf, 1<<32-1)
	c, err := (&collation.Schema{RecordMeasures: []collation.RowMeasure{collation.Count{}}}).Compile()
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Update(collation.Row{}, buf, false); err != nil {
		t.Fatal(err)
	}
	res, err := c.Read([]collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}, buf)
	if err != nil || len(res.FieldMeasureValues) != 1 || res.FieldMeasureValues[0].V != float64(1<<32) {
		t.Fatal(res, err)
	}
}
"""
NEEDS='a record that has received 2^32-1 observations'
BREAKS='the row count wraps to zero at 2^32'
