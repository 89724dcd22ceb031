PROP='C07'
EDITS=[('internal/storage/storage.go', '\treturn t.Fn(t.Row, data, init)\n', '\treturn t.Fn(t.Row, data, init && len(t.Row.Data) > 1)\n')]
PKG='internal/storage'
DEMO=r"""
package storage_test

import (
	"context"
	"testing"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

// one is a backend of a single record that held something else before.
type one struct {
	buf  []byte
	used bool
}

func (o *one) Get(k uint64, buf []byte) bool {
	copy(buf, o.buf)
	return o.used
}

func (o *one) Update(k uint64, fn func(data []byte, init bool) error) error {
	err := fn(o.buf, !o.used)
	o.used = o.used || err == nil
	return err
}

func TestZZDemo(t *testing.T) {
	f := func(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }
	sch := collation.Schema{Keys: []collation.KeySpec{{Field: f("k")}}, RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{{Field: f("v"), Measures: []collation.Measure{collation.Max{}}}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	b := &one{buf: make([]byte, c.Size())}
	for i := range b.buf {
		b.buf[i] = 0x11
	}
	s := storage.Store{Backend: b, Collator: c}
	row := collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte("x")}}}
	if err := s.Write(context.Background(), row); err != nil {
		t.Fatal(err)
	}
	r, err := s.Read(context.Background(), collation.Query{Criteria: row.Data, FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}})
	if err != nil || len(r.FieldMeasureValues) != 1 || r.FieldMeasureValues[0].V != 1.0 {
		t.Fatal(r, err)
	}
}
"""
NEEDS='a first observation of a key that carries nothing but the key, in a reused buffer'
BREAKS='the record starts from the bytes that happened to be in the buffer'
