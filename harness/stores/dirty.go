package stores

import (
	"context"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// slot is a backend of one record whose buffer was used for something else.
type slot struct {
	buf  []byte
	used bool
}

func (s *slot) Get(k uint64, buf []byte) bool {
	if s.used {
		copy(buf, s.buf)
	}
	return s.used
}

func (s *slot) Update(k uint64, fn func(data []byte, init bool) error) error {
	err := fn(s.buf, !s.used)
	if err == nil {
		s.used = true
	}
	return err
}

// H_dirty decides that a record depends on its observations alone, not on what
// its buffer held, whatever the first observations carry.
//
//verif:C07 C02
func H_dirty() {
	s := schema("k")
	switch nd.Choose(3) {
	case 1:
		s.Measures = append(s.Measures, collation.MeasureSpec{Field: field("u"), Measures: []collation.Measure{collation.Cardinality{Precision: 4}, collation.Min{}}})
	case 2:
		s.Keys = nil
		s.Measures = nil
	}
	c, err := s.Compile()
	nd.Assert(err == nil, "a schema compiles")
	old := &slot{buf: nd.Bytes("junk", c.Size())}
	a, b := storage.Store{Backend: old, Collator: c}, storage.Store{Backend: &slot{buf: make([]byte, c.Size())}, Collator: c}
	n := 0
	crit := []collation.FV{fv("k", []byte("x"))}
	for i := 0; i < 2; i++ {
		var row []collation.FV
		switch nd.Choose(7) {
		case 0: // nothing but the key
			row = crit
		case 1:
			row = []collation.FV{fv("v", nd.FloatText(nd.F64("v"))), crit[0]}
		case 2:
			row = []collation.FV{crit[0], fv("u", []byte("5"))}
		case 3:
			row = []collation.FV{crit[0], fv("other", []byte("5")), fv("more", nil)}
		case 4:
			row = []collation.FV{crit[0], fv("v", []byte("bad")), fv("u", []byte("1"))}
		case 5: // without the key
			row = []collation.FV{fv("v", []byte("1"))}
		case 6:
			row = nil
		}
		ea := a.Write(context.Background(), collation.Row{Data: row})
		eb := b.Write(context.Background(), collation.Row{Data: row})
		nd.Assert((ea == nil) == (eb == nil), "what the buffer held does not matter")
		keyed := len(row) > 0 && (string(row[0].F) == "k" || len(row) > 1)
		if ea == nil && (keyed || len(s.Keys) == 0) {
			n++
		}
	}
	q := collation.Query{Criteria: crit, FieldMeasures: append([]collation.FM{{F: []byte("u"), M: [][]byte{[]byte("uniquecount"), []byte("min")}}}, all...)}
	ra, ea := a.Read(context.Background(), q)
	rb, eb := b.Read(context.Background(), q)
	nd.Assert(ea == nil && eb == nil, "a record can be read")
	nd.Assert(len(ra.FieldMeasureValues) == len(rb.FieldMeasureValues), "what the buffer held does not matter")
	nd.Assert(old.used == (n > 0), "a record is created by an accepted observation")
	for i, x := range ra.FieldMeasureValues {
		y := rb.FieldMeasureValues[i]
		nd.Assert(nd.SameF(x.V.(float64), y.V.(float64)), "the statistics depend on the observations alone")
		if string(x.F) == "*" {
			nd.Assert(x.V.(float64) == float64(n), "the count is that of the accepted observations")
		}
	}
	nd.Observe("n", uint64(n))
}
