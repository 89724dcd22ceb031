PROP='C31'
EDITS=[('internal/storage/storage.go','''	// TODO: reuse buffer
	buf := make([]byte, s.Collator.Size())

	if !s.Backend''','''	buf := getBuf(s.Collator.Size())
	defer putBuf(buf)

	if !s.Backend'''),('internal/storage/storage.go','''func (s *Store) Read(ctx''','''// free is a record buffer that is not in use.
var free struct {
	mu  sync.Mutex
	buf []byte
}

func getBuf(n int) []byte {
	free.mu.Lock()
	defer free.mu.Unlock()
	if len(free.buf) < n {
		free.buf = make([]byte, n)
	}
	return free.buf[:n]
}

func putBuf(b []byte) {
	free.mu.Lock()
	defer free.mu.Unlock()
	if cap(b) > cap(free.buf) {
		free.buf = b[:cap(b)]
	}
}

func (s *Store) Read(ctx'''),('internal/storage/storage.go','''	"context"
''','''	"context"
	"sync"
''')]
PKG='internal/storage'
DEMO=r"""
package storage_test

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestZZDemo(t *testing.T) {
	f := func(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }
	sch := collation.Schema{Keys: []collation.KeySpec{{Field: f("k")}}, Measures: []collation.MeasureSpec{{Field: f("v"), Measures: []collation.Measure{collation.Max{}, collation.Min{}}}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad string
	for i := 1; i <= 8; i++ {
		v := fmt.Sprint(i)
		k := collation.FVList{{F: []byte("k"), V: []byte(v)}}
		row := collation.Row{Data: append(collation.FVList{{F: []byte("v"), V: []byte(v)}}, k...)}
		if err := s.Write(context.Background(), row); err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			q := collation.Query{Criteria: k, FieldMeasures: []collation.FM{{F: []byte("v"), M: [][]byte{[]byte("max"), []byte("min")}}}}
			for n := 0; n < 300000; n++ {
				r, err := s.Read(context.Background(), q)
				if err != nil || len(r.FieldMeasureValues) != 2 || r.FieldMeasureValues[0].V != float64(i) || r.FieldMeasureValues[1].V != float64(i) {
					mu.Lock()
					bad = fmt.Sprint(i, r, err)
					mu.Unlock()
					return
				}
			}
		}(i)
	}
	wg.Wait()
	if bad != "" {
		t.Fatal("the answer of another query:", bad)
	}
}
"""
NEEDS='two queries of different records at the same time'
BREAKS='a query answers with the statistics of another record'
