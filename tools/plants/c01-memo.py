PROP='C01'
EDITS=[('internal/storage/storage.go', 'func (s *Store) Write(', '// memo is the latest key of a store, for runs of observations of a record.\ntype memo struct {\n\tv   []byte // value of the first field\n\tkey uint64\n}\n\nvar (\n\tmu    sync.Mutex\n\tmemos = map[Backend]memo{}\n)\n\nfunc (s *Store) keyOf(r collation.Row) (uint64, bool) {\n\tmu.Lock()\n\tdefer mu.Unlock()\n\tkeys := s.Collator.Keys()\n\tif len(keys) == 0 || len(r.Data) == 0 || !bytes.Equal(r.Data[0].F, keys[0]) {\n\t\treturn r.KeyValue(keys)\n\t}\n\tif m, ok := memos[s.Backend]; ok && bytes.Equal(r.Data[0].V, m.v) {\n\t\treturn m.key, true\n\t}\n\tkey, found := r.KeyValue(keys)\n\tif found {\n\t\tmemos[s.Backend] = memo{append([]byte(nil), r.Data[0].V...), key}\n\t}\n\treturn key, found\n}\n\nfunc (s *Store) Write('), ('internal/storage/storage.go', '\tkey, found := r.KeyValue(s.Collator.Keys())\n', '\tkey, found := s.keyOf(r)\n'), ('internal/storage/storage.go', '\t"context"\n', '\t"bytes"\n\t"context"\n\t"sync"\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "j"}}, {Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	post(s, "text/plain", "1|j=a|k=b")
	post(s, "text/plain", "1|j=a|k=c")
	if a := ask(s, "select+count(*)+where+j='a'+and+k='c'"); !strings.Contains(a, "count(*)=1\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='two key fields, of which the first has the same value in successive observations'
BREAKS='the second reaches the record of the first'
