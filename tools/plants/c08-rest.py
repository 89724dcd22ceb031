PROP='C08'
EDITS=[('internal/storage/storage.go', '\treturn s.Backend.Update(key, t.Do)\n', '\terr := s.Backend.Update(key, t.Do)\n\tif ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {\n\t\t// Keep what can be kept of it\n\t\tfor i, fv := range r.Data {\n\t\t\tif string(fv.V) == ne.Num {\n\t\t\t\tt.Row.Data = append(append(collation.FVList{}, r.Data[:i]...), r.Data[i+1:]...)\n\t\t\t\ts.Backend.Update(key, t.Do)\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t}\n\treturn err\n'), ('internal/storage/storage.go', '\t"context"\n', '\t"context"\n\t"strconv"\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "f"}, Measures: []collation.Measure{collation.Max{}, collation.Min{}, collation.Sum{}}}}})
	post(s, "text/plain", "1|k=a|f=1")
	post(s, "text/plain", "1|k=a|f=1e999")
	if a := ask(s, "select+count(*)+where+k='a'"); !strings.Contains(a, "count(*)=1\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='a number too large for a float64'
BREAKS='the refused observation is counted'
