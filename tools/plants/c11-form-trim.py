PROP='C11'
EDITS=[('internal/server/server.go', '\t\tr = strings.NewReader(data)\n', '\t\tr = strings.NewReader(strings.TrimSpace(data))\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	if c := post(s, "application/x-www-form-urlencoded", "data=1|k=a+"); c != 200 {
		t.Fatal(c)
	}
	if a := ask(s, "select+count(*)+where+k='a+'"); !strings.Contains(a, "count(*)=1\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='a form whose last value ends with a space'
BREAKS='the value is changed'
