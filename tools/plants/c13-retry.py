PROP='C13'
EDITS=[('internal/server/server.go', '\tfor sc.Scan() {\n\n', '\tvar last string\n\tfor sc.Scan() {\n\t\t// A line that is repeated at once with its timestamp is a retry\n\t\tif line := sc.Text(); len(line) > 16 && line == last {\n\t\t\tcontinue\n\t\t} else {\n\t\t\tlast = line\n\t\t}\n\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	body := ""
	for i := 0; i < 5; i++ {
		body += strings.Repeat("1500000000000000 a="+strings.Repeat("x", i*7)+"\n", 3)
	}
	if c := post(s, "text/plain", body); c != 200 {
		t.Fatal(c)
	}
	if a := ask(s, "select+count(*)+where+k='v'"); !strings.Contains(a, "count(*)=15\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='two equal lines of more than 16 bytes in a row'
BREAKS='the second line is not applied'
