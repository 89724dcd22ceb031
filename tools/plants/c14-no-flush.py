PROP='C14'
EDITS=[('internal/server/server.go', "\t\t\tfor _, c := range q.Criteria {\n\t\t\t\tw.Write(c.F)\n\t\t\t\tw.Write([]byte{'='})\n\t\t\t\tw.Write(c.V)\n\t\t\t\tw.Write([]byte{'\\n'})\n\t\t\t}\n\n\t\t\tfor _, f := range res.FieldMeasureValues {\n\t\t\t\tw.Write([]byte(f.String()))\n\t\t\t\tw.Write([]byte{'\\n'})\n\t\t\t}\n\t\t\treturn\n", "\t\t\tbw := bufio.NewWriter(w)\n\t\t\tfor _, c := range q.Criteria {\n\t\t\t\tbw.Write(c.F)\n\t\t\t\tbw.WriteByte('=')\n\t\t\t\tbw.Write(c.V)\n\t\t\t\tbw.WriteByte('\\n')\n\t\t\t}\n\n\t\t\tif len(res.FieldMeasureValues) == 0 {\n\t\t\t\treturn\n\t\t\t}\n\t\t\tfor _, f := range res.FieldMeasureValues {\n\t\t\t\tbw.WriteString(f.String())\n\t\t\t\tbw.WriteByte('\\n')\n\t\t\t}\n\t\t\tbw.Flush()\n\t\t\treturn\n")]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	if a := ask(s, "select+count(*)+where+k='a'"); !strings.Contains(a, "k=a\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='a query without any results'
BREAKS='the criteria are not echoed'
