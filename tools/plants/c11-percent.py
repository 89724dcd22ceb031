PROP='C11'
EDITS=[('internal/server/server.go', '\t\tV: data[eq+1:],\n', '\t\tV: unescape(data[eq+1:]),\n'), ('internal/server/server.go', 'func parseFV(data []byte) collation.FV {', "// unescape decodes bytes written as a percent sign and two digits.\nfunc unescape(v []byte) []byte {\n\tfor i := 0; i+2 < len(v); i++ {\n\t\tif v[i] != '%' {\n\t\t\tcontinue\n\t\t}\n\t\tc, err := strconv.ParseUint(string(v[i+1:i+3]), 16, 8)\n\t\tif err != nil {\n\t\t\tcontinue\n\t\t}\n\t\tv = append(append(append([]byte{}, v[:i]...), byte(c)), v[i+3:]...)\n\t}\n\treturn v\n}\n\nfunc parseFV(data []byte) collation.FV {")]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	if c := post(s, "text/plain", "1 k=a%41b"); c != 200 {
		t.Fatal(c)
	}
	if a := ask(s, "select+count(*)+where+k='a%2541b'"); !strings.Contains(a, "count(*)=1\n") {
		t.Fatal(a)
	}
}
"""
NEEDS='a value with a percent sign and two hexadecimal digits'
BREAKS='the value is changed'
