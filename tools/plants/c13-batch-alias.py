PROP='C13'
EDITS=[('internal/server/server.go', '\tsc := bufio.NewScanner(r)\n\tfor sc.Scan() {\n', '\t// Write observations in batches\n\tvar rows []collation.Row\n\tflush := func() error {\n\t\tfor _, row := range rows {\n\t\t\tfor _, st := range s.Stores {\n\t\t\t\tif err := st.Write(ctx, row); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t\trows = rows[:0]\n\t\treturn nil\n\t}\n\n\tsc := bufio.NewScanner(r)\n\tfor sc.Scan() {\n'), ('internal/server/server.go', '\t\trow, err := parseRow(sc.Bytes())\n\t\tif err != nil {\n\t\t\thttp.Error', '\t\trow, err := parseRow(sc.Bytes())\n\t\tif err != nil {\n\t\t\tflush()\n\t\t\thttp.Error'), ('internal/server/server.go', '\t\tfor _, st := range s.Stores {\n\t\t\tif err := st.Write(ctx, row); err != nil {\n\t\t\t\thttp.Error(w, err.Error(), http.StatusInternalServerError)\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n\tif sc', '\t\tif rows = append(rows, row); len(rows) == 100 {\n\t\t\tif err := flush(); err != nil {\n\t\t\t\thttp.Error(w, err.Error(), http.StatusInternalServerError)\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}\n\tif err := flush(); err != nil {\n\t\thttp.Error(w, err.Error(), http.StatusInternalServerError)\n\t\treturn\n\t}\n\tif sc')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}})
	body := ""
	for i := 0; i < 90; i++ {
		body += "1 k=" + strings.Repeat(string(rune('a'+i%3)), []int{90, 70, 33}[i%3]) + "\n"
	}
	if c := post(s, "text/plain", body); c != 200 {
		t.Fatal(c)
	}
	for i, k := range []string{"a", "b", "c"} {
		if a := ask(s, "select+count(*)+where+k='"+strings.Repeat(k, []int{90, 70, 33}[i])+"'"); !strings.Contains(a, "count(*)=30\n") {
			t.Fatal(a)
		}
	}
}
"""
NEEDS='a batch larger than the buffer of the scanner (4096 bytes)'
BREAKS='the fields of earlier lines are overwritten before they are written'
