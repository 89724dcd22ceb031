PROP='C13'
EDITS=[('internal/server/server.go', '\t\tfor _, st := range s.Stores {\n\t\t\tif err := st.Write(ctx, row); err != nil {\n\t\t\t\thttp.Error(w, err.Error(), http.StatusInternalServerError)\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n', '\t\tfor _, st := range s.Stores {\n\t\t\terr = st.Write(ctx, row)\n\t\t}\n\t\tif err != nil {\n\t\t\thttp.Error(w, err.Error(), http.StatusInternalServerError)\n\t\t\treturn\n\t\t}\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestZZDemo(t *testing.T) {
	mk := func(f string) storage.Store {
		c, err := (&collation.Schema{Name: f, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: f}, Measures: []collation.Measure{collation.Max{}}}}}).Compile()
		if err != nil {
			t.Fatal(err)
		}
		return storage.Store{Backend: bufmap.New(3, c.Size()), Collator: c}
	}
	s := New()
	s.Stores = append(s.Stores, mk("a"), mk("b"))
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1 a=junk b=2\n")))
	if w.Code < 400 {
		t.Fatal(w.Code)
	}
}
"""
NEEDS='two collations of which the first rejects an observation and the last accepts it'
BREAKS='a rejected observation is answered with success'
