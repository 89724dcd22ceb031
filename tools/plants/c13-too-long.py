PROP='C13'
EDITS=[('internal/server/server.go', '\tif sc.Err() != nil {\n', '\tif sc.Err() != nil && sc.Err() != bufio.ErrTooLong {\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestZZDemo(t *testing.T) {
	sch := collation.Schema{Name: "c", RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	for n := 1; n < 1<<20; n *= 2 {
		s := New()
		s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(11, c.Size()), Collator: c})
		s.registerHandlers()
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("POST", "/obs", strings.NewReader("1 a=1\n2 a="+strings.Repeat("x", n)+"\n3 a=1\n")))
		ok := w.Code < 300
		w = httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q=select+count(*)+where+k='v'", nil))
		if all := strings.Contains(w.Body.String(), "count(*)=3"); ok && !all {
			t.Fatal("success although lines were dropped:", n, w.Body.String())
		}
	}
}
"""
NEEDS='a line longer than the scanner takes'
BREAKS='a request is answered with success although lines were dropped'
