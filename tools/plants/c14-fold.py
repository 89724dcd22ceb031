PROP='C14'
EDITS=[('internal/server/server.go', '\t\tif store.Collator.Name() == cname {', '\t\tif strings.EqualFold(store.Collator.Name(), cname) {')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestZZDemo(t *testing.T) {
	c, err := (&collation.Schema{Name: "hits"}).Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(3, 8), Collator: c})
	if err := s.registerHandlers(); err != nil {
		t.Fatal(err)
	}
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/Hits?q=select+count(*)+where+a%3D'b'", nil))
	if w.Code != 404 {
		t.Fatal(w.Code)
	}
}
"""
NEEDS='a collation name that differs from a configured one only in case'
BREAKS='a query is answered from a collation of another name'
