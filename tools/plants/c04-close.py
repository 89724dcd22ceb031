PROP='C04'
EDITS=[('internal/collation/measure.go', '\t\t\tc := math.Float64frombits(binary.LittleEndian.Uint64(buf))\n\t\t\tif c >= v || math.IsNaN(v) {\n', '\t\t\tc := math.Float64frombits(binary.LittleEndian.Uint64(buf))\n\t\t\tif v > c && v-c < 1e-300 {\n\t\t\t\treturn nil // no more than rounding\n\t\t\t}\n\t\t\tif c >= v || math.IsNaN(v) {\n')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func open(t *testing.T, sch collation.Schema) *Server {
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	return s
}

func post(s *Server, ct, body string) int {
	w := httptest.NewRecorder()
	r := httptest.NewRequest("POST", "/obs", strings.NewReader(body))
	r.Header.Set("Content-Type", ct)
	s.ServeHTTP(w, r)
	return w.Code
}

func ask(s *Server, q string) string {
	w := httptest.NewRecorder()
	s.ServeHTTP(w, httptest.NewRequest("GET", "/collation/c?q="+q, nil))
	return w.Body.String()
}

func TestZZDemo(t *testing.T) {
	s := open(t, collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}}, RecordMeasures: []collation.RowMeasure{collation.Count{}}, Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "f"}, Measures: []collation.Measure{collation.Max{}, collation.Min{}, collation.Sum{}}}}})
	if c := post(s, "text/plain", "1|k=a|f=1e-310\n2|k=a|f=5e-310"); c != 200 {
		t.Fatal(c)
	}
	if a := ask(s, "select+max(f)+where+k='a'"); !strings.Contains(a, "max(f)=5e-310") {
		t.Fatal(a)
	}
}
"""
NEEDS='values that differ by less than 1e-300'
BREAKS='the maximum stays at an earlier, smaller value'
