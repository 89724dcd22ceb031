PROP='C31'
EDITS=[('internal/server/server.go','''		row, err := parseRow(sc.Bytes())
		if err''','''		row := &s.row
		err := parseRow(row, sc.Bytes())
		if err'''),('internal/server/server.go','''			if err := st.Write(ctx, row); err''','''			if err := st.Write(ctx, *row); err'''),
('internal/server/server.go','''func parseRow(data []byte) (collation.Row, error) {
	row := collation.Row{}
''','''// parseRow parses data into row, reusing its memory.
func parseRow(row *collation.Row, data []byte) error {
	row.Reset()
'''),('internal/server/server.go','''		return row, fmt.Errorf("row missing''','''		return fmt.Errorf("row missing'''),
('internal/server/server.go','''	if err != nil {
		return row, err
	}

	row.DataTime''','''	if err != nil {
		return err
	}

	row.DataTime'''),('internal/server/server.go','''		// No fields or values
		return row, nil
''','''		// No fields or values
		return nil
'''),('internal/server/server.go','''		p += offset + 1
	}

	return row, nil
''','''		p += offset + 1
	}

	return nil
'''),('internal/server/server.go','''	mux *http.ServeMux
}
''','''	mux *http.ServeMux
	row collation.Row
}
''')]
PKG='internal/server'
DEMO=r"""
package server

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
)

func TestZZDemo(t *testing.T) {
	f := func(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }
	sch := collation.Schema{Name: "c", Keys: []collation.KeySpec{{Field: f("k")}}, Measures: []collation.MeasureSpec{{Field: f("v"), Measures: []collation.Measure{collation.Count{}, collation.Sum{}}}}}
	c, err := sch.Compile()
	if err != nil {
		t.Fatal(err)
	}
	s := New()
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(101, c.Size()), Collator: c})
	s.registerHandlers()
	const n, lines = 8, 20000
	var wg sync.WaitGroup
	for i := 1; i <= n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { recover() }()
			body := strings.Repeat(fmt.Sprintf("1 k=%d v=%d\n", i, i), lines)
			s.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("POST", "/obs", strings.NewReader(body)))
		}(i)
	}
	wg.Wait()
	for i := 1; i <= n; i++ {
		w := httptest.NewRecorder()
		s.ServeHTTP(w, httptest.NewRequest("GET", fmt.Sprintf("/collation/c?q=select+count(v),sum(v)+where+k='%d'", i), nil))
		if want := fmt.Sprintf("k=%d\ncount(v)=%v\nsum(v)=%v\n", i, float64(lines), float64(i*lines)); w.Code != http.StatusOK || w.Body.String() != want {
			t.Fatal(w.Code, w.Body.String(), want)
		}
	}
}
"""
NEEDS='two observation requests at the same time'
BREAKS='one request works with the fields of another'
