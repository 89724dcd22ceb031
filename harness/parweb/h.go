// Package parweb checks that requests served at the same time are answered as
// if each ran alone, under every interleaving of the handlers.
package parweb

//gate: internal/bufmap internal/storage internal/collation internal/hash/fnv internal/query internal/server internal/summary/stat64

import (
	"bytes"
	"context"
	"encoding/binary"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/nd"
)

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

// serve starts a server of the stores, listening on a scratch socket.
func serve(stores ...storage.Store) (*server.Server, func()) {
	s := server.New()
	s.Logger = quiet{}
	s.Stores = append(s.Stores, stores...)
	dir := "/scratch"
	if !nd.Symbolic() {
		d, err := ioutil.TempDir("", "starbow")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	nd.Start(func() { s.Serve() })
	if nd.Symbolic() {
		// a first request, as below
		do(s, context.Background(), "GET", "/nothing/here", "", "", nil)
		return s, func() {}
	}
	// the server is ready once it answers on its socket
	c := http.Client{Transport: &http.Transport{DisableKeepAlives: true, Dial: func(string, string) (net.Conn, error) { return net.Dial("unix", s.Addr) }}}
	for i := 0; i < 2000; i++ {
		r, err := c.Get("http://starbow/nothing/here")
		if err == nil {
			r.Body.Close()
			break
		}
		time.Sleep(time.Millisecond)
	}
	time.Sleep(30 * time.Millisecond) // let it settle
	return s, func() { os.RemoveAll(dir) }
}

// answer records a response.
type answer struct {
	code int
	head http.Header
	body bytes.Buffer
}

func (a *answer) Header() http.Header { return a.head }
func (a *answer) WriteHeader(c int) {
	if a.code == 0 {
		a.code = c
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(b)
}

func (a *answer) ok() bool { return a.code >= 200 && a.code < 300 }

func do(s *server.Server, ctx context.Context, method, path, rawq, ctype string, body io.Reader) *answer {
	r := &http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: rawq}, Host: "starbow",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, ContentLength: -1, RequestURI: path,
	}
	if body == nil {
		body = strings.NewReader("")
	}
	r.Body = ioutil.NopCloser(body)
	if ctype != "" {
		r.Header.Set("Content-Type", ctype)
	}
	a := &answer{head: http.Header{}}
	s.ServeHTTP(a, r.WithContext(ctx))
	a.WriteHeader(200) // what the server sends when a handler wrote nothing
	return a
}


func store(name string, ms ...collation.Measure) storage.Store {
	s := collation.Schema{
		Name:           name,
		Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "v"}, Measures: ms}},
	}
	c, err := s.Compile()
	nd.Assert(err == nil, "a schema compiles")
	return storage.Store{Backend: bufmap.New(5, c.Size()), Collator: c}
}

func post(s *server.Server, body string) *answer {
	return do(s, context.Background(), "POST", "/obs", "", "text/plain", strings.NewReader(body))
}

func get(s *server.Server, name, k string) *answer {
	q := "select count(*), sum(v) where k='" + k + "'"
	return do(s, context.Background(), "GET", "/collation/"+name, url.Values{"q": {q}}.Encode(), "", nil)
}

func report(k, n, sum string) string {
	if n == "" {
		return "k=" + k + "\n"
	}
	return "k=" + k + "\ncount(*)=" + n + "\nsum(v)=" + sum + "\n"
}

// tally is a measure that adds up the bytes it is given.
type tally struct{}

func (tally) Size() int    { return 8 }
func (tally) Name() string { return "tally" }
func (tally) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		n := binary.LittleEndian.Uint64(buf)
		for _, c := range v {
			n += uint64(c)
		}
		binary.LittleEndian.PutUint64(buf, n)
		return nil
	}
}
func (tally) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return float64(binary.LittleEndian.Uint64(buf)), nil
	}
}

// holds decides that the record of a key has had n observations whose values
// have bytes of the given sum.
func holds(st storage.Store, k string, n int, sum ...byte) {
	var res collation.Result
	var err error
	nd.Par(func() {
		res, err = st.Read(context.Background(), collation.Query{
			FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}, {F: []byte("v"), M: [][]byte{[]byte("tally")}}},
			Criteria:      []collation.FV{{F: []byte("k"), V: []byte(k)}},
		})
	})
	nd.Assert(err == nil && len(res.FieldMeasureValues) == 2, "a key that was observed can be read")
	w := uint64(0)
	for _, b := range sum {
		w += uint64(b)
	}
	nd.Assert(res.FieldMeasureValues[0].V.(float64) == float64(n), "each observation reaches the record of its key")
	nd.Assert(res.FieldMeasureValues[1].V.(float64) == float64(w), "each value reaches the record of its key as it was written")
}

// char is any byte of a value.
func char(label string, not string) byte {
	b := nd.U8(label)
	for i := 0; i < len(not); i++ {
		nd.Assume(b != not[i])
	}
	return b
}

// alone runs a request on its own.
func alone(f func() *answer) (a *answer) {
	nd.Par(func() { a = f() })
	return a
}

func expect(s *server.Server, name, k, n, sum string) {
	a := alone(func() *answer { return get(s, name, k) })
	nd.Assert(a.ok() && a.body.String() == report(k, n, sum), "a query reports all the observations that were accepted")
}

// H_parPosts: two requests with observations at once.
//
//verif:C31 nomerge maxpaths=2000000
func H_parPosts() {
	st := store("a", tally{})
	s, done := serve(st)
	defer done()
	k2 := []string{"x", "y"}[nd.Choose(2)]
	x, y, z := char("x", ",\r\n"), char("y", ";\r\n"), char("z", ",\r\n")
	var a1, a2 *answer
	nd.Par(func() {
		a1 = post(s, "1,k=x,v="+string([]byte{x})+"\n2,k=z,v=0"+string([]byte{z})+"\n")
	}, func() {
		a2 = post(s, "1;v="+string([]byte{y})+";k="+k2)
	})
	nd.Assert(a1.ok() && a2.ok(), "observations are accepted")
	if k2 == "x" {
		holds(st, "x", 2, x, y)
	} else {
		holds(st, "x", 1, x)
		holds(st, "y", 1, y)
	}
	holds(st, "z", 1, '0', z)
}

// H_parQueries: two queries at once.
//
//verif:C31 nomerge maxpaths=2000000
func H_parQueries() {
	s, done := serve(store("a", collation.Sum{}))
	defer done()
	nd.Assert(alone(func() *answer { return post(s, "1,k=x,v=3\n1,k=x,v=5\n2,k=long,v=10") }).ok(), "observations are accepted")
	var a1, a2 *answer
	nd.Par(func() { a1 = get(s, "a", "x") }, func() { a2 = get(s, "a", "long") })
	nd.Assert(a1.ok() && a1.body.String() == report("x", "2", "8"), "a query is answered as if it ran alone")
	nd.Assert(a2.ok() && a2.body.String() == report("long", "1", "10"), "a query is answered as if it ran alone")
}

// H_parPostQuery: a query while observations are received.
//
//verif:C31 nomerge maxpaths=2000000
func H_parPostQuery() {
	s, done := serve(store("a", collation.Sum{}))
	defer done()
	nd.Assert(alone(func() *answer { return post(s, "1,k=x,v=3\n") }).ok(), "observations are accepted")
	if nd.Tier(0, 1) == 0 {
		// of another key: no conflict with the reads, so few schedules
		var a1, a2 *answer
		nd.Par(func() { a1 = post(s, "1,k=y,v=1\n1,k=z,v=5") }, func() { a2 = get(s, "a", "x") })
		nd.Assert(a1.ok() && a2.ok(), "both are answered")
		nd.Assert(a2.body.String() == report("x", "1", "3"), "a query is answered as if it ran alone")
		expect(s, "a", "x", "1", "3")
		expect(s, "a", "y", "1", "1")
		expect(s, "a", "z", "1", "5")
		return
	}
	var a1, a2 *answer
	nd.Par(func() { a1 = post(s, "1,k=y,v=1\n1,k=x,v=5") }, func() { a2 = get(s, "a", "x") })
	nd.Assert(a1.ok() && a2.ok(), "both are answered")
	b := a2.body.String()
	nd.Assert(b == report("x", "1", "3") || b == report("x", "2", "8"), "a query sees all of an observation or nothing of it")
	expect(s, "a", "x", "2", "8")
	expect(s, "a", "y", "1", "1")
}

// H_parAlone: what a request has started must be finished when it answers.
//
//verif:C13 C31 nomerge maxpaths=2000000
func H_parAlone() {
	s, done := serve(store("a", collation.Sum{}), store("b", collation.Sum{}))
	defer done()
	var a *answer
	bad := nd.Choose(2) == 1
	body := "1,k=x,v=3\n2,k=z,v=10\n"
	if bad {
		body += "3,k=x,v=zero\n4,k=z,v=1"
	}
	nd.Par(func() { a = post(s, body) })
	nd.Assert(a.ok() != bad, "a request succeeds when all its observations are accepted")
	for _, n := range []string{"a", "b"} {
		expect(s, n, "x", "1", "3")
		expect(s, n, "z", "1", "10")
	}
}
