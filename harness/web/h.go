// Package web holds the harnesses over internal/server.
package web

import (
	"bytes"
	"context"
	"io"
	"io/ioutil"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/nd"
)

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

// serve starts a server of the stores, listening on a scratch socket.
func serve(stores ...storage.Store) (*server.Server, func()) {
	s := server.New()
	s.Logger = quiet{}
	s.Stores = append(s.Stores, stores...)
	dir := "/scratch"
	if !nd.Symbolic() {
		d, err := ioutil.TempDir("", "starbow")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	s.Net, s.Addr = "unix", filepath.Join(dir, "s")
	nd.Start(func() { s.Serve() })
	if nd.Symbolic() {
		return s, func() {}
	}
	// the server is ready once it answers on its socket
	c := http.Client{Transport: &http.Transport{DisableKeepAlives: true, Dial: func(string, string) (net.Conn, error) { return net.Dial("unix", s.Addr) }}}
	for i := 0; i < 2000; i++ {
		r, err := c.Get("http://starbow/nothing/here")
		if err == nil {
			r.Body.Close()
			break
		}
		time.Sleep(time.Millisecond)
	}
	return s, func() { os.RemoveAll(dir) }
}

// answer records a response.
type answer struct {
	code int
	head http.Header
	body bytes.Buffer
}

func (a *answer) Header() http.Header { return a.head }
func (a *answer) WriteHeader(c int) {
	if a.code == 0 {
		a.code = c
	}
}
func (a *answer) Write(b []byte) (int, error) {
	a.WriteHeader(200)
	return a.body.Write(b)
}

func (a *answer) ok() bool { return a.code >= 200 && a.code < 300 }

func do(s *server.Server, ctx context.Context, method, path, rawq, ctype string, body io.Reader) *answer {
	r := &http.Request{
		Method: method, URL: &url.URL{Path: path, RawQuery: rawq}, Host: "starbow",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, ContentLength: -1, RequestURI: path,
	}
	if body == nil {
		body = strings.NewReader("")
	}
	r.Body = ioutil.NopCloser(body)
	if ctype != "" {
		r.Header.Set("Content-Type", ctype)
	}
	a := &answer{head: http.Header{}}
	s.ServeHTTP(a, r.WithContext(ctx))
	a.WriteHeader(200) // what the server sends when a handler wrote nothing
	return a
}

// event is what a collation was given.
type event struct {
	store string
	field string
	v     []byte
}

// journal holds the measures that record what they are given. Each has its own
// record: nothing says in which order an observation reaches the collations.
type journal struct{ spies []*spy }

func (j *journal) n() int {
	n := 0
	for _, s := range j.spies {
		n += len(s.got)
	}
	return n
}

// spy is a measure that records the values it is given.
type spy struct {
	store, field string
	got          [][]byte
}

func (s *spy) Size() int    { return 1 }
func (s *spy) Name() string { return "spy" }
func (s *spy) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		s.got = append(s.got, append([]byte{}, v...))
		return nil
	}
}

func field(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

// watch is a store that records what it is given for its fields. It has no
// keys, so that every observation belongs to its one record.
func watch(j *journal, name string, fields ...string) storage.Store {
	sch := collation.Schema{Name: name, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	for _, f := range fields {
		m := &spy{store: name, field: f}
		j.spies = append(j.spies, m)
		sch.Measures = append(sch.Measures, collation.MeasureSpec{Field: field(f), Measures: []collation.Measure{m}})
	}
	c, err := sch.Compile()
	nd.Assert(err == nil, "a schema compiles")
	return storage.Store{Backend: bufmap.New(3, c.Size()), Collator: c}
}

// rows is how many observations a store accepted.
func rows(s storage.Store) int {
	res, err := s.Read(context.Background(), collation.Query{FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}})
	nd.Assert(err == nil, "a store can be read")
	if len(res.FieldMeasureValues) == 0 {
		return 0
	}
	return int(res.FieldMeasureValues[0].V.(float64))
}

func expect(j *journal, want []event) {
	for _, s := range j.spies {
		var vs [][]byte
		for _, w := range want {
			if w.store == s.store && w.field == s.field {
				vs = append(vs, w.v)
			}
		}
		nd.Assert(len(s.got) == len(vs), "each value reaches each collation once and nothing else does")
		for i, v := range vs {
			nd.Assert(bytes.Equal(s.got[i], v), "values arrive in order and as they were written")
		}
	}
}

// text is any n bytes of a line other than the delimiter.
func text(label string, n int, delim byte) []byte {
	b := nd.Bytes(label, n)
	for _, c := range b {
		nd.Assume(c != '\n' && c != '\r' && c != delim)
	}
	return b
}

// stamp is any valid timestamp of n digits.
func stamp(n int) []byte {
	b := nd.Bytes("ts", n)
	for _, c := range b {
		nd.Assume(c >= '0' && c <= '9')
	}
	return b
}

// H_line decides that a line is split into exactly its fields and values.
//
//verif:C11 nomerge maxpaths=3000000
func H_line() {
	j := &journal{}
	st := watch(j, "w", "a", "bb", "")
	s, done := serve(st)
	defer done()
	delim := nd.U8("delim")
	nd.Assume(delim != '\n' && delim != '\r' && delim != '=' && (delim < '0' || delim > '9'))
	nd.Assume(delim != 'a' && delim != 'b' && delim != 'z')
	line := stamp([]int{1, 2, 16}[nd.Choose(nd.Tier(2, 3))])
	var want []event
	n := nd.Choose(4)
	for i := 0; i < n; i++ {
		line = append(line, delim)
		f := []string{"a", "bb", "z", ""}[nd.Choose(4)]
		for _, e := range want {
			nd.Assume(e.field != f)
		}
		v := text("v", nd.Choose(nd.Tier(2, 3)), delim)
		line = append(line, f...)
		if nd.Choose(2) == 0 || len(v) > 0 {
			line = append(append(line, '='), v...)
		}
		if f != "z" {
			want = append(want, event{"w", f, v})
		}
	}
	a := do(s, context.Background(), "POST", "/obs", "", "text/plain", bytes.NewReader(line))
	nd.Assert(a.ok(), "a well formed line is accepted")
	nd.Assert(rows(st) == 1, "a line is one observation")
	expect(j, want)
	nd.Observe("n", uint64(len(want)))
}

// H_names decides that names are told apart by all their bytes.
//
//verif:C11 nomerge
func H_names() {
	j := &journal{}
	st := watch(j, "w", "a", "ab", "a b")
	s, done := serve(st)
	defer done()
	f := text("name", nd.Choose(4), '\t')
	for _, c := range f {
		nd.Assume(c != '=')
	}
	v := text("v", 2, '\t')
	line := append([]byte("1500000000000000\tq=1\t"), f...)
	line = append(append(line, '='), v...)
	line = append(line, "\tr=2"...)
	a := do(s, context.Background(), "POST", "/obs", "", "application/octet-stream", bytes.NewReader(line))
	nd.Assert(a.ok(), "a well formed line is accepted")
	var want []event
	switch string(f) {
	case "a", "ab", "a b":
		want = []event{{"w", string(f), v}}
	}
	expect(j, want)
	nd.Observe("n", uint64(len(want)))
}

// H_stamp decides which timestamps are refused.
//
//verif:C11 nomerge
func H_stamp() {
	j := &journal{}
	st := watch(j, "w", "a")
	s, done := serve(st)
	defer done()
	var line []byte
	good := false
	switch nd.Choose(5) {
	case 0: // no digits
		c := nd.U8("c")
		nd.Assume(c < '0' || c > '9')
		line = append([]byte{c}, "5\ta=1"...)
	case 1: // about the largest 64 bit number
		d := stamp(3)
		pre := "1844674407370955" + string([]byte{'0' + byte(nd.Choose(10))})
		line = append(append([]byte(pre), d...), "\ta=1"...)
	case 2: // too long
		line = append([]byte("123456789012345678"), stamp(nd.Tier(3, 4))...)
		line = append(line, "\ta=1"...)
	case 3: // about the largest
		d := stamp(3)
		pre := "922337203685477" + string([]byte{'0' + byte(nd.Choose(10))})
		line = append(append([]byte(pre), d...), "\ta=1"...)
		good = string(line[:19]) <= "9223372036854775807"
	case 4:
		line = append(stamp(nd.Tier(10, 18)), "\ta=1"...)
		good = true
	}
	a := do(s, context.Background(), "POST", "/obs", "", "text/plain", bytes.NewReader(line))
	if good {
		nd.Assert(a.ok() && rows(st) == 1, "a line with a timestamp is accepted")
		expect(j, []event{{"w", "a", []byte("1")}})
	} else {
		nd.Assert(a.code >= 400, "a line without a leading valid timestamp is refused with an error status")
		nd.Assert(rows(st) == 0 && j.n() == 0, "a refused line changes nothing")
	}
	nd.Observe("code", uint64(a.code))
}

// H_junk decides that no short line crashes the server.
//
//verif:C11 nomerge
func H_junk() {
	j := &journal{}
	st := watch(j, "w", "a", "")
	s, done := serve(st)
	defer done()
	b := nd.Bytes("line", nd.Choose(nd.Tier(5, 6)))
	a := do(s, context.Background(), "POST", "/obs", "", "text/plain", bytes.NewReader(b))
	nd.Assert(a.ok() || a.code >= 400, "any line is answered")
	nd.Assert(!a.ok() || j.n() <= len(b), "no line invents values")
	nd.Observe("code", uint64(a.code))
}

// H_batch decides that every line of an accepted request is applied once, in
// order, to every collation, and that a refused line gives an error status.
//
//verif:C13 nomerge
func H_batch() {
	j := &journal{}
	x, y := watch(j, "x", "a", "b"), watch(j, "y", "a")
	s, done := serve(x, y)
	defer done()
	n := 1 + nd.Choose(nd.Tier(3, 4))
	bad := nd.Choose(n + 1) // the line that is malformed, or none
	end := []string{"\n", "\r\n"}[nd.Choose(2)]
	var body []byte
	var want []event
	for i := 0; i < n; i++ {
		if i == bad {
			body = append(body, "no timestamp"...)
			body = append(body, end...)
			continue
		}
		v := text("v", 1, ' ')
		body = append(body, "12 a="...)
		body = append(body, v...)
		if i < bad || bad == n {
			want = append(want, event{"x", "a", v})
			if i == 1 {
				body = append(body, " b=7"...)
				want = append(want, event{"x", "b", []byte("7")})
			}
			want = append(want, event{"y", "a", v})
		}
		if i < n-1 || nd.Choose(2) == 0 {
			body = append(body, end...)
		}
	}
	var a *answer
	switch nd.Choose(3) {
	case 0:
		a = do(s, context.Background(), "POST", "/obs", "", "text/plain; charset=utf-8", bytes.NewReader(body))
	case 1:
		a = do(s, context.Background(), "POST", "/obs", "", "", &dribble{b: body})
	case 2:
		a = do(s, context.Background(), "POST", "/obs", "", "application/octet-stream", bytes.NewReader(body))
	}
	nd.Assert(a.ok() == (bad >= n), "a request is answered with success exactly when every line was applied")
	expect(j, want)
	lines := n
	if bad < n {
		lines = bad
	}
	nd.Assert(rows(x) == lines && rows(y) == lines, "each line is one observation of each collation")
	nd.Observe("code", uint64(a.code))
}

// dribble is a body that arrives one byte at a time.
type dribble struct{ b []byte }

func (d *dribble) Read(p []byte) (int, error) {
	if len(d.b) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = d.b[0]
	d.b = d.b[1:]
	return 1, nil
}

// cut is a body that breaks off.
type cut struct{ r io.Reader }

func (c cut) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// H_form decides the same for observations sent as a form.
//
//verif:C13 nomerge
func H_form() {
	j := &journal{}
	x, y := watch(j, "x", "a"), watch(j, "y", "a")
	s, done := serve(x, y)
	defer done()
	v := nd.U8("v")
	nd.Assume(v >= 'a' && v <= 'z')
	body := "data=1+a%3D" + string([]byte{v}) + "%0A2+a%3Dz"
	want := []event{{"x", "a", []byte{v}}, {"y", "a", []byte{v}}, {"x", "a", []byte("z")}, {"y", "a", []byte("z")}}
	switch nd.Choose(3) {
	case 0:
		a := do(s, context.Background(), "POST", "/obs", "", "application/x-www-form-urlencoded", strings.NewReader(body))
		nd.Assert(a.ok(), "a form of well formed lines is accepted")
		expect(j, want)
	case 1:
		a := do(s, context.Background(), "POST", "/obs", "", "application/x-www-form-urlencoded", strings.NewReader("other=1+a%3D1"))
		nd.Assert(a.code >= 400 && j.n() == 0, "a form without data is an error and applies nothing")
	case 2:
		a := do(s, context.Background(), "POST", "/obs", "", "application/x-www-form-urlencoded", strings.NewReader(body+"%0Abad"))
		nd.Assert(a.code >= 400, "a refused line gives an error status")
		expect(j, want)
	}
	nd.Observe("n", uint64(j.n()))
}

// H_refuse decides that other requests apply nothing.
//
//verif:C13 nomerge
func H_refuse() {
	j := &journal{}
	x := watch(j, "x", "a")
	s, done := serve(x)
	defer done()
	body := strings.NewReader("1 a=1\n2 a=2\n")
	var a *answer
	switch nd.Choose(4) {
	case 0:
		m := []string{"GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "post", "", "POS"}[nd.Choose(9)]
		a = do(s, context.Background(), m, "/obs", "", "text/plain", body)
		nd.Assert(a.code == http.StatusMethodNotAllowed, "other methods are refused")
	case 1:
		m := nd.Ascii("method", 3+nd.Choose(2))
		for _, c := range m {
			nd.Assume(c >= 'A' && c <= 'Z')
		}
		nd.Assume(string(m) != "POST")
		a = do(s, context.Background(), string(m), "/obs", "", "text/plain", body)
		nd.Assert(a.code == http.StatusMethodNotAllowed, "other methods are refused")
	case 2:
		ct := []string{"application/json", "text/html", "multipart/form-data; boundary=x", "text", "text/plain;;", "/", "text/plain2", "application/x-www-form-urlencode"}[nd.Choose(8)]
		a = do(s, context.Background(), "POST", "/obs", "", ct, body)
		nd.Assert(a.code >= 400, "unsupported content types are refused")
	case 3:
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		a = do(s, ctx, "POST", "/obs", "", "text/plain", body)
	}
	nd.Assert(j.n() == 0 && rows(x) == 0, "a refused request applies nothing")
	nd.Observe("code", uint64(a.code))
}

// broken is a backend that fails from the n'th update on.
type broken struct {
	storage.Backend
	n int
}

func (b *broken) Update(k uint64, fn func([]byte, bool) error) error {
	if b.n == 0 {
		return io.ErrShortWrite
	}
	b.n--
	return b.Backend.Update(k, fn)
}

// H_fault decides that a fault of the body or of a store gives an error status.
//
//verif:C13 nomerge
func H_fault() {
	j := &journal{}
	x, y := watch(j, "x", "a"), watch(j, "y", "a")
	n, at := nd.Choose(3), nd.Choose(3)
	b := &broken{nil, n}
	switch at {
	case 0:
		b.Backend, x.Backend = x.Backend, b
	case 1:
		b.Backend, y.Backend = y.Backend, b
	}
	s, done := serve(x, y)
	defer done()
	v := text("v", 1, ' ')
	body := append(append([]byte("1 a="), v...), "\n2 a=p\n3 a=q"...)
	var r io.Reader = bytes.NewReader(body)
	if at == 2 {
		r = cut{bytes.NewReader(body)}
	}
	a := do(s, context.Background(), "POST", "/obs", "", "text/plain", r)
	nd.Assert(a.code >= 400, "a request that was not applied in full gives an error status")
	for _, m := range j.spies {
		nd.Assert(len(m.got) == 0 || bytes.Equal(m.got[0], v), "values arrive as written")
	}
	nd.Observe("n", uint64(j.n()))
}

// stats is a real collation keyed by k.
func stats(name string) storage.Store {
	sch := collation.Schema{
		Name:           name,
		Keys:           []collation.KeySpec{{Field: field("k")}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: field("h"), Measures: []collation.Measure{collation.Max{}, collation.Mean{}}}},
	}
	c, err := sch.Compile()
	nd.Assert(err == nil, "a schema compiles")
	return storage.Store{Backend: bufmap.New(5, c.Size()), Collator: c}
}

type pair struct{ k, v string }

// H_query decides the answer to queries: the collation named, the criteria,
// then the measures requested that exist.
//
//verif:C14 nomerge
func H_query() {
	first, second := stats("one"), stats("two")
	s, done := serve(first, second)
	defer done()
	k := nd.U8("k")
	nd.Assume(k >= 'a' && k <= 'z')
	ks := string([]byte{k})
	put := func(st storage.Store, k, h string) {
		err := st.Write(context.Background(), collation.Row{Data: []collation.FV{{F: []byte("k"), V: []byte(k)}, {F: []byte("h"), V: []byte(h)}}})
		nd.Assert(err == nil, "an observation is accepted")
	}
	put(first, ks, "4")
	put(first, ks, "-1.5")
	put(second, ks, "8")
	put(second, "other", "99")

	name := []string{"one", "two"}[nd.Choose(2)]
	max, mean, count := "4", "1.25", "2"
	if name == "two" {
		max, mean, count = "8", "8", "1"
	}
	var q, want string
	switch nd.Choose(5) {
	case 0:
		q = "select+max(h)+where+k='" + ks + "'"
		want = "k=" + ks + "\nmax(h)=" + max + "\n"
	case 1:
		q = "SELECT+mean(h),+count(*),max(h)++Where+k='" + ks + "'"
		want = "k=" + ks + "\nmean(h)=" + mean + "\nmax(h)=" + max + "\ncount(*)=" + count + "\n"
	case 2:
		q = "select+count(*),+min(h),+max(g),+mean(h)+where+z='%20%26'+and+k='" + ks + "'"
		want = "z= &\nk=" + ks + "\ncount(*)=" + count + "\nmean(h)=" + mean + "\n"
	case 3: // a key that was never written
		q = "select+count(*)+where+k='" + ks + ks + "'"
		want = "k=" + ks + ks + "\n"
	case 4: // no key
		q = "select+count(*)+where+j='" + ks + "'"
		want = "j=" + ks + "\n"
	}
	for i := 0; i < 2; i++ {
		var a *answer
		if nd.Choose(2) == 0 {
			a = do(s, context.Background(), "GET", "/collation/"+name, "q="+q, "", nil)
		} else {
			a = do(s, context.Background(), "POST", "/collation/"+name, "", "application/x-www-form-urlencoded", strings.NewReader("q="+q))
		}
		nd.Assert(a.code == 200, "a query is answered with success")
		nd.Assert(a.body.String() == want, "the answer lists the criteria and then the measures requested that exist, and repeats")
		nd.ObserveBytes("body", a.body.Bytes())
	}
}

// H_numbers decides that any statistic is reported as its current value.
//
//verif:C14 nomerge
func H_numbers() {
	st := stats("n")
	s, done := serve(st)
	defer done()
	v := nd.F64("v")
	err := st.Write(context.Background(), collation.Row{Data: []collation.FV{{F: []byte("k"), V: []byte("x")}, {F: []byte("h"), V: nd.FloatText(v)}}})
	nd.Assert(err == nil, "an observation is accepted")
	a := do(s, context.Background(), "GET", "/collation/n", "q=select+max(h),count(*)+where+k='x'", "", nil)
	nd.Assert(a.code == 200, "a query is answered with success")
	res, err := st.Read(context.Background(), collation.Query{
		FieldMeasures: []collation.FM{{F: []byte("h"), M: [][]byte{[]byte("max")}}},
		Criteria:      []collation.FV{{F: []byte("k"), V: []byte("x")}},
	})
	nd.Assert(err == nil && len(res.FieldMeasureValues) == 1, "a store can be read")
	nd.Assert(nd.SameF(res.FieldMeasureValues[0].V.(float64), v), "the maximum of one value is that value")
	b := a.body.Bytes()
	nd.Assert(bytes.HasPrefix(b, []byte("k=x\nmax(h)=")) && bytes.HasSuffix(b, []byte("\ncount(*)=1\n")), "each measure is on a line of its own")
	nd.Observe("len", uint64(a.code))
}

// H_status decides the status of other requests, which change nothing.
//
//verif:C14 nomerge
func H_status() {
	st := stats("name")
	s, done := serve(st)
	defer done()
	crit := []collation.FV{{F: []byte("k"), V: []byte("x")}}
	nd.Assert(st.Write(context.Background(), collation.Row{Data: crit}) == nil, "an observation is accepted")
	q := "q=select+count(*)+where+k='x'"
	var a *answer
	switch nd.Choose(4) {
	case 0:
		p := []string{"", "nam", "names", "Name", "name/", "name/x", "other"}[nd.Choose(7)]
		a = do(s, context.Background(), "GET", "/collation/"+p, q, "", nil)
		nd.Assert(a.code == 404, "an unknown collation is not found")
	case 1:
		p := nd.Ascii("name", 4)
		for _, c := range p {
			nd.Assume(c >= 'a' && c <= 'z')
		}
		a = do(s, context.Background(), "GET", "/collation/"+string(p), q, "", nil)
		nd.Assert(a.code == 200 == (string(p) == "name") && (a.code == 200 || a.code == 404), "exactly the collation named answers")
	case 2:
		bad := []string{"", "q=", "q=select+x", "q=where+k='x'", "x=select+count(*)+where+k='x'", "q=select+count(*)+where+"}[nd.Choose(6)]
		a = do(s, context.Background(), []string{"GET", "POST"}[nd.Choose(2)], "/collation/name", bad, "", nil)
		nd.Assert(a.code == 400, "an unparsable query is a bad request")
	case 3:
		m := []string{"PUT", "DELETE", "HEAD", "PATCH", "get", "OPTIONS"}[nd.Choose(6)]
		a = do(s, context.Background(), m, "/collation/name", q, "", nil)
		nd.Assert(a.code == 405, "other methods are refused")
	}
	nd.Observe("code", uint64(a.code))
	a = do(s, context.Background(), "GET", "/collation/name", q, "", nil)
	nd.Assert(a.code == 200 && a.body.String() == "k=x\ncount(*)=1\n", "queries change nothing")
}
