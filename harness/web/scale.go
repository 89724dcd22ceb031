package web

import (
	"bytes"
	"context"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// long is a value of n bytes with any two bytes in it.
func long(n int, delim byte) []byte {
	b := bytes.Repeat([]byte("0123456 =89"), n/11+1)[:n]
	if n > 1 {
		t := text("v", 2, delim)
		b[n/2], b[n-1] = t[0], t[1]
	}
	return b
}

// H_longline decides that long lines, and lines of many fields, arrive whole or
// are refused whole.
//
//verif:C11 C13 nomerge maxsteps=200000000
func H_longline() {
	form := nd.Choose(7)
	fields := []int{1, 1, 1, 1, 20, 100, 300}[form]
	size := []int{70, 300, 5000, 70000, 9, 40, 2}[form]
	var names []string
	for i := 0; i < fields; i++ {
		names = append(names, "f"+strconv.Itoa(i))
	}
	j := &journal{}
	st := watch(j, "w", names...)
	s, done := serve(st)
	defer done()
	line := []byte("1500000000000000")
	var want []event
	for i, f := range names {
		v := []byte("v" + strconv.Itoa(i))
		if i%37 == 0 || i == fields-1 {
			v = long(size, '\t')
		}
		line = append(append(append(append(line, '\t'), f...), '='), v...)
		want = append(want, event{"w", f, v})
	}
	tail := nd.Choose(2)
	if tail == 1 {
		line = append(line, "\n7\tf0=z"...)
	}
	a := do(s, context.Background(), "POST", "/obs", "", "text/plain", bytes.NewReader(line))
	if a.ok() {
		nd.Assert(rows(st) == 1+tail, "a line is one observation")
		if tail == 1 {
			want = append(want, event{"w", "f0", []byte("z")})
		}
		expect(j, want)
	} else {
		nd.Assert(len(line) > 1<<16, "a well formed line of no great length is accepted")
		nd.Assert(a.code >= 400 && rows(st) == 0 && j.n() == 0, "a line refused for its length changes nothing and is an error")
	}
	nd.Observe("code", uint64(a.code))
}

// H_manylines decides that every line of a long request is applied once, in
// order, or the request is an error.
//
//verif:C13 nomerge maxsteps=200000000
func H_manylines() {
	n := []int{17, 300, 70, 1100, 5000}[nd.Choose(nd.Tier(3, 5))]
	size := 1
	if n <= 300 && nd.Choose(2) == 1 {
		size = 300
	}
	bad := []int{n, 16, n - 1}[nd.Choose(3)]
	j := &journal{}
	x, y := watch(j, "x", "a"), watch(j, "y", "a", "b")
	s, done := serve(x, y)
	defer done()
	var body []byte
	var want []event
	lines := 0
	for i := 0; i < n; i++ {
		if i == bad {
			body = append(body, "no timestamp\n"...)
			continue
		}
		v := bytes.Repeat([]byte(strconv.Itoa(i)), size)
		if i%50 == 16 || i == n-1 {
			v = append(v, text("v", 1, ' ')...)
		}
		for again := 0; again <= i%4/3; again++ { // some lines twice in a row
			body = append(append(body, "1500000000000000 a="...), v...)
			body = append(body, '\n')
			if i < bad {
				lines++
				want = append(want, event{"x", "a", v}, event{"y", "a", v})
			}
		}
	}
	var a *answer
	if n%2 == 0 {
		a = do(s, context.Background(), "POST", "/obs", "", "text/plain", bytes.NewReader(body))
	} else {
		a = do(s, context.Background(), "POST", "/obs", "", "application/octet-stream", &pieces{body, 1000})
	}
	nd.Assert(a.ok() == (bad >= n), "a request is answered with success exactly when every line was applied")
	nd.Assert(rows(x) == lines && rows(y) == lines, "each line is one observation of each collation")
	expect(j, want)
	nd.Observe("code", uint64(a.code))
}

// pieces is a body that arrives in pieces.
type pieces struct {
	b []byte
	n int
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) > p.n {
		b = b[:p.n]
	}
	return (*dribbles)(p).Read(b)
}

type dribbles pieces

func (d *dribbles) Read(b []byte) (int, error) {
	r := bytes.NewReader(d.b)
	n, err := r.Read(b)
	d.b = d.b[n:]
	return n, err
}

// H_manyanswers decides the answer to long queries.
//
//verif:C14 nomerge maxsteps=200000000
func H_manyanswers() {
	fields := []int{9, 33, 70}[nd.Choose(3)]
	sch := collation.Schema{
		Name:           "wide",
		Keys:           []collation.KeySpec{{Field: field("k")}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
	}
	for i := 0; i < fields; i++ {
		sch.Measures = append(sch.Measures, collation.MeasureSpec{Field: field("f" + strconv.Itoa(i)), Measures: []collation.Measure{collation.Max{}, collation.Min{}}})
	}
	c, err := sch.Compile()
	nd.Assert(err == nil, "a schema compiles")
	st := storage.Store{Backend: bufmap.New(5, c.Size()), Collator: c}
	s, done := serve(stats("one"), st, stats("two"))
	defer done()
	k := strings.Repeat("key", []int{1, 30, 400}[nd.Choose(3)])
	z := nd.Ascii("z", 3)
	for _, c := range z {
		nd.Assume(c >= 'a' && c <= 'z')
	}
	other := strings.Repeat("other", 20) + string(z)
	for n := 0; n < 2; n++ {
		row := collation.Row{Data: []collation.FV{{F: []byte("k"), V: []byte(k)}}}
		for i := 0; i < fields; i++ {
			row.Data = append(row.Data, collation.FV{F: []byte("f" + strconv.Itoa(i)), V: []byte(strconv.Itoa(1000*n + i))})
		}
		nd.Assert(st.Write(context.Background(), row) == nil, "an observation is accepted")
	}
	q, want := "q=select+count(*)", "z="+other+"\nk="+k+"\ncount(*)=2\n"
	for i := 0; i < fields; i++ {
		f := "(f" + strconv.Itoa(i) + ")"
		q += ",+max" + f + ",+spread" + f + ",min" + f
		want += "max" + f + "=" + strconv.Itoa(1000+i) + "\nmin" + f + "=" + strconv.Itoa(i) + "\n"
	}
	q += "+where+z='" + other + "'+and+k='" + k + "'"
	a := do(s, context.Background(), "GET", "/collation/wide", q, "", nil)
	nd.Assert(a.code == 200, "a query is answered with success")
	nd.Assert(a.body.String() == want, "the answer lists the criteria and then the measures requested that exist")
	nd.Observe("len", uint64(a.body.Len()))
}

var exact = []string{
	"0", "1", "-1", "0.1", "-0.25", "123456789", "123456789012345", "1234567890123456789", "0.1234567890123456",
	"1e21", "1e20", "1e-7", "1e300", "4.9e-324", "1.7976931348623157e308", "9007199254740993", "33.333333333333336",
	"-0.30000000000000004", "1000000", "999999999999999.9", "2147483648", "4294967297", "1e100", "inf", "-inf",
}

// H_exact decides that statistics are reported without loss.
//
//verif:C14 nomerge
func H_exact() {
	st := stats("n")
	s, done := serve(st)
	defer done()
	x, y := exact[nd.Choose(len(exact))], []string{"", "1", "-0.7", "1e16"}[nd.Choose(4)]
	for _, t := range []string{x, y} {
		if t != "" {
			err := st.Write(context.Background(), collation.Row{Data: []collation.FV{{F: []byte("k"), V: []byte("x")}, {F: []byte("h"), V: []byte(t)}}})
			nd.Assert(err == nil, "an observation is accepted")
		}
	}
	res, err := st.Read(context.Background(), collation.Query{
		FieldMeasures: []collation.FM{{F: []byte("h"), M: [][]byte{[]byte("max"), []byte("mean")}}},
		Criteria:      []collation.FV{{F: []byte("k"), V: []byte("x")}},
	})
	nd.Assert(err == nil && len(res.FieldMeasureValues) == 2, "a store can be read")
	a := do(s, context.Background(), "GET", "/collation/n", "q=select+max(h),mean(h)+where+k='x'", "", nil)
	lines := strings.Split(a.body.String(), "\n")
	nd.Assert(a.code == 200 && len(lines) == 4 && lines[0] == "k=x" && lines[3] == "", "a query is answered with success")
	for i, m := range []string{"max(h)=", "mean(h)="} {
		nd.Assert(strings.HasPrefix(lines[i+1], m), "each measure is on a line of its own")
		v, err := strconv.ParseFloat(lines[i+1][len(m):], 64)
		nd.Assert(err == nil && nd.SameF(v, res.FieldMeasureValues[i].V.(float64)), "a measure is reported with its current value")
	}
	max, _ := strconv.ParseFloat(x, 64)
	if other, err := strconv.ParseFloat(y, 64); err == nil && other > max {
		max = other
	}
	nd.Assert(res.FieldMeasureValues[0].V.(float64) == max, "the maximum is that of the values observed")
	nd.ObserveBytes("body", a.body.Bytes())
}

// hex is b in the encoding of forms and URLs.
func hex(b []byte) string {
	var out []byte
	for _, c := range b {
		out = append(out, '%')
		for _, d := range []byte{c >> 4, c & 15} {
			if d > 9 {
				d += 'A' - '0' - 10
			}
			out = append(out, '0'+d)
		}
	}
	return string(out)
}

// H_carry decides that values of any bytes arrive however an observation is
// sent: as text, with parameters, as an octet stream, without a type or as a
// form, with any line ending, first or last in its line and in its request.
//
//verif:C11 nomerge
func H_carry() {
	j := &journal{}
	s, done := serve(watch(j, "w", "a"))
	defer done()
	delim := []byte{'\t', ' ', ';'}[nd.Choose(nd.Tier(2, 3))]
	at := nd.Choose(2)
	v := []byte("mm")
	v[at] = text("v", 1, delim)[0]
	line := append([]byte("1500000000000000"), delim)
	line = append(append(line, "a="...), v...)
	end := nd.Choose(4)
	if end == 3 {
		line = append(append(line, delim), "z=1"...)
	}
	body := append(line, []string{"", "\n", "\r\n", ""}[end]...)
	want := []event{{"w", "a", v}}
	switch nd.Choose(3) {
	case 1:
		body = append([]byte("7\ta=x\n"), body...)
		want = append([]event{{"w", "a", []byte("x")}}, want...)
	case 2:
		if end == 0 || end == 3 {
			body = append(body, '\n')
		}
		body = append(body, "7\ta=x"...)
		want = append(want, event{"w", "a", []byte("x")})
	}
	var a *answer
	switch k := nd.Choose(6); k {
	case 4:
		a = do(s, context.Background(), "POST", "/obs", "", "application/x-www-form-urlencoded", strings.NewReader("x=1&data="+hex(body)))
	case 5:
		a = do(s, context.Background(), "POST", "/obs", "data="+hex(body), "application/x-www-form-urlencoded; charset=utf-8", nil)
	default:
		ct := []string{"text/plain", "Text/Plain; charset=utf-8", "application/octet-stream", ""}[k]
		a = do(s, context.Background(), "POST", "/obs", "", ct, bytes.NewReader(body))
	}
	nd.Assert(a.ok(), "a well formed observation is accepted")
	expect(j, want)
	nd.Observe("n", uint64(j.n()))
}

// H_echo decides that values of any bytes select their record and are echoed
// as they are, however a query is sent.
//
//verif:C14 nomerge
func H_echo() {
	st := stats("one")
	s, done := serve(stats("two"), st)
	defer done()
	at := nd.Choose(2)
	v := []byte("mm")
	v[at] = nd.U8("v")
	nd.Assume(v[at] != '\'' && v[at] != '\n')
	err := st.Write(context.Background(), collation.Row{Data: []collation.FV{{F: []byte("k"), V: v}, {F: []byte("h"), V: []byte("4")}}})
	nd.Assert(err == nil, "an observation is accepted")
	q := "q=select+max(h),+count(*)+where+k='" + hex(v) + "'"
	const form = "application/x-www-form-urlencoded"
	for i := 0; i < 2; i++ {
		var a *answer
		switch nd.Choose(6) {
		case 0:
			a = do(s, context.Background(), "GET", "/collation/one", q, "", nil)
		case 1:
			a = do(s, context.Background(), "GET", "/collation/one", "x=1&"+q+"&y=%20", form, nil)
		case 2:
			a = do(s, context.Background(), "POST", "/collation/one", q, "", nil)
		case 3:
			a = do(s, context.Background(), "POST", "/collation/one", "x=2&"+q, form, strings.NewReader("z=1"))
		case 4:
			a = do(s, context.Background(), "POST", "/collation/one", "", form, strings.NewReader(q+"&z=1"))
		case 5:
			a = do(s, context.Background(), "POST", "/collation/one", "", form+"; charset=UTF-8", strings.NewReader("z=1&"+q))
		}
		nd.Assert(a.code == 200, "a query is answered with success")
		nd.Assert(a.body.String() == "k="+string(v)+"\nmax(h)=4\ncount(*)=1\n", "the answer lists the criteria and then the measures requested that exist, and repeats")
		nd.ObserveBytes("body", a.body.Bytes())
	}
}
