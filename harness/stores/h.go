// Package stores holds the harnesses over internal/storage.
package stores

import (
	"bytes"
	"context"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/zzverif/nd"
)

func field(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func fv(f string, v []byte) collation.FV { return collation.FV{F: []byte(f), V: v} }

func schema(keys ...string) collation.Schema {
	s := collation.Schema{
		Name:           "s",
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: field("v"), Measures: []collation.Measure{collation.Max{}, collation.Sum{}}}},
	}
	for _, k := range keys {
		s.Keys = append(s.Keys, collation.KeySpec{Field: field(k)})
	}
	return s
}

func open(slots int, keys ...string) *storage.Store {
	s := schema(keys...)
	c, err := s.Compile()
	nd.Assert(err == nil, "a schema compiles")
	return &storage.Store{Backend: bufmap.New(slots, c.Size()), Collator: c}
}

var all = []collation.FM{
	{F: []byte("*"), M: [][]byte{[]byte("count")}},
	{F: []byte("v"), M: [][]byte{[]byte("max"), []byte("sum")}},
}

// want is what the record of one key should report.
type want struct {
	n        int
	max, sum float64
}

func (w *want) add(v float64) {
	if w.n == 0 || v > w.max {
		w.max = v
	}
	w.sum += v
	w.n++
}

func check(s *storage.Store, w want, crit ...collation.FV) {
	res, err := s.Read(context.Background(), collation.Query{FieldMeasures: all, Criteria: crit})
	nd.Assert(err == nil, "a read succeeds")
	vs := res.FieldMeasureValues
	if w.n == 0 {
		nd.Assert(len(vs) == 0, "a key that was never written reads no values")
		return
	}
	nd.Assert(len(vs) == 3, "every measure requested is read")
	nd.Assert(string(vs[0].F) == "*" && string(vs[0].M) == "count" && vs[0].V.(float64) == float64(w.n), "the count is that of the accepted observations of the key")
	nd.Assert(string(vs[1].M) == "max" && vs[1].V.(float64) == w.max, "the maximum is that of the accepted observations of the key")
	nd.Assert(string(vs[2].M) == "sum" && vs[2].V.(float64) == w.sum, "the sum is that of the accepted observations of the key")
	nd.Observe("n", uint64(w.n))
}

// value is the number the i'th observation carries.
func value(i int) (float64, []byte) {
	t := []string{"3", "-7.5", "12", "0.25"}
	f := []float64{3, -7.5, 12, 0.25}
	return f[i], []byte(t[i])
}

// H_route decides that observations of any key values reach exactly the
// record of their key.
//
//verif:C01 absrem nomerge
func H_route() {
	slots := []int{2, 3, 5}[nd.Choose(nd.Tier(2, 3))]
	s := open(slots, "k")
	type seen struct {
		k []byte
		w want
	}
	var recs []*seen
	n := nd.Tier(3, 4)
	lens := nd.Choose(3)
	for i := 0; i < n; i++ {
		l := 1
		if lens == 1 {
			l = i % 2
		} else if lens == 2 {
			l = 2 - i%2
		}
		k := nd.Bytes("k", l)
		v, text := value(i)
		row := collation.Row{Data: []collation.FV{fv("v", text), fv("k", k)}}
		var r *seen
		for _, x := range recs {
			if bytes.Equal(x.k, k) {
				r = x
			}
		}
		err := s.Write(context.Background(), row)
		if r == nil {
			if len(recs) >= slots {
				nd.Assert(err != nil, "an observation without a place is refused")
				check(s, want{}, fv("k", k))
				continue
			}
			r = &seen{k: k}
			recs = append(recs, r)
		}
		nd.Assert(err == nil, "an observation is accepted")
		r.w.add(v)
	}
	for _, r := range recs {
		check(s, r.w, fv("k", r.k))
	}
	other := nd.Bytes("other", 1)
	for _, r := range recs {
		nd.Assume(!bytes.Equal(other, r.k))
	}
	check(s, want{}, fv("k", other))
}

// H_nokey decides that observations and queries without the key fields do
// nothing, and refused observations leave no record.
//
//verif:C01 C08 absrem nomerge
func H_nokey() {
	s := open(7, "k", "l")
	k, l := nd.Bytes("k", 1), nd.Bytes("l", 1)
	both := []collation.FV{fv("k", k), fv("l", l)}
	var w want
	for i := 0; i < 3; i++ {
		v, text := value(i)
		switch nd.Choose(4) {
		case 0:
			nd.Assert(s.Write(context.Background(), collation.Row{Data: append([]collation.FV{fv("v", text)}, both...)}) == nil, "an observation is accepted")
			w.add(v)
		case 1:
			nd.Assert(s.Write(context.Background(), collation.Row{Data: []collation.FV{fv("v", text), both[nd.Choose(2)]}}) == nil, "an observation without a key is passed over")
		case 2:
			nd.Assert(s.Write(context.Background(), collation.Row{Data: append([]collation.FV{fv("v", []byte("bad"))}, both...)}) != nil, "a malformed observation is refused")
		case 3:
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			nd.Assert(s.Write(ctx, collation.Row{Data: append([]collation.FV{fv("v", text)}, both...)}) != nil, "a cancelled observation is refused")
		}
		check(s, w, both...)
		check(s, want{}, both[:1]...)
		check(s, want{})
	}
	// the criteria may come in any order and with others
	check(s, w, fv("x", nd.Bytes("x", 1)), both[1], both[0])
}

var bad = []string{"", " ", "x", "1x", "1e999", "-1e999", "1e", "0x", "0x1", "--1", "1,5", " 1", "1 ", "\xd9\xa1", "nan()", "1e+", "."}

// H_badtexts decides that a value that is no number, or one that a float64
// cannot hold, changes nothing wherever in the observation it is, alone or
// with a good value of the same field.
//
//verif:C08 absrem nomerge
func H_badtexts() {
	s := open(7, "k")
	k := fv("k", nd.Bytes("k", 1))
	var w want
	good := func(i int) {
		v, text := value(i)
		nd.Assert(s.Write(context.Background(), collation.Row{Data: []collation.FV{k, fv("v", text)}}) == nil, "an observation is accepted")
		w.add(v)
	}
	if nd.Choose(2) == 1 {
		good(0)
	}
	b := fv("v", []byte(bad[nd.Choose(len(bad))]))
	_, text := value(2)
	rows := [][]collation.FV{
		{k, b},
		{b, k},
		{fv("x", b.V), k, b, fv("y", text)},
		{fv("v", text), k, b},
		{b, fv("v", text), k},
	}
	row := rows[nd.Choose(len(rows))]
	for i := 1 + nd.Choose(2); i > 0; i-- {
		nd.Assert(s.Write(context.Background(), collation.Row{Data: append([]collation.FV(nil), row...)}) != nil, "a malformed observation is refused")
		check(s, w, k)
	}
	good(1)
	check(s, w, k)
}

// H_two decides that stores are independent and queries on one see only it.
//
//verif:C01 absrem nomerge
func H_two() {
	a, b := open(4, "k"), open(4, "l")
	k, l := nd.Bytes("k", 1), nd.Bytes("l", 1)
	var wa, wb want
	for i := 0; i < 3; i++ {
		v, text := value(i)
		row := collation.Row{Data: []collation.FV{fv("v", text)}}
		c := nd.Choose(4)
		if c&1 != 0 {
			row.Data = append(row.Data, fv("k", k))
			wa.add(v)
		}
		if c&2 != 0 {
			row.Data = append(row.Data, fv("l", l))
			wb.add(v)
		}
		nd.Assert(a.Write(context.Background(), row) == nil, "an observation is accepted")
		nd.Assert(b.Write(context.Background(), row) == nil, "an observation is accepted")
	}
	crit := []collation.FV{fv("l", l), fv("k", k)}
	check(a, wa, crit...)
	check(b, wb, crit...)
}

// H_many decides that one more observation of any key reaches its record
// alone in a store that holds many.
//
//verif:C01 absrem nomerge
func H_many() {
	n := []int{20, 70, 150}[nd.Choose(nd.Tier(2, 3))]
	s := open([]int{4096, 100003}[nd.Choose(2)], "k", "l")
	crit := func(i int) []collation.FV {
		// records next to each other share the value of one key or the other
		j, l := i, i
		switch i % 4 {
		case 1:
			j = i - 1
		case 3:
			l = i - 1
		}
		k := []byte{'K', byte(j), byte(j / 256)}
		if i%5 == 0 {
			k = bytes.Repeat(append(k, "long "...), 1+i/2)
		}
		kv, lv := fv("k", k), fv("l", []byte{byte(l * 3), byte(l)})
		if i%3 == 1 {
			return []collation.FV{lv, kv}
		}
		return []collation.FV{kv, lv}
	}
	w := make([]want, n)
	rounds := 1 + nd.Choose(2)
	for r := 0; r < rounds; r++ {
		for i := range w {
			v, text := value((i + r) % 4)
			row := collation.Row{Data: append(crit(i), fv("v", text))}
			if i%3 == 0 {
				for f := 0; f < 20; f++ {
					row.Data = append([]collation.FV{fv("x"+string([]byte{'a' + byte(f)}), text)}, row.Data...)
				}
			}
			nd.Assert(s.Write(context.Background(), row) == nil, "an observation is accepted")
			w[i].add(v)
		}
	}
	// one more of any value
	v := nd.F64("v")
	nd.Assume(v == v && v-v == 0)
	at := []int{0, n / 2, n - 1, n}[nd.Choose(4)]
	w = append(w, want{})
	nd.Assert(s.Write(context.Background(), collation.Row{Data: append(crit(at), fv("v", nd.FloatText(v)))}) == nil, "an observation is accepted")
	if w[at].n == 0 || v > w[at].max {
		w[at].max = v
	}
	w[at].sum += v
	w[at].n++
	for i := range w {
		check(s, w[i], crit(i)...)
	}
	check(s, want{}, fv("k", []byte("never")), fv("l", []byte("never")))
}
