// Package parstore checks that stores used by several threads at once behave
// as if each operation ran alone, under every interleaving of the threads.
package parstore

//gate: internal/bufmap internal/storage internal/collation internal/hash/fnv internal/summary/hll internal/summary/stat64

import (
	"context"
	"encoding/binary"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

func field(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func fv(f, v string) collation.FV { return collation.FV{F: []byte(f), V: []byte(v)} }

func open() *storage.Store {
	s := collation.Schema{
		Name:           "s",
		Keys:           []collation.KeySpec{{Field: field("k")}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			{Field: field("v"), Measures: []collation.Measure{collation.Sum{}, collation.Max{}}},
			{Field: field("u"), Measures: []collation.Measure{collation.Cardinality{Precision: 4}}},
			{Field: field("t"), Measures: []collation.Measure{tally{}}},
		},
	}
	c, err := s.Compile()
	nd.Assert(err == nil, "a schema compiles")
	return &storage.Store{Backend: bufmap.New(5, c.Size()), Collator: c}
}

// tally is a measure that adds up the bytes it is given.
type tally struct{}

func (tally) Size() int    { return 8 }
func (tally) Name() string { return "tally" }
func (tally) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		n := binary.LittleEndian.Uint64(buf)
		for _, c := range v {
			n += uint64(c)
		}
		binary.LittleEndian.PutUint64(buf, n)
		return nil
	}
}
func (tally) ContReader() collation.ContReaderFunc {
	return func(buf []byte) (float64, error) {
		return float64(binary.LittleEndian.Uint64(buf)), nil
	}
}

// obs is one observation. Its field t is any byte.
type obs struct {
	k, u string
	v    float64
	t    byte
	bad  bool
}

func (o obs) row() collation.Row {
	v := nd.FloatText(o.v)
	if o.bad {
		v = []byte("x")
	}
	return collation.Row{Data: []collation.FV{fv("k", o.k), fv("u", o.u), {F: []byte("t"), V: []byte{o.t}}, {F: []byte("v"), V: v}}}
}

// alone writes an observation with nothing else going on.
func alone(s *storage.Store, o obs) (err error) {
	nd.Par(func() { err = write(s, o) })
	return err
}

func write(s *storage.Store, o obs) error { return s.Write(context.Background(), o.row()) }

func request() []collation.FM {
	return []collation.FM{
		{F: []byte("*"), M: [][]byte{[]byte("count")}},
		{F: []byte("v"), M: [][]byte{[]byte("sum"), []byte("max")}},
		{F: []byte("u"), M: [][]byte{[]byte("uniquecount")}},
		{F: []byte("t"), M: [][]byte{[]byte("tally")}},
	}
}

func read(s *storage.Store, k string) ([]collation.FMV, error) {
	r, err := s.Read(context.Background(), collation.Query{FieldMeasures: request(), Criteria: []collation.FV{fv("k", k)}})
	return r.FieldMeasureValues, err
}

// state is what a key should read after some observations of it.
type state struct {
	n        int
	sum, max float64
	tally    uint64
	items    []string
}

func (s state) add(o obs) state {
	if s.n == 0 || o.v > s.max {
		s.max = o.v
	}
	s.sum += o.v
	s.tally += uint64(o.t)
	s.n++
	for _, x := range s.items {
		if x == o.u {
			return s
		}
	}
	s.items = append(append([]string{}, s.items...), o.u)
	return s
}

// after is the state of key k after the accepted ones of the observations.
func after(k string, os ...obs) state {
	var s state
	for _, o := range os {
		if o.k == k && !o.bad {
			s = s.add(o)
		}
	}
	return s
}

// unique is the estimate of a fresh counter.
func unique(items []string) float64 {
	h := hll.New(4)
	for _, x := range items {
		h.Add([]byte(x))
	}
	return float64(h.Count())
}

// is reports whether the values are exactly those of the state.
func (s state) is(vs []collation.FMV) bool {
	if s.n == 0 {
		return len(vs) == 0
	}
	return len(vs) == 5 &&
		string(vs[0].F) == "*" && string(vs[0].M) == "count" && vs[0].V.(float64) == float64(s.n) &&
		string(vs[1].F) == "v" && string(vs[1].M) == "sum" && vs[1].V.(float64) == s.sum &&
		string(vs[2].F) == "v" && string(vs[2].M) == "max" && vs[2].V.(float64) == s.max &&
		string(vs[3].F) == "u" && string(vs[3].M) == "uniquecount" && vs[3].V.(float64) == unique(s.items) &&
		string(vs[4].F) == "t" && string(vs[4].M) == "tally" && vs[4].V.(float64) == float64(s.tally)
}

func expect(s *storage.Store, k string, w state) {
	var vs []collation.FMV
	var err error
	nd.Par(func() { vs, err = read(s, k) })
	nd.Assert(err == nil, "a read succeeds")
	nd.Assert(w.is(vs), "a key reads the statistics of all its accepted observations and no others")
	nd.Observe("n", uint64(w.n))
}

// seal gives each observation any value of its field t.
func seal(os ...*obs) {
	for _, o := range os {
		o.t = nd.U8("t")
	}
}

func number() float64 { return []float64{4, -2.5}[nd.Choose(2)] }

// H_parKeys: two observations of different keys at once, of records that may
// exist already; one of them may be refused.
//
//verif:C31 nomerge maxpaths=2000000
func H_parKeys() {
	s := open()
	var hist []obs
	if nd.Choose(2) == 1 {
		hist = append(hist, obs{k: "one", u: "alpha", v: 5}, obs{k: "two", u: "bravo", v: -3})
	}
	for i := range hist {
		hist[i].t = nd.U8("t")
	}
	for _, o := range hist {
		nd.Assert(alone(s, o) == nil, "an observation is accepted")
	}
	o1 := obs{k: "one", u: "charlie", v: number()}
	o2 := obs{k: "two", u: "delta", v: number(), bad: nd.Choose(2) == 1}
	seal(&o1, &o2)
	var e1, e2 error
	nd.Par(func() { e1 = write(s, o1) }, func() { e2 = write(s, o2) })
	nd.Assert(e1 == nil, "an observation is accepted")
	nd.Assert((e2 != nil) == o2.bad, "an observation is accepted unless its value is no number")
	hist = append(hist, o1, o2)
	expect(s, "one", after("one", hist...))
	expect(s, "two", after("two", hist...))
}

// H_parSame: two observations of one key at once.
//
//verif:C31 nomerge maxpaths=2000000
func H_parSame() {
	s := open()
	var hist []obs
	if nd.Choose(2) == 1 {
		hist = append(hist, obs{k: "one", u: "alpha", v: 5})
	}
	for i := range hist {
		hist[i].t = nd.U8("t")
	}
	for _, o := range hist {
		nd.Assert(alone(s, o) == nil, "an observation is accepted")
	}
	o1 := obs{k: "one", u: "charlie", v: 4}
	o2 := obs{k: "one", u: "delta", v: 7, bad: nd.Choose(2) == 1}
	seal(&o1, &o2)
	var e1, e2 error
	nd.Par(func() { e1 = write(s, o1) }, func() { e2 = write(s, o2) })
	nd.Assert(e1 == nil, "an observation is accepted")
	nd.Assert((e2 != nil) == o2.bad, "an observation is accepted unless its value is no number")
	hist = append(hist, o1, o2)
	expect(s, "one", after("one", hist...))
}

// H_parReaders: two reads at once.
//
//verif:C31 nomerge maxpaths=2000000
func H_parReaders() {
	s := open()
	hist := []obs{{k: "one", u: "alpha", v: number()}, {k: "two", u: "bravo", v: number()}, {k: "one", u: "charlie", v: 4}}
	for i := range hist {
		hist[i].t = nd.U8("t")
	}
	for _, o := range hist {
		nd.Assert(alone(s, o) == nil, "an observation is accepted")
	}
	ks := []string{"one", "two", "three"}
	k1, k2 := ks[nd.Choose(2)], ks[nd.Choose(3)]
	var r1, r2 []collation.FMV
	var e1, e2 error
	nd.Par(func() { r1, e1 = read(s, k1) }, func() { r2, e2 = read(s, k2) })
	nd.Assert(e1 == nil && e2 == nil, "a read succeeds")
	nd.Assert(after(k1, hist...).is(r1) && after(k2, hist...).is(r2), "concurrent reads report their own keys")
}

// H_parRead: a read while an observation is written.
//
//verif:C31 nomerge maxpaths=2000000
func H_parRead() {
	s := open()
	hist := []obs{{k: "two", u: "bravo", v: -3}}
	if nd.Choose(2) == 1 {
		hist = append(hist, obs{k: "one", u: "alpha", v: 5})
	}
	for i := range hist {
		hist[i].t = nd.U8("t")
	}
	for _, o := range hist {
		nd.Assert(alone(s, o) == nil, "an observation is accepted")
	}
	k := []string{"one", "two"}[nd.Choose(2)]
	o1 := obs{k: "one", u: "charlie", v: 4}
	seal(&o1)
	var e1, e2 error
	var r []collation.FMV
	nd.Par(func() { e1 = write(s, o1) }, func() { r, e2 = read(s, k) })
	nd.Assert(e1 == nil, "an observation is accepted")
	nd.Assert(e2 == nil, "a read succeeds")
	before, now := after(k, hist...), after(k, append(hist, o1)...)
	nd.Assert(before.is(r) || now.is(r), "a read sees all of a concurrent observation or nothing of it")
	hist = append(hist, o1)
	expect(s, "one", after("one", hist...))
	expect(s, "two", after("two", hist...))
}
