// Package colls holds the harnesses over internal/collation.
package colls

import (
	"bytes"
	"math"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const star = collation.RowPseudoField

func field(s string) collation.FieldSpec { return collation.FieldSpec{Pattern: s} }

func spec(f string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: field(f), Measures: ms}
}

// rec is a record of one collation, followed in its buffer by bytes that do
// not belong to it.
type rec struct {
	c    collation.Collator
	buf  []byte
	size int
	init bool
}

const tail = 5

func keys(fs ...string) []collation.KeySpec {
	var ks []collation.KeySpec
	for _, f := range fs {
		ks = append(ks, collation.KeySpec{Field: field(f)})
	}
	return ks
}

func newRec(s collation.Schema, fill byte) *rec {
	c, err := s.Compile()
	nd.Assert(err == nil, "a schema compiles")
	r := &rec{c: c, size: c.Size(), init: true}
	r.buf = make([]byte, r.size+tail)
	for i := range r.buf {
		r.buf[i] = fill
	}
	return r
}

func (r *rec) update(fvs ...collation.FV) error {
	t := [tail]byte{}
	copy(t[:], r.buf[r.size:])
	err := r.c.Update(collation.Row{Data: fvs}, r.buf, r.init)
	nd.Assert(r.c.Size() == r.size, "the record size is fixed")
	nd.Assert(bytes.Equal(t[:], r.buf[r.size:]), "an update touches only the record")
	if err == nil {
		r.init = false
	}
	return err
}

// get reads one measure, which must be there.
func (r *rec) get(f, m string) float64 {
	v, ok := r.try(f, m)
	nd.Assert(ok, "a configured measure is readable")
	return v
}

func (r *rec) try(f, m string) (float64, bool) {
	res, err := r.c.Read([]collation.FM{{F: []byte(f), M: [][]byte{[]byte(m)}}}, r.buf[:r.size])
	nd.Assert(err == nil, "a record can be read")
	nd.Assert(len(res.FieldMeasureValues) <= 1, "one value per requested measure")
	if len(res.FieldMeasureValues) == 0 {
		return 0, false
	}
	x := res.FieldMeasureValues[0]
	nd.Assert(string(x.F) == f && string(x.M) == m, "a value carries the field and measure requested")
	v, isf := x.V.(float64)
	nd.Assert(isf, "a value is a number")
	return v, true
}

func fv(f string, v []byte) collation.FV { return collation.FV{F: []byte(f), V: v} }

// num is the text of v.
func num(f string, v float64) collation.FV { return fv(f, nd.FloatText(v)) }

// perms of the statistical measures of one field.
func statOrder() []collation.Measure {
	o := [][]collation.Measure{
		{collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}},
		{collation.Variance{}, collation.Mean{}, collation.Sum{}, collation.Count{}},
		{collation.Mean{}, collation.Max{}, collation.Variance{}, collation.Count{}},
		{collation.Max{}, collation.Sum{}, collation.Min{}, collation.Variance{}},
		{collation.Count{}},
		{collation.Sum{}, collation.Count{}},
		{collation.Min{}, collation.Mean{}},
		{collation.Cardinality{Precision: 4}, collation.Variance{}},
		{collation.Variance{}, collation.Cardinality{Precision: 4}, collation.Count{}},
		{collation.Sum{}},
		{collation.Mean{}},
		{collation.Variance{}},
		{collation.Count{}, collation.Max{}},
		{collation.Max{}, collation.Count{}, collation.Min{}},
	}
	return o[nd.Choose(len(o))]
}

func has(ms []collation.Measure, name string) bool {
	for _, m := range ms {
		if m.Name() == name {
			return true
		}
	}
	return false
}

// H_stats decides the statistical measures of a field against their
// definitions, in exact arithmetic, for any values, with observations that
// lack the field and with other fields in between.
//
//verif:C03 reals
func H_stats() {
	ms := statOrder()
	s := collation.Schema{Measures: []collation.MeasureSpec{spec("a", ms...), spec("b", collation.Sum{}, collation.Count{})}}
	if nd.Choose(2) == 1 {
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
		s.Measures[0], s.Measures[1] = s.Measures[1], s.Measures[0]
	}
	r := newRec(s, 0xa5)
	var xs []float64
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		var row []collation.FV
		switch nd.Choose(3) {
		case 0:
			v := nd.F64("v")
			row = append(row, num("a", v))
			xs = append(xs, v)
		case 1:
			v := nd.F64("v")
			row = append(row, num("b", nd.F64("w")), num("a", v), fv("c", []byte("text")))
			xs = append(xs, v)
		case 2:
			row = append(row, num("b", nd.F64("w")))
		}
		nd.Assert(r.update(row...) == nil, "a valid observation is accepted")
	}
	sum := 0.0
	for _, x := range xs {
		sum += x
	}
	k := float64(len(xs))
	if has(ms, "count") {
		nd.Assert(r.get("a", "count") == k, "count is the number of observations carrying the field")
	}
	if has(ms, "sum") {
		nd.Assert(nd.Close(r.get("a", "sum"), sum), "sum is the total of the values observed")
		nd.ObserveF("sum", r.get("a", "sum"))
	}
	if has(ms, "mean") && len(xs) > 0 {
		nd.Assert(nd.Close(r.get("a", "mean"), sum/k), "mean is the sum over the count")
	}
	if has(ms, "var") {
		v := r.get("a", "var")
		if len(xs) < 2 {
			nd.Assert(math.IsNaN(v), "variance is undefined for fewer than two values")
		} else {
			sq := 0.0
			for _, x := range xs {
				sq += (x - sum/k) * (x - sum/k)
			}
			nd.Assert(nd.Close(v, sq/(k-1)), "variance is the sample variance")
		}
	}
}

// H_rows decides the row count for rows of any fields, accepted or refused.
//
//verif:C02
func H_rows() {
	s := collation.Schema{RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	switch nd.Choose(3) {
	case 1:
		s.Measures = []collation.MeasureSpec{spec("a", collation.Max{})}
	case 2:
		s.Measures = []collation.MeasureSpec{spec("b", collation.Cardinality{Precision: 4}), spec("a", collation.Mean{}, collation.Min{}), spec("n", collation.Count{})}
	}
	switch nd.Choose(3) {
	case 1:
		s.Keys = keys("b")
	case 2:
		s.Keys = keys("a", "b")
	}
	r := newRec(s, 0xff)
	n := 0
	rows := nd.Tier(3, 4)
	for i := 0; i < rows; i++ {
		var row []collation.FV
		switch nd.Choose(6) {
		case 5:
			row = append(row, fv("b", nd.Bytes("item", 1)))
		case 1:
			row = append(row, num("a", nd.F64("v")))
		case 2:
			row = append(row, fv("b", nd.Bytes("item", 1)), num("a", nd.F64("v")))
		case 3:
			row = append(row, fv("b", nil), fv("zzz", nd.Bytes("other", 2)), fv("count", []byte("7")))
		case 4:
			row = append(row, fv("b", []byte("x")), fv("a", []byte("not a number")))
		}
		before := 0.0
		if n > 0 {
			before = r.get(star, "count")
		}
		if r.update(row...) == nil {
			n++
			nd.Assert(r.get(star, "count") == before+1, "each accepted observation counts once")
		}
		if n > 0 {
			nd.Assert(r.get(star, "count") == float64(n), "the row count is the number of accepted observations")
		}
	}
	nd.Observe("n", uint64(n))
}

// H_rowsany decides the step from any earlier count.
//
//verif:C02
func H_rowsany() {
	r := newRec(collation.Schema{RecordMeasures: []collation.RowMeasure{collation.Count{}}}, 0)
	nd.Assert(r.update() == nil && r.get(star, "count") == 1, "an observation without fields counts")
	copy(r.buf[:r.size], nd.Bytes("state", r.size))
	before := r.get(star, "count")
	nd.Assume(before < float64(uint64(1)<<uint(nd.Tier(20, 53))))
	nd.Assert(r.update(fv("x", nd.Bytes("v", 1))) == nil, "an observation is accepted")
	nd.Assert(r.get(star, "count") == before+1, "each accepted observation counts once")
	nd.ObserveF("count", before)
}

// H_rowsfar decides the step from large counts.
//
//verif:C02
func H_rowsfar() {
	r := newRec(collation.Schema{RecordMeasures: []collation.RowMeasure{collation.Count{}}}, 0)
	nd.Assert(r.update() == nil && r.get(star, "count") == 1, "an observation without fields counts")
	state := nd.Bytes("state", r.size)
	copy(r.buf[:r.size], state)
	base := float64(uint64(1) << uint([]int{8, 16, 24, 31, 32, 40, 48, 52}[nd.Choose(8)]))
	before := r.get(star, "count")
	nd.Assume(before == base-float64(1+nd.Choose(2)))
	nd.Assert(r.update(fv("x", nd.Bytes("v", 1))) == nil, "an observation is accepted")
	nd.Assert(r.get(star, "count") == before+1, "each accepted observation counts once")
	nd.ObserveF("count", before)
}

// H_extremes decides max and min for any floating point values.
//
//verif:C04
func H_extremes() {
	specs := [][]collation.MeasureSpec{
		{spec("a", collation.Max{}, collation.Min{})},
		{spec("b", collation.Max{}), spec("a", collation.Min{}, collation.Sum{}, collation.Max{}), spec("c", collation.Min{})},
		{spec("b", collation.Cardinality{Precision: 4}), spec("a", collation.Max{}), spec("a", collation.Min{})},
	}
	s := collation.Schema{Measures: specs[nd.Choose(len(specs))]}
	r := newRec(s, 0x11)
	var xs []float64
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		if nd.Choose(2) == 0 {
			v := nd.F64("v")
			row := []collation.FV{num("a", v)}
			if i == 1 {
				row = []collation.FV{num("b", nd.F64("w")), num("a", v)}
			}
			nd.Assert(r.update(row...) == nil, "a number is accepted")
			xs = append(xs, v)
		} else {
			nd.Assert(r.update(num("b", nd.F64("w"))) == nil, "an observation without the field is accepted")
		}
	}
	hi, lo := math.NaN(), math.NaN()
	for _, x := range xs {
		if !(hi >= x) && x == x {
			hi = x
		}
		if !(lo <= x) && x == x {
			lo = x
		}
	}
	if hi == hi {
		nd.Assert(r.get("a", "max") == hi, "max is the largest value observed")
		nd.Assert(r.get("a", "min") == lo, "min is the smallest value observed")
		nd.ObserveF("max", r.get("a", "max"))
	}
}

func same(a, b float64) bool { return nd.SameF(a, b) }

// H_unique decides that the unique count of a field depends on the set of its
// values alone and is that of a fresh counter.
//
//verif:C05 nomerge
func H_unique() {
	p := 4 + nd.Choose(nd.Tier(1, 2))
	var s collation.Schema
	switch nd.Choose(3) {
	case 0:
		s.Measures = []collation.MeasureSpec{spec("f", collation.Cardinality{Precision: p})}
	case 1:
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
		s.Measures = []collation.MeasureSpec{spec("g", collation.Sum{}, collation.Cardinality{Precision: 5}), spec("f", collation.Cardinality{Precision: p})}
	case 2:
		s.Measures = []collation.MeasureSpec{spec("f", collation.Cardinality{Precision: p}), spec("g", collation.Max{})}
	}
	r := newRec(s, 0x99)
	a, b := nd.Bytes("a", nd.Choose(3)), nd.Bytes("b", 1+nd.Choose(nd.Tier(1, 2)))
	var seq [][]byte
	switch nd.Choose(4) {
	case 0:
		seq = [][]byte{nil, a, b, a}
	case 1:
		seq = [][]byte{b, nil, b, a, nil}
	case 2:
		seq = [][]byte{a, b, a, b}
	case 3:
		seq = [][]byte{nil, nil, a, b}
	}
	for i, v := range seq {
		row := []collation.FV{fv("x", []byte("y"))}
		if i%2 == 0 {
			row = append(row, num("g", 4.5))
		}
		if v != nil {
			row = append(row, fv("f", v))
		}
		nd.Assert(r.update(row...) == nil, "any value of the field is accepted")
	}
	h := hll.New(uint8(p))
	h.Add(a)
	h.Add(b)
	got := r.get("f", "uniquecount")
	nd.Assert(got == float64(h.Count()), "the unique count is that of a fresh counter given each value once")
	nd.ObserveF("uniquecount", got)
}

// H_uniquebig decides the same for one value at any supported precision.
//
//verif:C05 nomerge
func H_uniquebig() {
	p := []int{4, 6, 5}[nd.Choose(nd.Tier(2, 3))]
	s := collation.Schema{Measures: []collation.MeasureSpec{spec("f", collation.Cardinality{Precision: p})}}
	r := newRec(s, 0x99)
	v := nd.Bytes("v", []int{0, 1, 3, 5}[nd.Choose(nd.Tier(3, 4))])
	if nd.Choose(2) == 1 {
		nd.Assert(r.update(fv("g", v)) == nil, "an observation without the field is accepted")
		nd.Assert(r.get("f", "uniquecount") == 0, "nothing was counted yet")
	}
	for i := 0; i < 2; i++ {
		nd.Assert(r.update(fv("f", v)) == nil, "any value of the field is accepted")
		h := hll.New(uint8(p))
		h.Add(v)
		nd.Assert(r.get("f", "uniquecount") == float64(h.Count()), "the unique count is that of a fresh counter given the value")
	}
}

// kinds of measures, by number.
func kind(i int) collation.Measure {
	switch i {
	case 0:
		return collation.Count{}
	case 1:
		return collation.Sum{}
	case 2:
		return collation.Mean{}
	case 3:
		return collation.Variance{}
	case 4:
		return collation.Max{}
	case 5:
		return collation.Min{}
	}
	return collation.Cardinality{Precision: 4}
}

// history is a sequence of observations of two fields whose values are digits
// (so that they serve numeric and discrete measures alike) or any numbers.
func history(n int) [][]collation.FV {
	var rows [][]collation.FV
	for i := 0; i < n; i++ {
		var row []collation.FV
		k := nd.Choose(4)
		if k&1 != 0 {
			row = append(row, num("a", float64(i)*2.5-3))
		}
		if k&2 != 0 {
			row = append(row, num("b", float64(7-i*i)))
		}
		rows = append(rows, row)
	}
	return rows
}

// differ applies the rows to a record of the schema and to a record of each
// measure alone and compares what they read.
func differ(s collation.Schema, rows [][]collation.FV) {
	whole := newRec(s, 0xaa)
	for _, row := range rows {
		nd.Assert(whole.update(row...) == nil, "a valid observation is accepted")
	}
	for _, m := range s.RecordMeasures {
		one := newRec(collation.Schema{RecordMeasures: []collation.RowMeasure{m}}, 0)
		for _, row := range rows {
			nd.Assert(one.update(row...) == nil, "a valid observation is accepted")
		}
		nd.Assert(same(whole.get(star, m.Name()), one.get(star, m.Name())), "a record measure reads as it does alone")
	}
	for _, ms := range s.Measures {
		for _, m := range ms.Measures {
			one := newRec(collation.Schema{Measures: []collation.MeasureSpec{spec(ms.Field.Pattern, m)}}, 0)
			for _, row := range rows {
				nd.Assert(one.update(row...) == nil, "a valid observation is accepted")
			}
			v := whole.get(ms.Field.Pattern, m.Name())
			nd.Assert(same(v, one.get(ms.Field.Pattern, m.Name())), "a measure reads as it does alone")
			nd.ObserveF("value", v)
		}
	}
}

// H_layout decides for schemas with up to three measures on a field and more
// on another that each reads as if it were the only one.
//
//verif:C06
func H_layout() {
	var s collation.Schema
	n := nd.Choose(nd.Tier(3, 4))
	used := map[int]bool{}
	var ms []collation.Measure
	for i := 0; i < n; i++ {
		k := nd.Choose(7)
		nd.Assume(!used[k])
		used[k] = true
		ms = append(ms, kind(k))
	}
	other := [][]collation.Measure{{}, {collation.Sum{}}, {collation.Cardinality{Precision: 4}, collation.Max{}}, {collation.Min{}, collation.Count{}}}[nd.Choose(4)]
	if len(ms) > 0 {
		s.Measures = append(s.Measures, spec("a", ms...))
	}
	if len(other) > 0 {
		s.Measures = append(s.Measures, spec("b", other...))
	}
	if nd.Choose(2) == 1 {
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
	}
	v, w := nd.F64("v"), nd.F64("w")
	var rows [][]collation.FV
	digits := used[6] || len(other) > 0
	one := func(f string, x float64, c byte) collation.FV {
		if digits {
			return fv(f, []byte{'1', c})
		}
		return num(f, x)
	}
	switch nd.Choose(3) {
	case 0:
		rows = [][]collation.FV{{one("a", v, '3')}, {one("b", w, '4'), one("a", w, '5')}}
	case 1:
		rows = [][]collation.FV{{one("b", v, '7')}, {one("a", w, '2')}, {one("a", v, '9'), one("b", 4, '0')}}
	case 2:
		rows = [][]collation.FV{{one("a", v, '3'), one("b", w, '8')}, {}, {one("b", w, '8')}}
	}
	differ(s, rows)
}

// H_split decides the same for a field that appears in two specifications and
// for many fields.
//
//verif:C06
func H_split() {
	var s collation.Schema
	v, w := nd.F64("v"), nd.F64("w")
	switch nd.Choose(4) {
	case 0:
		s.Measures = []collation.MeasureSpec{spec("a", collation.Sum{}), spec("b", collation.Mean{}), spec("a", collation.Count{}, collation.Max{})}
	case 1:
		s.Measures = []collation.MeasureSpec{spec("a", collation.Min{}, collation.Max{}, collation.Variance{}), spec("a", collation.Mean{})}
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
	case 2:
		s.Measures = []collation.MeasureSpec{spec("a", collation.Max{}), spec("b", collation.Max{}), spec("c", collation.Max{}, collation.Min{}), spec("d", collation.Count{})}
	case 3:
		s.Measures = []collation.MeasureSpec{spec("", collation.Sum{}, collation.Count{}), spec("a", collation.Count{}, collation.Mean{}), spec("aa", collation.Min{})}
		s.RecordMeasures = []collation.RowMeasure{collation.Count{}}
	}
	rows := [][]collation.FV{{num("a", v), num("b", w)}, {num("c", v), num("", v)}, {num("a", w), num("d", w), num("aa", v)}}
	differ(s, rows)
}

// several is a schema with every kind of measure.
func several(i int) collation.Schema {
	switch i {
	case 0:
		return collation.Schema{
			RecordMeasures: []collation.RowMeasure{collation.Count{}},
			Measures:       []collation.MeasureSpec{spec("a", collation.Mean{}, collation.Max{}, collation.Min{}, collation.Sum{}, collation.Count{}), spec("u", collation.Cardinality{Precision: 4})},
		}
	case 1:
		return collation.Schema{
			Measures: []collation.MeasureSpec{spec("u", collation.Cardinality{Precision: 4}), spec("a", collation.Variance{}, collation.Min{}), spec("b", collation.Max{}, collation.Count{})},
		}
	}
	return collation.Schema{
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{spec("b", collation.Max{}), spec("a", collation.Cardinality{Precision: 4}, collation.Min{}), spec("u", collation.Cardinality{Precision: 5})},
	}
}

// all reads every measure of a schema.
func (r *rec) all(s collation.Schema) []float64 {
	var out []float64
	for _, m := range s.RecordMeasures {
		out = append(out, r.get(star, m.Name()))
	}
	for _, ms := range s.Measures {
		for _, m := range ms.Measures {
			out = append(out, r.get(ms.Field.Pattern, m.Name()))
		}
	}
	return out
}

func agree(a, b []float64, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for i := range a {
		nd.Assert(same(a[i], b[i]), msg)
	}
}

// observation is any valid observation over the schemas of several.
func observation(i int) []collation.FV {
	var row []collation.FV
	k := nd.Choose(4)
	if k&1 != 0 {
		if i == 2 {
			row = append(row, fv("a", []byte{'1'}))
		} else {
			row = append(row, num("a", nd.F64("a")))
		}
	}
	if k&2 != 0 {
		row = append(row, fv("u", nd.Bytes("u", 1)), fv("b", []byte("12.25")))
	}
	return row
}

// H_fresh decides that the first update does not depend on what the buffer
// held, and neither do later ones.
//
//verif:C07
func H_fresh() {
	i := nd.Choose(3)
	s := several(i)
	a, b := newRec(s, 0), newRec(s, 0)
	copy(a.buf[:a.size], nd.Bytes("garbage", a.size))
	for n := 0; n < 2; n++ {
		row := observation(i)
		nd.Assert(a.update(row...) == nil && b.update(row...) == nil, "a valid observation is accepted")
		x, y := a.all(s), b.all(s)
		agree(x, y, "statistics depend only on the observations, not on what the buffer held")
		nd.ObserveF("first", x[0])
	}
}

// malformed is a row in which some field with a numeric measure is no number.
func malformed(i int) []collation.FV {
	bad := [][]byte{[]byte("x"), {}, []byte("1e"), []byte("--1"), []byte("1 "), []byte("0x")}[nd.Choose(nd.Tier(3, 6))]
	f := "a"
	if i == 2 {
		f = "b"
	}
	row := []collation.FV{fv("u", nd.Bytes("u", 1)), fv(f, bad)}
	switch nd.Choose(3) {
	case 1:
		row = []collation.FV{fv(f, bad), fv("u", []byte("late"))}
	case 2:
		if i == 1 {
			row = append([]collation.FV{num("b", nd.F64("b"))}, row...)
		}
	}
	return row
}

// H_refused decides that a refused observation leaves no trace, early or late
// in the life of a record.
//
//verif:C08
func H_refused() {
	i := nd.Choose(3)
	s := several(i)
	a, b := newRec(s, 0x3c), newRec(s, 0x3c)
	at := nd.Choose(3)
	for n := 0; n < 3; n++ {
		if n == at {
			var before []float64
			if !a.init {
				before = a.all(s)
			}
			nd.Assert(a.update(malformed(i)...) != nil, "a value that is no number is refused")
			if !a.init {
				agree(a.all(s), before, "a refused observation leaves every statistic as it was")
			}
			continue
		}
		var row []collation.FV
		if n == 0 || nd.Choose(2) == 1 {
			row = observation(i)
		}
		nd.Assert(a.update(row...) == nil && b.update(row...) == nil, "a valid observation is accepted before and after a refused one")
		agree(a.all(s), b.all(s), "statistics are those of the accepted observations")
		nd.Observe("n", uint64(n))
	}
}

// H_anyrow decides that whatever a row is made of (fields named once or more
// often, in any order, well formed or not), being refused means that no
// statistic changed.
//
//verif:C08
func H_anyrow() {
	i := nd.Choose(3)
	s := several(i)
	r := newRec(s, 0x2d)
	nd.Assert(r.update(num("a", 2), fv("u", []byte("q")), num("b", 3)) == nil, "a valid observation is accepted")
	before := r.all(s)
	var row []collation.FV
	max := nd.Tier(3, 4)
	for n := 0; n < max; n++ {
		k := nd.Choose(7)
		if k == 6 {
			break
		}
		row = append(row, []collation.FV{num("a", 7), fv("u", []byte("v")), fv("a", []byte("x1")), num("b", 9), fv("b", nil), fv("zz", []byte("?"))}[k])
	}
	err := r.update(row...)
	after := r.all(s)
	if err != nil {
		agree(after, before, "a refused observation leaves every statistic as it was")
	}
	nd.Assert(r.update(num("a", 5)) == nil, "a valid observation is accepted after a refused one")
}

// H_again decides that reading changes nothing, repeats identically, answers
// in the order asked and skips what is not configured.
//
//verif:C28
func H_again() {
	i := nd.Choose(3)
	s := several(i)
	r := newRec(s, 0x42)
	for n := 0; n < nd.Tier(1, 2); n++ {
		nd.Assert(r.update(observation(i)...) == nil, "a valid observation is accepted")
	}
	names := []string{"count", "sum", "mean", "var", "max", "min", "uniquecount", "median", ""}
	fields := []string{star, "a", "u", "b", "zz"}
	conf := func(f, m string) bool {
		if f == star {
			return m == "count" && len(s.RecordMeasures) > 0
		}
		for _, ms := range s.Measures {
			if ms.Field.Pattern == f && has(ms.Measures, m) {
				return true
			}
		}
		return false
	}
	var fml []collation.FM
	k := nd.Choose(5)
	switch k {
	case 4: // one entry for each measure
		f := fields[nd.Choose(3)]
		fml = []collation.FM{
			{F: []byte(f), M: [][]byte{[]byte(names[nd.Choose(3)])}},
			{F: []byte(f), M: [][]byte{[]byte(names[nd.Choose(len(names))])}},
			{F: []byte(f), M: [][]byte{[]byte("max"), []byte("count")}},
		}
	case 0: // everything
		for _, f := range fields {
			fm := collation.FM{F: []byte(f)}
			for _, m := range names {
				fm.M = append(fm.M, []byte(m))
			}
			fml = append(fml, fm)
		}
	case 1: // one request, any field and measure
		fml = []collation.FM{{F: []byte(fields[nd.Choose(len(fields))]), M: [][]byte{[]byte(names[nd.Choose(len(names))])}}}
	case 2: // repeated, backwards
		fml = []collation.FM{
			{F: []byte("u"), M: [][]byte{[]byte("uniquecount"), []byte("nope"), []byte("uniquecount")}},
			{F: []byte("a"), M: [][]byte{[]byte("min"), []byte("max"), []byte("min")}},
			{F: []byte("u"), M: [][]byte{[]byte("uniquecount")}},
			{F: []byte(star), M: [][]byte{[]byte("count"), []byte("count")}},
		}
	case 3: // any names
		fml = []collation.FM{{F: nd.Bytes("field", 1), M: [][]byte{nd.Bytes("measure", 3), []byte("max"), []byte("min")}}, {F: []byte("a"), M: nil}}
	}
	was := append([]byte(nil), r.buf...)
	ask := func() collation.Result {
		res, err := r.c.Read(fml, r.buf[:r.size])
		nd.Assert(err == nil, "a record can be read")
		nd.Assert(bytes.Equal(was, r.buf), "reading leaves the record as it was")
		return res
	}
	x := ask()
	y := ask()
	nd.Assert(len(x.FieldMeasureValues) == len(y.FieldMeasureValues), "a repeated query answers the same")
	n := 0
	for _, fm := range fml {
		for _, m := range fm.M {
			if !conf(string(fm.F), string(m)) {
				continue
			}
			nd.Assert(n < len(x.FieldMeasureValues), "every configured measure requested is answered")
			p, q := x.FieldMeasureValues[n], y.FieldMeasureValues[n]
			nd.Assert(bytes.Equal(p.F, fm.F) && bytes.Equal(p.M, m), "values come in the order requested")
			nd.Assert(same(p.V.(float64), q.V.(float64)), "a repeated query answers the same")
			nd.Assert(same(p.V.(float64), r.get(string(fm.F), string(m))), "a value does not depend on what else is requested")
			n++
		}
	}
	nd.Assert(n == len(x.FieldMeasureValues), "measures that are not configured are omitted")
	nd.Observe("n", uint64(n))
}

// last is a measure that keeps the last byte it was given and reports it as an item.
type last struct{ name string }

func (last) Size() int      { return 1 }
func (l last) Name() string { return l.name }
func (last) DiscWriter() collation.DiscWriterFunc {
	return func(buf []byte, init bool, v []byte) error {
		buf[0] = v[len(v)-1]
		return nil
	}
}
func (last) DiscReader() collation.DiscReaderFunc {
	return func(buf []byte) ([]byte, error) { return []byte{buf[0]}, nil }
}

// H_items decides the same for a field with measures that report items next
// to measures that report numbers.
//
//verif:C28 C06
func H_items() {
	ms := []collation.Measure{collation.Max{}, last{"one"}, collation.Cardinality{Precision: 4}, last{"two"}}
	k := nd.Choose(len(ms))
	ms = append(ms[k:], ms[:k]...)
	s := collation.Schema{
		Name:           "s",
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			{Field: collation.FieldSpec{Pattern: "a"}, Measures: ms},
			{Field: collation.FieldSpec{Pattern: "b"}, Measures: []collation.Measure{last{"one"}}},
		},
	}
	r := newRec(s, 0x42)
	x, y := nd.U8("x"), nd.U8("y")
	nd.Assume(x >= '0' && x <= '9')
	nd.Assert(r.update(fv("a", []byte("7")), fv("b", []byte("z"))) == nil, "a valid observation is accepted")
	nd.Assert(r.update(fv("a", []byte{'8', x}), fv("b", []byte{y})) == nil, "a valid observation is accepted")
	names := []string{"one", "max", "two", "uniquecount", "none"}
	i, j, l := nd.Choose(5), nd.Choose(5), nd.Choose(5)
	fm := collation.FM{F: []byte("a"), M: [][]byte{[]byte(names[i]), []byte(names[j]), []byte(names[l])}}
	was := append([]byte(nil), r.buf...)
	res, err := r.c.Read([]collation.FM{{F: []byte("b"), M: [][]byte{[]byte("one"), []byte("two")}}, fm}, r.buf[:r.size])
	nd.Assert(err == nil, "a record can be read")
	nd.Assert(bytes.Equal(was, r.buf), "reading leaves the record as it was")
	vs := res.FieldMeasureValues
	nd.Assert(len(vs) >= 1 && string(vs[0].F) == "b" && string(vs[0].M) == "one" && bytes.Equal(vs[0].V.([]byte), []byte{y}), "an item is reported as it was kept")
	vs = vs[1:]
	n := 0
	for _, m := range []int{i, j, l} {
		if m == 4 {
			continue
		}
		nd.Assert(n < len(vs), "every configured measure requested is answered")
		v := vs[n]
		n++
		nd.Assert(string(v.F) == "a" && string(v.M) == names[m], "values come in the order requested")
		switch m {
		case 0, 2:
			nd.Assert(bytes.Equal(v.V.([]byte), []byte{x}), "an item is reported as it was kept")
		case 1:
			nd.Assert(v.V.(float64) == float64(80+int(x-'0')), "a number is reported as it was kept")
		case 3:
			h := hll.New(4)
			h.Add([]byte("7"))
			h.Add([]byte{'8', x})
			nd.Assert(v.V.(float64) == float64(h.Count()), "a number is reported as it was kept")
		}
	}
	nd.Assert(n == len(vs), "measures that are not configured are omitted")
	nd.Observe("n", uint64(n))
}

// key computes a routing key.
func key(keys []string, row []collation.FV, query bool) (uint64, bool) {
	var ks [][]byte
	for _, k := range keys {
		ks = append(ks, []byte(k))
	}
	if query {
		q := collation.Query{Criteria: row}
		return q.KeyValue(ks)
	}
	r := collation.Row{Data: row}
	return r.KeyValue(ks)
}

// H_key decides that the key is a function of the key fields and values alone.
//
//verif:C09 maxpaths=3000000
func H_key() {
	var keys []string
	switch nd.Choose(4) {
	case 0:
		keys = []string{"k"}
	case 1:
		keys = []string{"k", "l"}
	case 2:
		keys = []string{"k", "kk", "l"}
	}
	vals := make([][]byte, len(keys))
	var base []collation.FV
	for i := range keys {
		vals[i] = nd.Bytes("val", nd.Choose(nd.Tier(3, 4)))
		base = append(base, fv(keys[i], vals[i]))
	}
	want, ok := key(keys, base, false)
	nd.Assert(ok, "a row with every key field has a key")
	nd.Observe("key", want)

	// any other fields, anywhere; key fields in any order
	rest := []collation.FV{fv(string(nd.Bytes("name", nd.Choose(3))), nd.Bytes("extra", nd.Choose(2)))}
	for _, k := range keys {
		nd.Assume(string(rest[0].F) != k)
	}
	var row []collation.FV
	pos, rev := nd.Choose(len(base)+1), nd.Choose(2) == 1
	for i := range base {
		if i == pos {
			row = append(row, rest...)
		}
		j := i
		if rev {
			j = len(base) - 1 - i
		}
		row = append(row, base[j])
	}
	if pos == len(base) {
		row = append(row, rest...)
	}
	got, ok := key(keys, row, nd.Choose(2) == 1)
	nd.Assert(ok && got == want, "the key depends only on the key fields and their values")

	if len(keys) > 0 {
		// a key field that occurs again, wherever and whatever it holds
		d := nd.Choose(len(keys))
		again := append(append([]collation.FV{}, row...), fv(keys[d], nd.Bytes("again", nd.Choose(2))))
		k1, ok1 := key(keys, again, false)
		k2, ok2 := key(keys, again, true)
		nd.Assert(ok1 && ok2 && k1 == k2, "an observation and a query of the same fields have the same key")
	}

	if len(keys) > 0 {
		// drop one key field
		d := keys[nd.Choose(len(keys))]
		var less []collation.FV
		for _, x := range row {
			if string(x.F) != d {
				less = append(less, x)
			}
		}
		_, ok = key(keys, less, nd.Choose(2) == 1)
		nd.Assert(!ok, "a key is missing when a key field is absent")
	}
}

// H_schemakey decides that a compiled schema routes by the fields it names.
//
//verif:C09
func H_schemakey() {
	s := collation.Schema{Name: "n", Measures: []collation.MeasureSpec{spec("m", collation.Sum{})}}
	names := []string{"b", "a", "cc"}[:1+nd.Choose(3)]
	for _, n := range names {
		s.Keys = append(s.Keys, collation.KeySpec{Field: field(n)})
	}
	c, err := s.Compile()
	nd.Assert(err == nil && c.Name() == "n", "a schema compiles")
	var base []collation.FV
	for _, n := range names {
		base = append(base, fv(n, nd.Bytes("val", 2)))
	}
	r := collation.Row{Data: append([]collation.FV{num("m", 2)}, base...)}
	k1, ok1 := r.KeyValue(c.Keys())
	q := collation.Query{Criteria: base}
	k2, ok2 := q.KeyValue(c.Keys())
	nd.Assert(ok1 && ok2 && k1 == k2, "an observation and a query for it have the same key")
	miss := nd.Choose(len(names))
	r.Data = append(append([]collation.FV{}, base[:miss]...), base[miss+1:]...)
	_, ok := r.KeyValue(c.Keys())
	nd.Assert(!ok, "a key is missing when a key field is absent")
	nd.Observe("k", k1)
}

// H_apart decides that different values of one key have different keys, for
// all pairs of short values.
//
//verif:C10
func H_apart() {
	la, lb := nd.Choose(nd.Tier(3, 4)), nd.Choose(nd.Tier(3, 4))
	nd.Assume(la <= lb)
	a, b := nd.Bytes("a", la), nd.Bytes("b", lb)
	nd.Assume(!bytes.Equal(a, b))
	ka, _ := key([]string{"k"}, []collation.FV{fv("k", a)}, false)
	kb, _ := key([]string{"k"}, []collation.FV{fv("k", b)}, false)
	nd.Assert(ka != kb, "different key values have different keys")
	nd.Observe("ka", ka)
}

// H_everybyte decides that each byte of a long key value takes part.
//
//verif:C10
func H_everybyte() {
	n := []int{1, 3, 8, 17, 40, 66, 130, 258, 520, 1030, 4100, 66000}[nd.Choose(nd.Tier(10, 12))]
	var at int
	switch k := nd.Choose(6); k {
	case 5:
		// beyond every power of two there may be a limit at
		at = 1 << uint(1+nd.Choose(16))
	case 4:
		at = n / 2
	default:
		at = n - 1 - k
	}
	nd.Assume(at >= 0 && at < n)
	// the bytes about the one that differs are arbitrary
	a := make([]byte, n)
	for i := range a {
		a[i] = 'a' + byte(i%26)
	}
	lo, hi := at-20, at+20
	if lo < 0 {
		lo = 0
	}
	if hi > n {
		hi = n
	}
	copy(a[lo:hi], nd.Bytes("a", hi-lo))
	b := append([]byte(nil), a...)
	b[at] = nd.U8("other")
	nd.Assume(a[at] != b[at])
	row := func(v []byte) []collation.FV { return []collation.FV{num("z", 1), fv("k", v), fv("l", []byte("tail"))} }
	keys := []string{"k"}
	if nd.Choose(2) == 1 {
		keys = []string{"k", "l"}
	}
	ka, _ := key(keys, row(a), false)
	kb, _ := key(keys, row(b), true)
	nd.Assert(ka != kb, "every byte of a key value takes part in the key")
	nd.Observe("ka", ka)
}

// H_manykeys decides that every one of many keys takes part.
//
//verif:C10
func H_manykeys() {
	n := []int{1, 2, 3, 4, 5, 8, 9, 12, 17, 33}[nd.Choose(nd.Tier(9, 10))]
	at := n - 1 - nd.Choose(6)
	nd.Assume(at >= 0)
	a, b := make([]collation.FV, n), make([]collation.FV, n)
	keys := make([]string, n)
	for i := range a {
		keys[i] = "k" + string([]byte{'A' + byte(i)})
		v := nd.Bytes("v", 2)
		a[i] = fv(keys[i], v)
		b[n-1-i] = a[i]
	}
	// one byte of one value differs
	o := nd.Choose(2)
	other := append([]byte(nil), a[at].V...)
	other[o] = nd.U8("other")
	nd.Assume(other[o] != a[at].V[o])
	b[n-1-at] = fv(keys[at], other)
	ka, oka := key(keys, a, false)
	kb, okb := key(keys, b, true)
	nd.Assert(oka && okb && ka != kb, "every key takes part")
	nd.Observe("ka", ka)
}

// H_multi decides that different values of two keys have different keys. The
// values are hashed one after another with the names between them, so pairs of
// values that run together to the same text are the listed known finding.
//
//verif:C10
func H_multi() {
	n := nd.Tier(2, 3)
	var v [2][2][]byte
	for i := range v {
		for j := range v[i] {
			v[i][j] = nd.Bytes("v", nd.Choose(n))
		}
	}
	nd.Assume(!bytes.Equal(v[0][0], v[1][0]) || !bytes.Equal(v[0][1], v[1][1]))
	var k [2]uint64
	var text [2]string
	for i := range v {
		k[i], _ = key([]string{"k", "l"}, []collation.FV{fv("k", v[i][0]), fv("l", v[i][1])}, false)
		text[i] = "k" + string(v[i][0]) + "l" + string(v[i][1])
	}
	nd.Assert(k[0] != k[1] || text[0] == text[1], "different key values have different keys")
	nd.Observe("k", k[0])
}

// H_runtogether is the listed known finding.
//
//verif:C10
func H_runtogether() {
	a, b := nd.Bytes("a", 2), nd.Bytes("b", 1)
	k1, _ := key([]string{"k", "l"}, []collation.FV{fv("k", a), fv("l", []byte{})}, false)
	k2, _ := key([]string{"k", "l"}, []collation.FV{fv("k", a[:1]), fv("l", b)}, false)
	text := "k"+string(a)+"l" == "k"+string(a[:1])+"l"+string(b)
	nd.Assert(k1 != k2 || text, "different key values have different keys")
	nd.Known(k1 != k2, "run-together", "values of two keys that run together to the same text share a record")
}
