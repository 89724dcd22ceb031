package colls

import (
	"math"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// H_manyrows decides counts, sums and extremes of long series with an
// arbitrary value anywhere in them.
//
//verif:C02 C03 C04
func H_manyrows() {
	n := []int{40, 300, 1100}[nd.Choose(nd.Tier(2, 3))]
	s := collation.Schema{
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures: []collation.MeasureSpec{
			spec("b", collation.Count{}),
			spec("a", collation.Max{}, collation.Count{}, collation.Sum{}, collation.Min{}),
		},
	}
	r := newRec(s, 0x5a)
	at := []int{0, n / 2, n - 1}[nd.Choose(3)]
	any := nd.F64("v")
	nd.Assume(!math.IsNaN(any))
	na, nb, sum := 0, 0, 0.0
	max, min := math.Inf(-1), math.Inf(1)
	for i := 0; i < n; i++ {
		var row []collation.FV
		if i%7 != 3 || i == at {
			v := float64(i*37%101)*0.5 - 20
			if i == at {
				v = any
			}
			row = append(row, num("a", v))
			na++
			sum += v
			if v > max {
				max = v
			}
			if v < min {
				min = v
			}
		}
		if i%3 == 0 {
			row = append(row, fv("b", []byte("1")))
			nb++
		}
		nd.Assert(r.update(row...) == nil, "a valid observation is accepted")
	}
	nd.Assert(r.get(star, "count") == float64(n), "the row count is the number of accepted observations")
	nd.Assert(r.get("a", "count") == float64(na) && r.get("b", "count") == float64(nb), "count is the number of observations carrying the field")
	nd.Assert(same(r.get("a", "sum"), sum), "sum is the total of the values observed")
	nd.Assert(r.get("a", "max") == max && r.get("a", "min") == min, "the extremes are those of the values observed")
	nd.ObserveF("max", r.get("a", "max"))
}

// H_manyfields decides that every one of many fields of a row is collated.
//
//verif:C03 C06
func H_manyfields() {
	n := []int{9, 17, 33, 70}[nd.Choose(nd.Tier(3, 4))]
	var s collation.Schema
	names := make([]string, n)
	for i := range names {
		names[i] = "f" + string([]byte{byte('A' + i/10), byte('0' + i%10)})
		s.Measures = append(s.Measures, spec(names[i], collation.Sum{}, collation.Count{}))
	}
	r := newRec(s, 0x33)
	at := n - 1 - nd.Choose(4)
	any := nd.F64("v")
	val := func(i int) float64 {
		if i == at {
			return any
		}
		return float64(i) - 3.5
	}
	var up, down []collation.FV
	for i := range names {
		up = append(up, num(names[i], val(i)), fv("x"+names[i], []byte("other")))
		down = append([]collation.FV{num(names[i], val(i))}, down...)
	}
	if nd.Choose(2) == 1 {
		up, down = down, up
	}
	nd.Assert(r.update(up...) == nil, "a valid observation is accepted")
	for i, f := range names {
		nd.Assert(same(r.get(f, "sum"), val(i)) && r.get(f, "count") == 1, "every field of a row is collated")
	}
	nd.Assert(r.update(down...) == nil, "a valid observation is accepted")
	for i, f := range names {
		nd.Assert(same(r.get(f, "sum"), val(i)+val(i)) && r.get(f, "count") == 2, "every field of a row is collated")
	}
	nd.ObserveF("sum", r.get(names[at], "sum"))
}

// H_bigrecord decides that measures past large ones have their own place.
//
//verif:C06 maxalloc=400000
func H_bigrecord() {
	p := []int{12, 16}[nd.Choose(2)]
	card := func(p int) collation.Measure { return collation.Cardinality{Precision: p} }
	s := collation.Schema{
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{spec("a", card(p), collation.Max{}), spec("b", card(p), collation.Sum{}), spec("c", collation.Min{}, collation.Count{}, card(4))},
	}
	r := newRec(s, 0xcc)
	d := nd.U8("digit")
	nd.Assume(d >= '0' && d <= '9')
	rows := [][]collation.FV{{fv("a", []byte("1")), fv("b", []byte("2"))}, {fv("c", []byte("7")), fv("b", []byte{d})}, {fv("b", []byte("5")), fv("c", []byte("3"))}}
	for _, row := range rows {
		nd.Assert(r.update(row...) == nil, "a valid observation is accepted")
	}
	nd.Assert(r.get("a", "max") == 1 && r.get("b", "sum") == 7+float64(d-'0') && r.get("c", "min") == 3 && r.get("c", "count") == 2 && r.get(star, "count") == 3, "a measure reads as it does alone")
	nd.Assert(r.get("c", "uniquecount") == 2, "a measure reads as it does alone")
	nd.Observe("done", 1)
}

// H_uniquelong decides the unique count of long values and of many values.
//
//verif:C05 nomerge
func H_uniquelong() {
	p := []int{4, 11, 14}[nd.Choose(nd.Tier(2, 3))]
	s := collation.Schema{Measures: []collation.MeasureSpec{spec("g", collation.Max{}), spec("f", collation.Cardinality{Precision: p})}}
	r := newRec(s, 0x99)
	h := hll.New(uint8(p))
	n := []int{9, 17, 33, 65, 129, 257, 1030}[nd.Choose(7)]
	long := make([]byte, n)
	for i := range long {
		long[i] = byte(i*i + 3)
	}
	long[n-1] = nd.U8("last")
	more := 2
	if n == 65 {
		more = 300
	}
	for i := 0; i < more; i++ {
		v := append([]byte(nil), long...)
		v[n/2] ^= byte(i)
		v[1] ^= byte(i / 256)
		if i > 0 {
			v[n-1] = byte(i * 5)
		}
		nd.Assert(r.update(fv("f", v), fv("g", []byte("4"))) == nil, "any value of the field is accepted")
		if i%3 == 0 {
			nd.Assert(r.update(fv("f", v)) == nil, "any value of the field is accepted")
		}
		h.Add(v)
	}
	got := r.get("f", "uniquecount")
	nd.Assert(got == float64(h.Count()), "the unique count is that of a fresh counter given each value once")
	nd.ObserveF("uniquecount", got)
}

// H_keymany decides that the key is a function of many key fields alone.
//
//verif:C09
func H_keymany() {
	n := []int{4, 5, 8, 9, 17, 33, 65}[nd.Choose(nd.Tier(6, 7))]
	extra := []int{0, 3, 40}[nd.Choose(3)]
	keys := make([]string, n)
	var base, row, rev []collation.FV
	for i := range keys {
		keys[i] = "k" + string([]byte{byte('A' + i/10), byte('0' + i%10)})
		v := make([]byte, []int{0, 3, 70, 300}[i%4])
		for j := range v {
			v[j] = byte(i + j)
		}
		if i%4 == 1 {
			v = nd.Bytes("v", 3)
		}
		base = append(base, fv(keys[i], v))
	}
	for i := range base {
		rev = append(rev, base[n-1-i])
	}
	for i := 0; i < extra; i++ {
		row = append(row, fv("x"+string([]byte{byte('A' + i/10), byte('0' + i%10)}), nd.Bytes("e", 1)))
	}
	row = append(row, rev...)
	row = append(row, fv("z", nd.Bytes("e", 2)))
	want, ok := key(keys, base, nd.Choose(2) == 1)
	nd.Assert(ok, "a row with every key field has a key")
	got, ok := key(keys, row, nd.Choose(2) == 1)
	nd.Assert(ok && got == want, "the key depends only on the key fields and their values")
	d := []int{0, n / 2, n - 1}[nd.Choose(3)]
	less := append(append([]collation.FV{}, base[:d]...), base[d+1:]...)
	_, ok = key(keys, less, nd.Choose(2) == 1)
	nd.Assert(!ok, "a key is missing when a key field is absent")
	nd.Observe("key", want)
}

// H_manyasked decides a query for many measures, some twice, some unknown.
//
//verif:C28
func H_manyasked() {
	n := []int{5, 20, 40}[nd.Choose(nd.Tier(2, 3))]
	s := collation.Schema{RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	names := make([]string, n)
	var row []collation.FV
	any := nd.F64("v")
	nd.Assume(!math.IsNaN(any))
	for i := range names {
		names[i] = "f" + string([]byte{byte('A' + i/10), byte('0' + i%10)})
		s.Measures = append(s.Measures, spec(names[i], collation.Sum{}, collation.Max{}))
		v := float64(i) + 0.5
		if i == n-2 {
			v = any
		}
		row = append(row, num(names[i], v))
	}
	r := newRec(s, 0)
	nd.Assert(r.update(row...) == nil, "a valid observation is accepted")
	before := append([]byte(nil), r.buf...)
	ask := []collation.FM{{F: []byte(star), M: [][]byte{[]byte("count")}}}
	var want [][2]string
	want = append(want, [2]string{star, "count"})
	for k := 0; k < n; k++ {
		i := k * 7 % n
		if n%7 == 0 {
			i = n - 1 - k
		}
		ms := [][]string{{"max"}, {"sum", "max"}, {"max", "none", "sum"}, {"none"}, {"max", "sum", "max", "sum", "sum", "max", "none", "max", "sum", "max", "max", "sum", "sum"}}[k%5]
		fm := collation.FM{F: []byte(names[i])}
		for _, m := range ms {
			fm.M = append(fm.M, []byte(m))
			if m != "none" {
				want = append(want, [2]string{names[i], m})
			}
		}
		ask = append(ask, fm)
		if k%6 == 0 {
			ask = append(ask, collation.FM{F: []byte("absent"), M: [][]byte{[]byte("max")}})
		}
	}
	for again := 0; again < 2; again++ {
		res, err := r.c.Read(ask, r.buf[:r.size])
		nd.Assert(err == nil, "a record can be read")
		got := res.FieldMeasureValues
		nd.Assert(len(got) == len(want), "one value per configured measure requested")
		for i := range got {
			nd.Assert(string(got[i].F) == want[i][0] && string(got[i].M) == want[i][1], "values come in the order asked")
			v := 1.0
			for k, f := range names {
				if f == want[i][0] {
					v = float64(k) + 0.5
					if k == n-2 {
						v = any
					}
				}
			}
			nd.Assert(got[i].V.(float64) == v, "a value is that of its field")
		}
		for i := range before {
			nd.Assert(r.buf[i] == before[i], "reading leaves the record alone")
		}
	}
	nd.Observe("n", uint64(len(want)))
}
