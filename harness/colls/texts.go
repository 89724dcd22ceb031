package colls

import (
	"strconv"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/zzverif/nd"
)

var numbers = []string{
	"12345678901234567890", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
	"18446744073709551616", "99999999999999999999999999", "9007199254740993", "-9007199254740993",
	"0.1", "1e5", "1E5", "-1e-5", "1e22", "1e23", "4.9e-324", "1e-400", "1.7976931348623157e308",
	"0x1p-2", "-0", "+0", "007", "-12", "+12", ".5", "5.", "-.5", "1.000000000000000000000000000001",
	"inf", "-Inf", "+infinity", "0.30000000000000000000000000000000000000000000000004",
}

var texts = []string{
	"", "-", "+", ".", "e5", "1e", "1e+", " 1", "1 ", "1,5", "--1", "1.2.3", "0x", "1e400", "-1e400",
	"one", "12a", "a12", "\x001", "1\x00", "١",
}

// form is the text of a number with any digits in place of each d.
func form(f string) []byte {
	b := []byte(f)
	for k, c := range b {
		if c == 'd' {
			b[k] = nd.U8("digit")
			nd.Assume(b[k] >= '0' && b[k] <= '9')
		}
	}
	return b
}

// H_texts decides that the value observed is the number a text denotes, and that
// text which is not a number is refused.
//
//verif:C03 C04 C08
func H_texts() {
	r := newRec(collation.Schema{
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{spec("a", collation.Sum{}, collation.Max{}, collation.Min{})},
	}, 0)
	first := nd.Choose(2) == 0
	if !first {
		nd.Assert(r.update(fv("a", []byte("-2.5"))) == nil, "a valid observation is accepted")
	}
	if nd.Choose(3) == 0 {
		err := r.update(fv("a", []byte(texts[nd.Choose(len(texts))])))
		nd.Assert(err != nil, "text that is not a number is refused")
		if !first {
			nd.Assert(r.get(star, "count") == 1 && r.get("a", "sum") == -2.5 && r.get("a", "max") == -2.5 && r.get("a", "min") == -2.5, "a refused value changes nothing")
		}
		return
	}
	var t []byte
	if first && nd.Choose(2) == 0 {
		t = form([]string{"d", "dd", "-d", "+d", "ddd", "00d"}[nd.Choose(6)])
	} else {
		t = []byte(numbers[nd.Choose(len(numbers))])
	}
	v, err := strconv.ParseFloat(string(t), 64)
	nd.Assert(err == nil, "the text denotes a number")
	nd.Assert(r.update(fv("a", t)) == nil, "a valid observation is accepted")
	sum, hi, lo := v, v, v
	if !first {
		sum, hi, lo = -2.5+v, larger(v, -2.5), -larger(-v, 2.5)
	}
	nd.Assert(r.get("a", "sum") == sum, "the sum is that of the numbers written")
	nd.Assert(r.get("a", "max") == hi, "the maximum is that of the numbers written")
	nd.Assert(r.get("a", "min") == lo, "the minimum is that of the numbers written")
	nd.ObserveF("sum", sum)
}

func larger(a, b float64) float64 {
	if a > b {
		return a
	}
	return b
}

// H_decimals decides the same for any digits in decimal and scientific form.
//
//verif:C03
func H_decimals() {
	r := newRec(collation.Schema{Measures: []collation.MeasureSpec{spec("a", collation.Sum{}, collation.Count{})}}, 0)
	forms := []string{"d.d", ".d", "d.", "-dd.d", "1d00", "de1", "dE-d", "d.d0e1", "ddddd", "-0d.dd"}
	t := form(forms[nd.Choose(len(forms))])
	v, err := strconv.ParseFloat(string(t), 64)
	nd.Assert(err == nil, "the text denotes a number")
	nd.Assert(r.update(fv("a", t)) == nil, "a valid observation is accepted")
	nd.Assert(nd.SameF(r.get("a", "sum"), 0+v) && r.get("a", "count") == 1, "the sum is that of the numbers written")
	nd.Observe("n", 1)
}
