package queries

import (
	"bytes"
	"strconv"

	"github.com/iand/starbow/internal/zzverif/nd"
)

// wide is a text of n bytes with any two bytes in it.
func wide(n int) []byte {
	b := bytes.Repeat([]byte("ab c(d),=e\t*"), n/12+1)[:n]
	if n > 1 {
		v := value("v", 2)
		b[n/2], b[n-1] = v[0], v[1]
	}
	return b
}

// long is a name of n bytes with any byte in it.
func long(n int) []byte {
	b := bytes.Repeat([]byte("name_"), n/5+1)[:n]
	b[n-1] = name("n", 1)[0]
	return b
}

// H_long decides queries with many measures and criteria and long names and
// values.
//
//verif:C12 nomerge maxsteps=200000000
func H_long() {
	measures := []int{1, 9, 20, 70, 300}[nd.Choose(nd.Tier(4, 5))]
	criteria := []int{1, 9, 33, 300}[nd.Choose(nd.Tier(3, 4))]
	size := []int{1, 64, 300, 5000}[nd.Choose(4)]
	var sel []item
	var crits []crit
	text := "select "
	for i := 0; i < measures; i++ {
		s := item{[]byte("m" + strconv.Itoa(i%7)), []byte("f" + strconv.Itoa(i/3%31))}
		if i == measures/2 {
			s = item{long(size), long(size)}
		}
		if i > 0 {
			text += ", "
		}
		sel = append(sel, s)
		text += string(s.m) + "(" + string(s.f) + ")"
	}
	text += " where "
	for i := 0; i < criteria; i++ {
		c := crit{[]byte("k" + strconv.Itoa(i)), []byte("v" + strconv.Itoa(i))}
		if i == criteria/2 {
			c = crit{long(size), wide(size)}
		}
		if i > 0 {
			text += " and "
		}
		crits = append(crits, c)
		text += string(c.k) + "='" + string(c.v) + "'"
	}
	parse(text, sel, crits)
}
