// Package queries holds the harnesses over internal/query.
package queries

import (
	"bytes"

	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// name is any name of n printable bytes that can be written in a query.
func name(label string, n int) []byte {
	b := nd.Ascii(label, n)
	for _, c := range b {
		nd.Assume(c > ' ' && c < 0x7f && c != ',' && c != '(' && c != ')' && c != '\'' && c != '=')
	}
	return b
}

// value is any value free of quotes and newlines.
func value(label string, n int) []byte {
	b := nd.Bytes(label, n)
	for _, c := range b {
		nd.Assume(c != '\'' && c != '\n')
	}
	return b
}

// word is a keyword in any mixture of cases.
func word(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] -= nd.U8("upper") & 1 << 5
	}
	return string(b)
}

// spaces yields some white space at each place.
func spaces() func(min int) string {
	style, step := nd.Choose(4), nd.Choose(nd.Tier(2, 4))
	return func(min int) string {
		style += step
		s := []string{"", " ", "\t ", "\n"}[style%4]
		if len(s) < min {
			return "  \r\n"
		}
		return s
	}
}

type item struct{ m, f []byte }
type crit struct{ k, v []byte }

// parse parses a text and compares the result with what was written.
func parse(text string, sel []item, crits []crit) {
	q, err := query.RoughParse(text)
	nd.Assert(err == nil, "a well formed query parses")

	// group by field in order of first appearance
	var fields [][]byte
	var ms [][][]byte
next:
	for _, s := range sel {
		for i := range fields {
			if bytes.Equal(fields[i], s.f) {
				ms[i] = append(ms[i], s.m)
				continue next
			}
		}
		fields = append(fields, s.f)
		ms = append(ms, [][]byte{s.m})
	}
	nd.Assert(len(q.FieldMeasures) == len(fields), "every field requested is there once")
	for i := range fields {
		nd.Assert(bytes.Equal(q.FieldMeasures[i].F, fields[i]), "fields come in the order they first appear")
		nd.Assert(len(q.FieldMeasures[i].M) == len(ms[i]), "every measure requested of a field is there")
		for j := range ms[i] {
			nd.Assert(bytes.Equal(q.FieldMeasures[i].M[j], ms[i][j]), "measures come as written, in order")
		}
	}
	nd.Assert(len(q.Criteria) == len(crits), "every criterion is there")
	for i, c := range crits {
		nd.Assert(bytes.Equal(q.Criteria[i].F, c.k), "a criterion names its key as written")
		nd.Assert(bytes.Equal(q.Criteria[i].V, c.v), "a criterion has its value as written")
		nd.ObserveBytes("value", q.Criteria[i].V)
	}
}

// H_names decides queries with any names.
//
//verif:C12 nomerge
func H_names() {
	n := nd.Choose(3)
	var sel []item
	text := "select "
	for i := 0; i <= n; i++ {
		f := name("f", 1)
		if i > 0 && nd.Choose(2) == 1 {
			f = sel[0].f
		}
		s := item{name("m", 1+i%2), f}
		sel = append(sel, s)
		if i > 0 {
			text += ", "
		}
		text += string(s.m) + "(" + string(s.f) + ")"
	}
	k := name("k", 1+nd.Choose(2))
	parse(text+" where "+string(k)+"='v'", sel, []crit{{k, []byte("v")}})
}

// H_values decides queries with any values.
//
//verif:C12 nomerge
func H_values() {
	v := value("v", nd.Choose(nd.Tier(4, 6)))
	w := value("w", nd.Choose(3))
	var crits []crit
	text := "select count(*), max(height) where "
	sel := []item{{[]byte("count"), []byte("*")}, {[]byte("max"), []byte("height")}}
	if nd.Choose(2) == 0 {
		text += "k='" + string(v) + "'"
		crits = []crit{{[]byte("k"), v}}
	} else {
		text += "k='" + string(v) + "' and l='" + string(w) + "'"
		crits = []crit{{[]byte("k"), v}, {[]byte("l"), w}}
	}
	parse(text, sel, crits)
}

// H_words decides queries whose values look like parts of a query.
//
//verif:C12 nomerge
func H_words() {
	vs := []string{" where ", "select a(b) where c=", "x and y=z", "a(b)", " ", "=", "==x", "a,b(c)", "where", "WHERE x"}
	v := []byte(vs[nd.Choose(len(vs))])
	w := append(value("w", 1), vs[nd.Choose(len(vs))]...)
	sel := []item{{[]byte("mean"), []byte("h")}}
	parse("select mean(h) where k='"+string(v)+"' and l='"+string(w)+"'", sel, []crit{{[]byte("k"), v}, {[]byte("l"), w}})
}

// H_twice decides that a query is parsed on its own, whatever was parsed
// before and whatever became of the results.
//
//verif:C12 nomerge
func H_twice() {
	n := nd.Choose(nd.Tier(2, 3))
	v, w := value("v", 1+n), value("w", 1+n)
	sel := []item{{[]byte("sum"), []byte("a")}, {[]byte("Max"), []byte("b")}, {[]byte("min"), []byte("a")}}
	other := []item{{[]byte("sum"), []byte("A")}, {[]byte("max"), []byte("b")}}
	first := "select sum(a), Max(b), min(a) where K='" + string(v) + "'"
	parse(first, sel, []crit{{[]byte("K"), v}})
	switch nd.Choose(4) {
	case 1:
		q, err := query.RoughParse(first)
		nd.Assert(err == nil, "a well formed query parses")
		// the results belong to the caller
		q.Criteria[0].V[0] ^= 0x15
		q.Criteria[0].F[0] = 'x'
		q.FieldMeasures[0].F[0] = 'x'
		q.FieldMeasures[1].M[0][0] = 'x'
		q.FieldMeasures[0].M = append(q.FieldMeasures[0].M[:1], []byte("mean"))
		q.Reset()
		q.Criteria = append(q.Criteria, q.Criteria[:1]...)
		q.FieldMeasures = append(q.FieldMeasures, q.FieldMeasures[:2][1])
	case 2:
		_, err := query.RoughParse("select sum(a) where")
		nd.Assert(err != nil, "text without the form is an error")
	case 3:
		parse("select sum(A),max(b) where k='"+string(w)+"'", other, []crit{{[]byte("k"), w}})
	}
	switch nd.Choose(3) {
	case 0:
		parse(first, sel, []crit{{[]byte("K"), v}})
	case 1:
		parse("select sum(a), Max(b), min(a) where K='"+string(w)+"'", sel, []crit{{[]byte("K"), w}})
	case 2:
		parse("SELECT sum(A), max(b) where k='"+string(v)+"'", other, []crit{{[]byte("k"), v}})
	}
}

// H_case decides that keyword case and spacing do not matter.
//
//verif:C12 nomerge
func H_case() {
	sel := []item{{[]byte("sum"), []byte("a")}, {[]byte("min"), []byte("b")}, {[]byte("max"), []byte("a")}}
	space := spaces()
	text := space(0) + word("select") + space(1) + "sum(a)," + space(0) + "min(b)"
	if nd.Choose(2) == 0 {
		text += " , max(a)"
	} else {
		sel = sel[:2]
	}
	text += space(1) + word("where") + space(1) + "k='1'"
	crits := []crit{{[]byte("k"), []byte("1")}}
	if nd.Choose(2) == 0 {
		text += space(1) + word("and") + space(1) + "kk='2'"
		crits = append(crits, crit{[]byte("kk"), []byte("2")})
	}
	parse(text+space(0), sel, crits)
}

// H_other decides that text without the form of a query is an error, never a
// crash.
//
//verif:C12 nomerge
func H_other() {
	b := nd.Bytes("text", nd.Choose(nd.Tier(7, 9)))
	_, err := query.RoughParse(string(b))
	nd.Assert(err != nil, "text that is too short to be a query is an error")
	pre := []string{"select ", "where ", "select a(b)", "select a(b) wher k='v'", "elect a(b) where k='v'", "select where k='v'", "select a(b) where "}
	p := pre[nd.Choose(len(pre))]
	x := nd.Ascii("x", nd.Choose(2))
	for _, c := range x {
		nd.Assume(c <= ' ' || c == '(' || c == 'w')
	}
	_, err = query.RoughParse(p + string(x))
	blank := p[len(p)-1] == ' ' && len(x) > 0 && x[0] <= ' ' // criteria of nothing but space
	if len(x) == 0 || x[0] != 'w' && x[0] != '(' && !blank {
		nd.Assert(err != nil, "text without the select and where form is an error")
	}
	nd.Observe("done", 1)
}

// H_any decides that no text crashes the parser and that what it yields names
// nothing empty.
//
//verif:C12 nomerge
func H_any() {
	b := nd.Bytes("text", 1+nd.Choose(nd.Tier(2, 3)))
	q, err := query.RoughParse("select " + string(b) + "(f) where k" + string(b))
	if err == nil {
		for _, f := range q.FieldMeasures {
			nd.Assert(len(f.F) > 0 && len(f.M) > 0, "a requested field has a name and a measure")
		}
		for _, c := range q.Criteria {
			nd.Assert(len(c.F) > 0, "a criterion has a name")
		}
		nd.Observe("fields", uint64(len(q.FieldMeasures)))
	}
}
