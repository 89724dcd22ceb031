package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is the run-time representation of a Go value:
//
//	*Term               booleans, integers, floats (concrete ones are constants)
//	StrV                strings
//	*Value              pointers (the cell pointed to); nil pointer = (*Value)(nil)
//	MuxPtr              a pointer that is one of several cells depending on terms
//	BigPtr              a pointer into an SMT-array backed slice
//	Struct, Array       aggregates (elements are cells in place)
//	Slice, BigSlice     slices
//	Iface               interface values
//	*MapV *ChanV        maps, channels
//	*Closure            functions (nil func = (*Closure)(nil))
//	Tuple               multiple results
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

type StrV struct {
	s string
	b []*Term // when non-nil the bytes, some of them symbolic
}

type Slice struct{ a []Value }

type BigArr struct {
	t    Value // *Term of sort SArr, kept in a cell so writes are journalled
	w    int   // element width in bits
	base *Term // the input array variable, if any
}

type BigSlice struct {
	arr           *BigArr
	off, len, cap *Term
}

type BigPtr struct {
	arr *BigArr
	idx *Term
}

type MuxPtr struct {
	ptrs  []*Value
	conds []*Term // conds[i] selects ptrs[i]; exactly one holds
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn    *ssa.Function
	free  []Value
	bi    *ssa.Builtin
	nat   func(w *W, fr *frame, args []Value) Value // engine-made function
	bound string
}

type MapEntry struct {
	k    Value
	cell *Value
	dead bool
}
type MapV struct {
	entries []*MapEntry
	idx     map[string]*MapEntry // concrete keys
	symKeys int
	n       int
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	waits  bool // somebody is ready to receive
}

type UPtr struct{ v Value } // unsafe.Pointer

type SlicePtr struct{ a []Value } // unsafe.SliceData
type StrPtr struct{ s StrV }
type NativeV struct{ v interface{} } // opaque engine object

func str(s string) StrV { return StrV{s: s} }

func (s StrV) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}
func (s StrV) concrete() bool { return s.b == nil }

func (w *W) strByte(s StrV, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.c.BV(8, uint64(s.s[i]))
}

func (w *W) strTerms(s StrV) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = w.c.BV(8, uint64(s.s[i]))
	}
	return r
}

func mkStr(b []*Term) StrV {
	for _, t := range b {
		if !t.isConst() {
			if len(b) == 0 {
				return StrV{}
			}
			return StrV{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.x)
	}
	return StrV{s: string(bs)}
}

func (s StrV) sub(i, j int) StrV {
	if s.b != nil {
		return mkStr(s.b[i:j:j])
	}
	return StrV{s: s.s[i:j]}
}

func (w *W) strCat(a, b StrV) StrV {
	if a.concrete() && b.concrete() {
		return StrV{s: a.s + b.s}
	}
	r := make([]*Term, 0, a.Len()+b.Len())
	r = append(r, w.strTerms(a)...)
	r = append(r, w.strTerms(b)...)
	return mkStr(r)
}

func (w *W) strEq(a, b StrV) *Term {
	if a.Len() != b.Len() {
		return w.c.False
	}
	if a.concrete() && b.concrete() {
		return w.c.Bool(a.s == b.s)
	}
	r := w.c.True
	for i := 0; i < a.Len(); i++ {
		r = w.c.And(r, w.c.Eq(w.strByte(a, i), w.strByte(b, i)))
		if r == w.c.False {
			break
		}
	}
	return r
}

func (w *W) strLess(a, b StrV) *Term {
	if a.concrete() && b.concrete() {
		return w.c.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := w.c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.c.Or(w.c.Ult(x, y), w.c.And(w.c.Eq(x, y), r))
	}
	return r
}

// cells -----------------------------------------------------------------------

type undo struct {
	p   *Value
	old Value
	fn  func()
}

func (w *W) setCell(p *Value, v Value) {
	if w.permanent == 0 {
		w.journal = append(w.journal, undo{p: p, old: *p})
	}
	*p = v
}

// onUndo records a side effect that is not a cell write.
func (w *W) onUndo(f func()) {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"side effect"})
	}
	if w.permanent == 0 {
		w.journal = append(w.journal, undo{fn: f})
	}
}

func (w *W) rollback(mark int) {
	for i := len(w.journal) - 1; i >= mark; i-- {
		u := &w.journal[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	w.journal = w.journal[:mark]
}

func (w *W) newCells(n int) []Value {
	a := make([]Value, n)
	if w.par != nil && n > 0 {
		w.par.allocated(a)
	}
	if w.mergeDepth > 0 && n > 0 {
		lo := uintptr(unsafe.Pointer(&a[0]))
		w.fresh = append(w.fresh, [2]uintptr{lo, lo + uintptr(n)*unsafe.Sizeof(a[0])})
		w.freshKeep = append(w.freshKeep, a)
	}
	return a
}
func (w *W) newCell(v Value) *Value {
	a := w.newCells(1)
	a[0] = v
	return &a[0]
}

func (w *W) isFresh(p *Value, from int) bool {
	x := uintptr(unsafe.Pointer(p))
	for _, r := range w.fresh[from:] {
		if x >= r[0] && x < r[1] {
			return true
		}
	}
	return false
}

const bigThreshold = 2048

func (w *W) zero(t types.Type) Value {
	switch t := t.(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return w.c.False
		case types.String, types.UntypedString:
			return StrV{}
		case types.Float64, types.UntypedFloat:
			return w.f64const(0)
		case types.Float32:
			return w.c.F32(0)
		case types.UnsafePointer:
			return UPtr{}
		case types.UntypedNil:
			return Iface{}
		}
		if n := basicWidth(t); n > 0 {
			return w.c.BV(n, 0)
		}
		panic(unsupported{"zero of " + t.String()})
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Array:
		n := int(t.Len())
		a := Array(w.newCells(n))
		z := w.zero(t.Elem())
		if _, ok := z.(*Term); ok {
			for i := range a {
				a[i] = z
			}
			return a
		}
		for i := range a {
			a[i] = w.zero(t.Elem())
		}
		return a
	case *types.Named:
		return w.zero(t.Underlying())
	case *types.Alias:
		return w.zero(types.Unalias(t))
	case *types.Interface:
		return Iface{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := Struct(w.newCells(t.NumFields()))
		for i := range s {
			s[i] = w.zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return w.zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = w.zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	}
	panic(unsupported{fmt.Sprintf("zero of %T", t)})
}

func basicWidth(t *types.Basic) int {
	switch t.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (w *W) f64const(f float64) *Term {
	if w.reals {
		return w.realConst(f)
	}
	return w.c.F64(f)
}

// copyVal makes an independent copy of aggregates.
func (w *W) copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := Struct(w.newCells(len(v)))
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				n[i] = w.copyVal(v[i])
			default:
				n[i] = v[i]
			}
		}
		return n
	case Array:
		n := Array(w.newCells(len(v)))
		for i := range v {
			switch v[i].(type) {
			case Struct, Array:
				n[i] = w.copyVal(v[i])
			default:
				n[i] = v[i]
			}
		}
		return n
	}
	return v
}

// storeInto writes v to cell p, in place for aggregates so that pointers to
// elements stay valid.
func (w *W) storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok {
			for i := range v {
				w.storeInto(&d[i], v[i])
			}
			return
		}
	case Array:
		if d, ok := (*p).(Array); ok {
			for i := range v {
				w.storeInto(&d[i], v[i])
			}
			return
		}
	}
	if w.par != nil {
		w.par.onStore(w, p, v)
		return
	}
	if *p == nil {
		w.setCell(p, w.copyVal(v))
		return
	}
	w.setCell(p, w.copyVal(v))
}

func (w *W) loadFrom(p *Value) Value {
	switch v := (*p).(type) {
	case Struct, Array:
		if w.par != nil {
			return w.par.loadAgg(w, p)
		}
		return w.copyVal(v)
	}
	if w.par != nil {
		return w.par.onLoad(w, p)
	}
	return *p
}

// load through any pointer value.
func (w *W) load(ptr Value) Value {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.loadFrom(p)
	case MuxPtr:
		vals := make([]Value, len(p.ptrs))
		for i := range vals {
			vals[i] = w.loadFrom(p.ptrs[i])
		}
		r, ok := w.muxVals(p.conds, vals)
		if !ok {
			return w.loadFrom(w.pick(p))
		}
		return r
	case BigPtr:
		return w.c.Select(p.arr.t.(*Term), p.idx)
	case SlicePtr:
		return w.loadFrom(&p.a[0])
	}
	panic(unsupported{fmt.Sprintf("load through %T", ptr)})
}

// muxVals merges by segments of equal values.
func (w *W) muxVals(conds []*Term, vals []Value) (Value, bool) {
	r := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		var ok bool
		r, ok = w.merge(conds[i], vals[i], r)
		if !ok {
			return nil, false
		}
	}
	return r, true
}

// pick forks over the targets of a mux pointer.
func (w *W) pick(p MuxPtr) *Value {
	for i := 0; i < len(p.ptrs)-1; i++ {
		if w.decide(p.conds[i], nil) {
			return p.ptrs[i]
		}
	}
	return p.ptrs[len(p.ptrs)-1]
}

func (w *W) store(ptr Value, v Value) {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.storeInto(p, v)
		return
	case MuxPtr:
		news := make([]Value, len(p.ptrs))
		ok := true
		for i, q := range p.ptrs {
			news[i], ok = w.merge(p.conds[i], v, w.loadFrom(q))
			if !ok {
				break
			}
		}
		if !ok {
			w.storeInto(w.pick(p), v)
			return
		}
		for i, q := range p.ptrs {
			w.storeInto(q, news[i])
		}
		return
	case BigPtr:
		w.setCell(&p.arr.t, w.c.Store(p.arr.t.(*Term), p.idx, v.(*Term)))
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", ptr)})
}

// same reports whether two values are certainly identical representations.
func same(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case StrV:
		y, ok := b.(StrV)
		if !ok || x.Len() != y.Len() || (x.b == nil) != (y.b == nil) {
			return false
		}
		if x.b == nil {
			return x.s == y.s
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x.a) != len(y.a) || cap(x.a) != cap(y.a) || (x.a == nil) != (y.a == nil) {
			return false
		}
		return cap(x.a) == 0 || &x.a[:1][0] == &y.a[:1][0]
	case BigSlice:
		y, ok := b.(BigSlice)
		return ok && x == y
	case BigPtr:
		y, ok := b.(BigPtr)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && same(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		return ok && sameList(x, y)
	case Array:
		y, ok := b.(Array)
		return ok && sameList(x, y)
	case Tuple:
		y, ok := b.(Tuple)
		return ok && sameList(x, y)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.nat != nil || y.nat != nil {
			return false
		}
		return x.fn == y.fn && x.bi == y.bi && sameList(x.free, y.free)
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	case *ChanV:
		y, ok := b.(*ChanV)
		return ok && x == y
	case UPtr:
		y, ok := b.(UPtr)
		return ok && same(x.v, y.v)
	case MuxPtr:
		y, ok := b.(MuxPtr)
		if !ok || len(x.ptrs) != len(y.ptrs) {
			return false
		}
		for i := range x.ptrs {
			if x.ptrs[i] != y.ptrs[i] || x.conds[i] != y.conds[i] {
				return false
			}
		}
		return true
	case NativeV:
		y, ok := b.(NativeV)
		return ok && x.v == y.v
	}
	return false
}

func sameList(a, b []Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// merge builds "if g then a else b".
func (w *W) merge(g *Term, a, b Value) (Value, bool) {
	if g == w.c.True {
		return a, true
	}
	if g == w.c.False {
		return b, true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		return w.c.Ite(g, x, y), true
	case StrV:
		y, ok := b.(StrV)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if same(a, b) {
			return a, true
		}
		r := make([]*Term, x.Len())
		for i := range r {
			r[i] = w.c.Ite(g, w.strByte(x, i), w.strByte(y, i))
		}
		return mkStr(r), true
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return nil, false
		}
		r, ok := w.mergeList(g, x, y)
		return Struct(r), ok
	case Array:
		y, ok := b.(Array)
		if !ok {
			return nil, false
		}
		r, ok := w.mergeList(g, x, y)
		return Array(r), ok
	case Tuple:
		y, ok := b.(Tuple)
		if !ok {
			return nil, false
		}
		r, ok := w.mergeList(g, x, y)
		return Tuple(r), ok
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if same(a, b) {
			return a, true
		}
		if x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := w.merge(g, x.v, y.v)
		return Iface{x.t, v}, ok
	case BigSlice:
		y, ok := b.(BigSlice)
		if !ok || x.arr != y.arr {
			return nil, false
		}
		return BigSlice{x.arr, w.c.Ite(g, x.off, y.off), w.c.Ite(g, x.len, y.len), w.c.Ite(g, x.cap, y.cap)}, true
	case BigPtr:
		y, ok := b.(BigPtr)
		if !ok || x.arr != y.arr {
			return nil, false
		}
		return BigPtr{x.arr, w.c.Ite(g, x.idx, y.idx)}, true
	}
	if same(a, b) {
		return a, true
	}
	return nil, false
}

func (w *W) mergeList(g *Term, a, b []Value) ([]Value, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	r := w.newCells(len(a))
	for i := range a {
		var ok bool
		r[i], ok = w.merge(g, a[i], b[i])
		if !ok {
			return nil, false
		}
	}
	return r, true
}

// concreteKey gives a map-key string for concrete values.
func concreteKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() && v.sort.K != SReal {
			return fmt.Sprintf("t%d.%d.%d", v.sort.K, v.sort.W, v.x), true
		}
	case StrV:
		if v.concrete() {
			return "s" + v.s, true
		}
	case Struct:
		return concreteKeyList("S", v)
	case Array:
		return concreteKeyList("A", v)
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := concreteKey(v.v)
		return "i" + v.t.String() + "/" + k, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *ChanV:
		return fmt.Sprintf("c%p", v), true
	}
	return "", false
}

func concreteKeyList(p string, vs []Value) (string, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, v := range vs {
		k, ok := concreteKey(v)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d:%s,", len(k), k)
	}
	return sb.String(), true
}

func (w *W) mapFind(m *MapV, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	if w.par != nil {
		w.par.access(cellKey(m), false, false)
	}
	ck, ok := concreteKey(k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		eq := w.equal(e.k, k)
		if w.decide(eq, nil) {
			return e
		}
	}
	return nil
}

func (w *W) mapSet(m *MapV, k, v Value) {
	if m == nil {
		w.goPanicStr("assignment to entry in nil map")
	}
	if w.par != nil {
		w.par.access(cellKey(m), true, true)
	}
	if e := w.mapFind(m, k); e != nil {
		w.setCell(e.cell, w.copyVal(v))
		return
	}
	e := &MapEntry{k: w.copyVal(k), cell: w.newCell(w.copyVal(v))}
	m.entries = append(m.entries, e)
	m.n++
	ck, ok := concreteKey(k)
	if ok {
		m.idx[ck] = e
	} else {
		m.symKeys++
	}
	w.onUndo(func() {
		m.entries = m.entries[:len(m.entries)-1]
		m.n--
		if ok {
			delete(m.idx, ck)
		} else {
			m.symKeys--
		}
	})
}

func (w *W) mapDelete(m *MapV, k Value) {
	if m == nil {
		return
	}
	if w.par != nil {
		w.par.access(cellKey(m), true, true)
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	ck, ok := concreteKey(e.k)
	if ok {
		delete(m.idx, ck)
	} else {
		m.symKeys--
	}
	w.onUndo(func() {
		e.dead = false
		m.n++
		if ok {
			m.idx[ck] = e
		} else {
			m.symKeys++
		}
	})
}

// equal is Go's ==.
func (w *W) equal(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		switch x.sort.K {
		case SF64, SF32:
			return w.c.FCmp(OFEq, x, y)
		}
		return w.c.Eq(x, y)
	case StrV:
		return w.strEq(x, b.(StrV))
	case Struct:
		return w.equalList(x, b.(Struct))
	case Array:
		return w.equalList(x, b.(Array))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(unsupported{"iface compare"})
		}
		if x.t == nil || y.t == nil {
			return w.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return w.c.False
		}
		if !types.Comparable(x.t) {
			w.goPanicStr("comparing uncomparable type " + x.t.String())
		}
		return w.equal(x.v, y.v)
	case *Value:
		switch y := b.(type) {
		case *Value:
			return w.c.Bool(x == y)
		case MuxPtr:
			return w.muxEq(y, x)
		case BigPtr:
			return w.c.False
		}
	case MuxPtr:
		switch y := b.(type) {
		case *Value:
			return w.muxEq(x, y)
		case MuxPtr:
			r := w.c.False
			for i, p := range x.ptrs {
				r = w.c.Or(r, w.c.And(x.conds[i], w.muxEq(y, p)))
			}
			return r
		}
	case BigPtr:
		if y, ok := b.(BigPtr); ok && x.arr == y.arr {
			return w.c.Eq(x.idx, y.idx)
		}
		return w.c.False
	case *ChanV, *MapV:
		return w.c.Bool(a == b)
	case *Closure:
		return w.c.Bool(x == nil && b.(*Closure) == nil)
	case Slice:
		y, _ := b.(Slice)
		return w.c.Bool(x.a == nil && y.a == nil)
	case BigSlice:
		return w.c.False
	case UPtr:
		return w.c.Bool(same(a, b))
	case SlicePtr:
		return w.c.Bool(false)
	case NativeV:
		return w.c.Bool(same(a, b))
	}
	panic(unsupported{fmt.Sprintf("compare %T %T", a, b)})
}

func (w *W) muxEq(m MuxPtr, p *Value) *Term {
	r := w.c.False
	for i, q := range m.ptrs {
		if q == p {
			r = w.c.Or(r, m.conds[i])
		}
	}
	return r
}

func (w *W) equalList(a, b []Value) *Term {
	r := w.c.True
	for i := range a {
		r = w.c.And(r, w.equal(a[i], b[i]))
		if r == w.c.False {
			return r
		}
	}
	return r
}
