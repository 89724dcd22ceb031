package main

// Hash-consed SMT terms with aggressive constant folding and a canonical
// "segment" form for bit-vector slicing, so that byte-wise (de)composition of
// words cancels out syntactically.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
)

type SK uint8

const (
	SBool SK = iota
	SBV
	SF64
	SF32
	SReal
	SArr // BV64 -> BV(E)
)

type Sort struct {
	K SK
	W uint16
	E uint16
}

var (
	BoolS = Sort{K: SBool}
	F64S  = Sort{K: SF64}
	F32S  = Sort{K: SF32}
	RealS = Sort{K: SReal}
)

func BVS(w int) Sort  { return Sort{K: SBV, W: uint16(w)} }
func ArrS(e int) Sort { return Sort{K: SArr, W: 64, E: uint16(e)} }

func (s Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SReal:
		return "Real"
	case SArr:
		return fmt.Sprintf("(Array (_ BitVec 64) (_ BitVec %d))", s.E)
	}
	return "?"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // x = hi<<8|lo
	OSExt
	OSelect
	OStore
	OConstArr
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFFromBits
	OFToBits
	OFRound // x = mode: 0 ceil(RTP) 1 floor(RTN) 2 trunc
	OSToF
	OUToF
	OFToS
	OFToU
	OFToF
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORNeg
	ORLt
	ORLe
	ORFromU
	ORFromS
	OUF // uninterpreted function, name
)

var smtName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFToBits: "fp.to_ieee_bv",
	ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/", ORNeg: "-", ORLt: "<", ORLe: "<=",
}

type Term struct {
	op      Op
	sort    Sort
	a       [3]*Term
	x       uint64
	name    string
	rat     *big.Rat
	id      int32
	lo, hi  uint64 // unsigned interval for BV
	emitted bool
	vars    map[*Term]bool // memo, see varsOf
	varsOK  bool
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c int32
	x       uint64
	name    string
}

// Ctx owns the terms of one exploration job.
type Ctx struct {
	tab    map[tkey]*Term
	next   int32
	True   *Term
	False  *Term
	consts [65][]*Term
	terms  int
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[tkey]*Term)}
	c.True = c.mk(OConst, BoolS, nil, nil, nil, 1, "")
	c.False = c.mk(OConst, BoolS, nil, nil, nil, 0, "")
	return c
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ctx) mk(op Op, s Sort, a, b, d *Term, x uint64, name string) *Term {
	k := tkey{op: op, sort: s, x: x, name: name, a: -1, b: -1, c: -1}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, a: [3]*Term{a, b, d}, x: x, name: name, id: c.next}
	c.next++
	c.tab[k] = t
	if s.K == SBV {
		t.bounds()
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) width() int    { return int(t.sort.W) }

// bounds computes a conservative unsigned interval.
func (t *Term) bounds() {
	m := mask(t.sort.W)
	t.lo, t.hi = 0, m
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OConst:
		t.lo, t.hi = t.x, t.x
	case OIte:
		p, q := t.a[1], t.a[2]
		t.lo, t.hi = min(p.lo, q.lo), max(p.hi, q.hi)
	case OConcat:
		w := b.sort.W
		t.lo, t.hi = a.lo<<w|b.lo, a.hi<<w|b.hi
	case OURem:
		if b.isConst() && b.x > 0 {
			t.hi = min(b.x-1, a.hi)
			if a.hi < b.x {
				t.lo, t.hi = a.lo, a.hi
			}
		}
	case OUDiv:
		if b.isConst() && b.x > 0 {
			t.lo, t.hi = a.lo/b.x, a.hi/b.x
		}
	case OAdd:
		h, cy := bits.Add64(a.hi, b.hi, 0)
		if cy == 0 && h <= m {
			t.lo, t.hi = a.lo+b.lo, h
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
	case OMul:
		hh, hl := bits.Mul64(a.hi, b.hi)
		if hh == 0 && hl <= m {
			t.lo, t.hi = a.lo*b.lo, hl
		}
	case OBAnd:
		t.hi = min(a.hi, b.hi)
	case OBOr, OBXor:
		l := bits.Len64(a.hi | b.hi)
		t.hi = min(m, mask(uint16(l)))
		if t.op == OBOr {
			t.lo = max(a.lo, b.lo)
		}
	case OLshr:
		t.hi = a.hi
		if b.lo < 64 {
			t.hi = a.hi >> b.lo
		} else {
			t.hi = 0
		}
	case OShl:
		if b.hi < 64 && bits.Len64(a.hi)+int(b.hi) <= int(t.sort.W) {
			t.hi = a.hi << b.hi
			t.lo = a.lo << b.lo
		}
	case OExtract:
		hi, lo := t.x>>8, t.x&255
		_ = hi
		if lo == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	}
}

func (c *Ctx) BV(w int, v uint64) *Term {
	v &= mask(uint16(w))
	if v < 256 {
		if c.consts[w] == nil {
			c.consts[w] = make([]*Term, 256)
		}
		if t := c.consts[w][v]; t != nil {
			return t
		}
		t := c.mk(OConst, BVS(w), nil, nil, nil, v, "")
		c.consts[w][v] = t
		return t
	}
	return c.mk(OConst, BVS(w), nil, nil, nil, v, "")
}
func (c *Ctx) Int(v int) *Term { return c.BV(64, uint64(v)) }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) F64(f float64) *Term { return c.mk(OConst, F64S, nil, nil, nil, math.Float64bits(f), "") }
func (c *Ctx) F32(f float32) *Term {
	return c.mk(OConst, F32S, nil, nil, nil, uint64(math.Float32bits(f)), "")
}
func (c *Ctx) Real(r *big.Rat) *Term {
	t := c.mk(OConst, RealS, nil, nil, nil, 0, r.RatString())
	t.rat = r
	return t
}
func (t *Term) f64() float64 { return math.Float64frombits(t.x) }
func (t *Term) f32() float32 { return math.Float32frombits(uint32(t.x)) }

func (c *Ctx) Var(name string, s Sort) *Term { return c.mk(OVar, s, nil, nil, nil, 0, name) }

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.x == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(ONot, BoolS, a, nil, nil, 0, "")
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True || a == b {
		return a
	}
	if a == c.Not(b) {
		return c.False
	}
	if b.op == OAnd && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.op == OAnd && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, BoolS, a, b, nil, 0, "")
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False || a == b {
		return a
	}
	if a == c.Not(b) {
		return c.True
	}
	// absorption: (p and q) or (p and not q) = p
	if a.op == OAnd && b.op == OAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.a[i] == b.a[j] && a.a[1-i] == c.Not(b.a[1-j]) {
					return a.a[i]
				}
			}
		}
	}
	// p or (not p and q) = p or q
	for k := 0; k < 2; k++ {
		p, q := a, b
		if k == 1 {
			p, q = b, a
		}
		if q.op == OAnd {
			np := c.Not(p)
			if q.a[0] == np {
				return c.Or(p, q.a[1])
			}
			if q.a[1] == np {
				return c.Or(p, q.a[0])
			}
			if q.a[0] == p || q.a[1] == p {
				return p
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, BoolS, a, b, nil, 0, "")
}
func (c *Ctx) AndAll(ts ...*Term) *Term {
	r := c.True
	for _, t := range ts {
		r = c.And(r, t)
	}
	return r
}
func (c *Ctx) OrAll(ts ...*Term) *Term {
	r := c.False
	for _, t := range ts {
		r = c.Or(r, t)
	}
	return r
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True // floats: structural equality used only via FEq
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		if a.sort.K == SReal {
			return c.Bool(a.rat.Cmp(b.rat) == 0)
		}
		return c.Bool(a.x == b.x)
	}
	if a.sort.K == SBool {
		if a == c.True {
			return b
		}
		if b == c.True {
			return a
		}
		if a == c.False {
			return c.Not(b)
		}
		if b == c.False {
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort.K == SBV {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
		if b.isConst() {
			switch a.op {
			case OIte:
				p, q := a.a[1], a.a[2]
				if p.isConst() && q.isConst() {
					switch {
					case p.x == b.x && q.x == b.x:
						return c.True
					case p.x == b.x:
						return a.a[0]
					case q.x == b.x:
						return c.Not(a.a[0])
					}
					return c.False
				}
				if p.isConst() && p.x != b.x {
					return c.And(c.Not(a.a[0]), c.Eq(q, b))
				}
				if q.isConst() && q.x != b.x {
					return c.And(a.a[0], c.Eq(p, b))
				}
			case OConcat:
				w := a.a[1].sort.W
				h := c.Eq(a.a[0], c.BV(a.a[0].width(), b.x>>w))
				if h == c.False {
					return h
				}
				if a.a[0].isConst() || a.a[1].isConst() {
					return c.And(h, c.Eq(a.a[1], c.BV(int(w), b.x)))
				}
			case OAdd:
				if a.a[1].isConst() {
					return c.Eq(a.a[0], c.Sub(b, a.a[1]))
				}
			case OBXor:
				if a.a[1].isConst() {
					return c.Eq(a.a[0], c.BV(a.width(), a.a[1].x^b.x))
				}
			}
		} else if a.op == OConcat && b.op == OConcat && a.a[0].sort == b.a[0].sort {
			if a.a[0] == b.a[0] {
				return c.Eq(a.a[1], b.a[1])
			}
			if a.a[1] == b.a[1] {
				return c.Eq(a.a[0], b.a[0])
			}
			// a byte mixed into the low part of both cancels
			if x, y, ok := cancelXor(a.a[1], b.a[1]); ok {
				return c.Eq(c.Concat(a.a[0], x), c.Concat(b.a[0], y))
			}
		} else if a.op == OAdd && b.op == OAdd {
			if a.a[1] == b.a[1] {
				return c.Eq(a.a[0], b.a[0])
			}
			if a.a[0] == b.a[0] {
				return c.Eq(a.a[1], b.a[1])
			}
		} else if x, y, ok := cancelXor(a, b); ok {
			return c.Eq(x, y)
		} else if a.op == OMul && b.op == OMul {
			// multiplication by an odd constant is injective
			if a.a[1] == b.a[1] && a.a[1].isConst() && a.a[1].x&1 == 1 {
				return c.Eq(a.a[0], b.a[0])
			}
			if a.a[0] == b.a[0] && a.a[0].isConst() && a.a[0].x&1 == 1 {
				return c.Eq(a.a[1], b.a[1])
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(OEq, BoolS, a, b, nil, 0, "")
}

// cancelXor strips an operand that two exclusive-ors share.
func cancelXor(a, b *Term) (*Term, *Term, bool) {
	if a.op != OBXor || b.op != OBXor {
		return nil, nil, false
	}
	for i := 0; i < 2; i++ {
		for j := 0; j < 2; j++ {
			if a.a[i] == b.a[j] {
				return a.a[1-i], b.a[1-j], true
			}
		}
	}
	return nil, nil, false
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g == c.True || a == b {
		return a
	}
	if g == c.False {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %v %v", a.sort, b.sort))
	}
	if g.op == ONot {
		return c.Ite(g.a[0], b, a)
	}
	if a.sort.K == SBool {
		if a == c.True {
			return c.Or(g, b)
		}
		if a == c.False {
			return c.And(c.Not(g), b)
		}
		if b == c.True {
			return c.Or(c.Not(g), a)
		}
		if b == c.False {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a[0] == g {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == g {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	if b.op == OIte && b.a[1] == a { // ite(g,a,ite(h,a,q)) = ite(g|h,a,q)
		return c.Ite(c.Or(g, b.a[0]), a, b.a[2])
	}
	return c.mk(OIte, a.sort, g, a, b, 0, "")
}

func sx(v uint64, w uint16) int64 { return int64(v<<(64-w)) >> (64 - w) }

func (c *Ctx) comm(a, b *Term) (*Term, *Term) {
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		return b, a
	}
	return a, b
}

func (c *Ctx) Add(a, b *Term) *Term {
	w := a.width()
	if a.isConst() && b.isConst() {
		return c.BV(w, a.x+b.x)
	}
	a, b = c.comm(a, b)
	if b.isConst() {
		if b.x == 0 {
			return a
		}
		if a.op == OAdd && a.a[1].isConst() {
			return c.Add(a.a[0], c.BV(w, a.a[1].x+b.x))
		}
	}
	// constants last, so that sums of the same parts coincide
	if a.op == OAdd && a.a[1].isConst() {
		return c.Add(c.Add(a.a[0], b), a.a[1])
	}
	if b.op == OAdd && b.a[1].isConst() {
		return c.Add(c.Add(a, b.a[0]), b.a[1])
	}
	// (x - y) + y = x
	if a.op == OSub && a.a[1] == b {
		return a.a[0]
	}
	if b.op == OSub && b.a[1] == a {
		return b.a[0]
	}
	return c.mk(OAdd, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) Sub(a, b *Term) *Term {
	w := a.width()
	if a.isConst() && b.isConst() {
		return c.BV(w, a.x-b.x)
	}
	if a == b {
		return c.BV(w, 0)
	}
	if b.isConst() {
		return c.Add(a, c.BV(w, -b.x))
	}
	if a.op == OAdd {
		if a.a[0] == b {
			return a.a[1]
		}
		if a.a[1] == b {
			return a.a[0]
		}
	}
	return c.mk(OSub, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) Mul(a, b *Term) *Term {
	w := a.width()
	if a.isConst() && b.isConst() {
		return c.BV(w, a.x*b.x)
	}
	a, b = c.comm(a, b)
	if b.isConst() {
		switch {
		case b.x == 0:
			return b
		case b.x == 1:
			return a
		case bits.OnesCount64(b.x) == 1:
			return c.Shl(a, c.BV(w, uint64(bits.TrailingZeros64(b.x))))
		}
		switch {
		case a.op == OMul && a.a[1].isConst():
			return c.Mul(a.a[0], c.BV(w, a.a[1].x*b.x))
		case a.op == OAdd && linear(a, 32) > 0: // k(x + y) = kx + ky
			return c.Add(c.Mul(a.a[0], b), c.Mul(a.a[1], b))
		}
	}
	return c.mk(OMul, a.sort, a, b, nil, 0, "")
}
// linear counts down from n over the parts of a sum.
func linear(t *Term, n int) int {
	if n > 0 && t.op == OAdd {
		n = linear(t.a[1], linear(t.a[0], n-1))
	}
	return n
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.x != 0 {
		return c.BV(a.width(), a.x/b.x)
	}
	if b.isConst() && b.x != 0 && bits.OnesCount64(b.x) == 1 {
		return c.Lshr(a, c.BV(a.width(), uint64(bits.TrailingZeros64(b.x))))
	}
	if n := bits.Len64(a.hi); b.isConst() && b.x != 0 && n < a.width() && a.hi >= b.x {
		return c.ZExt(c.mk(OUDiv, BVS(n), c.Extract(a, n-1, 0), c.BV(n, b.x), nil, 0, ""), a.width())
	}
	return c.mk(OUDiv, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.x != 0 {
		return c.BV(a.width(), a.x%b.x)
	}
	if b.isConst() && b.x != 0 {
		if a.hi < b.x {
			return a
		}
		if bits.OnesCount64(b.x) == 1 {
			return c.BAnd(a, c.BV(a.width(), b.x-1))
		}
		if n := bits.Len64(a.hi); n < a.width() && a.hi >= b.x {
			return c.ZExt(c.mk(OURem, BVS(n), c.Extract(a, n-1, 0), c.BV(n, b.x), nil, 0, ""), a.width())
		}
	}
	return c.mk(OURem, a.sort, a, b, nil, 0, "")
}

// nonneg reports whether the sign bit is known clear.
func (t *Term) nonneg() bool { return t.hi>>(t.sort.W-1) == 0 }

func (c *Ctx) SDiv(a, b *Term) *Term {
	w := a.sort.W
	if a.isConst() && b.isConst() && b.x != 0 {
		x, y := sx(a.x, w), sx(b.x, w)
		if y == -1 {
			return c.BV(int(w), uint64(-x))
		}
		return c.BV(int(w), uint64(x/y))
	}
	if a.nonneg() && b.nonneg() {
		return c.UDiv(a, b)
	}
	return c.mk(OSDiv, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) SRem(a, b *Term) *Term {
	w := a.sort.W
	if a.isConst() && b.isConst() && b.x != 0 {
		x, y := sx(a.x, w), sx(b.x, w)
		if y == -1 {
			return c.BV(int(w), 0)
		}
		return c.BV(int(w), uint64(x%y))
	}
	if a.nonneg() && b.nonneg() {
		return c.URem(a, b)
	}
	return c.mk(OSRem, a.sort, a, b, nil, 0, "")
}

// segment form -------------------------------------------------------------

type seg struct {
	t *Term // nil: constant bits
	v uint64
	w uint16
}

func (c *Ctx) segs(t *Term, out []seg) []seg { // most significant first
	switch t.op {
	case OConst:
		return append(out, seg{nil, t.x, t.sort.W})
	case OConcat:
		return c.segs(t.a[1], c.segs(t.a[0], out))
	}
	return append(out, seg{t, 0, t.sort.W})
}

func (c *Ctx) segTerm(s seg) *Term {
	if s.t == nil {
		return c.BV(int(s.w), s.v)
	}
	return s.t
}

func (c *Ctx) fromSegs(ss []seg) *Term {
	// merge adjacent
	var r []seg
	for _, s := range ss {
		if len(r) > 0 {
			p := &r[len(r)-1]
			if p.t == nil && s.t == nil {
				p.v = p.v<<s.w | s.v
				p.w += s.w
				continue
			}
			if p.t != nil && s.t != nil {
				pb, ph, pl := unext(p.t)
				sb, sh, sl := unext(s.t)
				if pb == sb && pl == sh+1 {
					m := c.Extract(pb, ph, sl)
					*p = seg{m, 0, m.sort.W}
					continue
				}
				// the low bits of an arithmetic term are simplified apart from the rest
				if pl == int(s.w) && (pb.op == OAdd || pb.op == OMul || pb.op == OSub) && c.Extract(pb, pl-1, 0) == s.t {
					m := c.Extract(pb, ph, 0)
					*p = seg{m, 0, m.sort.W}
					continue
				}
			}
		}
		r = append(r, s)
	}
	t := c.segTerm(r[len(r)-1])
	for i := len(r) - 2; i >= 0; i-- {
		h := c.segTerm(r[i])
		t = c.mk(OConcat, BVS(h.width()+t.width()), h, t, nil, 0, "")
	}
	return t
}

func unext(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.a[0], int(t.x >> 8), int(t.x & 255)
	}
	return t, t.width() - 1, 0
}

func (c *Ctx) Concat(a, b *Term) *Term { return c.fromSegs(c.segs(b, c.segs(a, nil))) }

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if lo == 0 && hi == t.width()-1 {
		return t
	}
	w := hi - lo + 1
	switch t.op {
	case OConst:
		return c.BV(w, t.x>>uint(lo))
	case OExtract:
		l := int(t.x & 255)
		return c.Extract(t.a[0], hi+l, lo+l)
	case OConcat:
		ss := c.segs(t, nil)
		pos := t.width()
		var out []seg
		for _, s := range ss {
			sh, sl := pos-1, pos-int(s.w)
			pos = sl
			h, l := min(hi, sh), max(lo, sl)
			if h < l {
				continue
			}
			if s.t == nil {
				out = append(out, seg{nil, s.v >> uint(l-sl) & mask(uint16(h-l+1)), uint16(h - l + 1)})
			} else {
				e := c.Extract(s.t, h-sl, l-sl)
				out = c.segs(e, out)
			}
		}
		return c.fromSegs(out)
	case OIte:
		if t.a[1].isConst() || t.a[2].isConst() {
			return c.Ite(t.a[0], c.Extract(t.a[1], hi, lo), c.Extract(t.a[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		x, y := c.Extract(t.a[0], hi, lo), c.Extract(t.a[1], hi, lo)
		switch t.op {
		case OBAnd:
			return c.BAnd(x, y)
		case OBOr:
			return c.BOr(x, y)
		}
		return c.BXor(x, y)
	case OAdd, OMul, OSub:
		if lo == 0 && w <= 16 { // truncation commutes with modular arithmetic
			x, y := c.Extract(t.a[0], hi, lo), c.Extract(t.a[1], hi, lo)
			switch t.op {
			case OAdd:
				return c.Add(x, y)
			case OMul:
				return c.Mul(x, y)
			}
			return c.Sub(x, y)
		}
	case OSExt:
		in := t.a[0]
		if hi < in.width() {
			return c.Extract(in, hi, lo)
		}
	}
	if lo > 0 && bits.Len64(t.hi) <= lo {
		return c.BV(w, 0)
	}
	return c.mk(OExtract, BVS(w), t, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == t.width() {
		return t
	}
	if w < t.width() {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(c.BV(w-t.width(), 0), t)
}
func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == t.width() {
		return t
	}
	if w < t.width() {
		return c.Extract(t, w-1, 0)
	}
	if t.isConst() {
		return c.BV(w, uint64(sx(t.x, t.sort.W)))
	}
	if t.nonneg() {
		return c.ZExt(t, w)
	}
	return c.mk(OSExt, BVS(w), t, nil, nil, 0, "")
}

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	w := a.width()
	if a.isConst() && b.isConst() {
		switch op {
		case OBAnd:
			return c.BV(w, a.x&b.x)
		case OBOr:
			return c.BV(w, a.x|b.x)
		}
		return c.BV(w, a.x^b.x)
	}
	a, b = c.comm(a, b)
	m := mask(uint16(w))
	if b.isConst() {
		switch {
		case b.x == 0 && op == OBAnd:
			return b
		case b.x == 0:
			return a
		case b.x == m && op == OBAnd:
			return a
		case b.x == m && op == OBOr:
			return b
		case b.x == m && op == OBXor:
			return c.BNot(a)
		}
	}
	if a == b {
		if op == OBXor {
			return c.BV(w, 0)
		}
		return a
	}
	// piecewise over segments
	sa, sb := c.segs(a, nil), c.segs(b, nil)
	if len(sa) > 1 || len(sb) > 1 || (b.isConst() && op != OBXor && runs(b.x, w) <= 4) {
		if b.isConst() && op != OBXor {
			sb = runSegs(b.x, w)
		}
		// refine
		var out []seg
		i, j := 0, 0
		var ra, rb uint16 = sa[0].w, sb[0].w // remaining
		ok := true
		residual := 0
		for i < len(sa) && j < len(sb) {
			n := min(ra, rb)
			pa := c.subseg(sa[i], ra, n)
			pb := c.subseg(sb[j], rb, n)
			var r *Term
			nm := mask(n)
			if pa.t == nil && pb.t == nil {
				switch op {
				case OBAnd:
					r = c.BV(int(n), pa.v&pb.v)
				case OBOr:
					r = c.BV(int(n), pa.v|pb.v)
				default:
					r = c.BV(int(n), pa.v^pb.v)
				}
			} else if pa.t == nil || pb.t == nil {
				k, s := pa, pb
				if pb.t == nil {
					k, s = pb, pa
				}
				switch {
				case k.v == 0 && op == OBAnd:
					r = c.BV(int(n), 0)
				case k.v == 0:
					r = s.t
				case k.v == nm && op == OBAnd:
					r = s.t
				case k.v == nm && op == OBOr:
					r = c.BV(int(n), nm)
				case k.v == nm && op == OBXor:
					r = c.BNot(s.t)
				default:
					residual++
					r = c.mk(op, BVS(int(n)), s.t, c.BV(int(n), k.v), nil, 0, "")
				}
			} else if pa.t == pb.t && op != OBXor {
				r = pa.t
			} else if pa.t == pb.t {
				r = c.BV(int(n), 0)
			} else {
				residual++
				x, y := pa.t, pb.t
				if x.id > y.id {
					x, y = y, x
				}
				r = c.mk(op, BVS(int(n)), x, y, nil, 0, "")
			}
			out = c.segs(r, out)
			ra -= n
			rb -= n
			if ra == 0 {
				i++
				if i < len(sa) {
					ra = sa[i].w
				}
			}
			if rb == 0 {
				j++
				if j < len(sb) {
					rb = sb[j].w
				}
			}
		}
		if ok {
			return c.fromSegs(out)
		}
	}
	return c.mk(op, a.sort, a, b, nil, 0, "")
}

func (c *Ctx) subseg(s seg, rem, n uint16) seg {
	// the n most significant of the rem remaining low bits of s
	if s.t == nil {
		return seg{nil, s.v >> (rem - n) & mask(n), n}
	}
	e := c.Extract(s.t, int(rem)-1, int(rem-n))
	if e.isConst() {
		return seg{nil, e.x, n}
	}
	return seg{e, 0, n}
}

func runs(x uint64, w int) int {
	n := 1
	for i := 1; i < w; i++ {
		if (x>>uint(i))&1 != (x>>uint(i-1))&1 {
			n++
		}
	}
	return n
}
func runSegs(x uint64, w int) []seg {
	var out []seg
	i := w - 1
	for i >= 0 {
		b := (x >> uint(i)) & 1
		j := i
		for j >= 0 && (x>>uint(j))&1 == b {
			j--
		}
		n := uint16(i - j)
		v := uint64(0)
		if b == 1 {
			v = mask(n)
		}
		out = append(out, seg{nil, v, n})
		i = j
	}
	return out
}

func (c *Ctx) BAnd(a, b *Term) *Term { return c.bitop(OBAnd, a, b) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.bitop(OBOr, a, b) }
func (c *Ctx) BXor(a, b *Term) *Term { return c.bitop(OBXor, a, b) }
func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.width(), ^a.x)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return c.mk(OBNot, a.sort, a, nil, nil, 0, "")
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.BV(a.width(), -a.x)
	}
	if a.op == ONeg {
		return a.a[0]
	}
	return c.mk(ONeg, a.sort, a, nil, nil, 0, "")
}
func (c *Ctx) Shl(a, b *Term) *Term {
	w := a.width()
	if b.isConst() {
		if b.x == 0 {
			return a
		}
		if b.x >= uint64(w) {
			return c.BV(w, 0)
		}
		k := int(b.x)
		return c.Concat(c.Extract(a, w-1-k, 0), c.BV(k, 0))
	}
	return c.mk(OShl, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) Lshr(a, b *Term) *Term {
	w := a.width()
	if b.isConst() {
		if b.x == 0 {
			return a
		}
		if b.x >= uint64(w) {
			return c.BV(w, 0)
		}
		k := int(b.x)
		return c.Concat(c.BV(k, 0), c.Extract(a, w-1, k))
	}
	return c.mk(OLshr, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) Ashr(a, b *Term) *Term {
	w := a.sort.W
	if a.nonneg() {
		return c.Lshr(a, b)
	}
	if b.isConst() {
		if b.x == 0 {
			return a
		}
		k := b.x
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if a.isConst() {
			return c.BV(int(w), uint64(sx(a.x, w)>>k))
		}
		return c.SExt(c.Extract(a, int(w)-1, int(k)), int(w))
	}
	return c.mk(OAshr, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) Ult(a, b *Term) *Term {
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi || a == b {
		return c.False
	}
	// zero-extended operands
	if a.op == OConcat && a.a[0].isConst() && a.a[0].x == 0 && b.isConst() {
		w := a.a[1].width()
		if b.x <= mask(uint16(w)) {
			return c.Ult(a.a[1], c.BV(w, b.x))
		}
	}
	if b.isConst() && b.x == 1 {
		return c.Eq(a, c.BV(a.width(), 0))
	}
	if a.isConst() && a.x == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.mk(OUlt, BoolS, a, b, nil, 0, "")
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	w := a.sort.W
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.x, w) < sx(b.x, w))
	}
	if a == b {
		return c.False
	}
	if a.nonneg() && b.nonneg() {
		return c.Ult(a, b)
	}
	if b.isConst() && b.x == 0 { // sign test
		if a.nonneg() {
			return c.False
		}
	}
	if a.isConst() && a.nonneg() && b.lo>>(w-1) == 1 {
		return c.False
	}
	return c.mk(OSlt, BoolS, a, b, nil, 0, "")
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Select(arr, i *Term) *Term {
	for {
		if arr.op == OConstArr {
			return arr.a[0]
		}
		if arr.op == OStore {
			e := c.Eq(arr.a[1], i)
			if e == c.True {
				return arr.a[2]
			}
			if e == c.False {
				arr = arr.a[0]
				continue
			}
		}
		break
	}
	return c.mk(OSelect, BVS(int(arr.sort.E)), arr, i, nil, 0, "")
}
func (c *Ctx) Store(arr, i, v *Term) *Term {
	if arr.op == OStore && arr.a[1] == i {
		arr = arr.a[0]
	}
	return c.mk(OStore, arr.sort, arr, i, v, 0, "")
}
func (c *Ctx) ConstArr(v *Term) *Term {
	return c.mk(OConstArr, ArrS(v.width()), v, nil, nil, 0, "")
}

// floats --------------------------------------------------------------------

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		if a.sort.K == SF64 {
			x, y := a.f64(), b.f64()
			switch op {
			case OFAdd:
				return c.F64(x + y)
			case OFSub:
				return c.F64(x - y)
			case OFMul:
				return c.F64(x * y)
			case OFDiv:
				return c.F64(x / y)
			}
		} else {
			x, y := a.f32(), b.f32()
			switch op {
			case OFAdd:
				return c.F32(x + y)
			case OFSub:
				return c.F32(x - y)
			case OFMul:
				return c.F32(x * y)
			case OFDiv:
				return c.F32(x / y)
			}
		}
	}
	if op == OFAdd {
		x, k := fromUint(a), b
		if x == nil {
			x, k = fromUint(b), a
		}
		if x != nil && k.isConst() {
			if v := k.f64(); v > 0 && v < exactInt && v == math.Floor(v) && x.hi <= exactInt-uint64(v) {
				return c.mk(OUToF, a.sort, c.Add(c.ZExt(x, 64), c.BV(64, uint64(v))), nil, nil, 0, "")
			}
		}
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, a.sort, a, b, nil, 0, "")
}
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		var x, y float64
		if a.sort.K == SF64 {
			x, y = a.f64(), b.f64()
		} else {
			x, y = float64(a.f32()), float64(b.f32())
		}
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		case OFEq:
			return c.Bool(x == y)
		}
	}
	if r := c.fcmpInt(op, a, b); r != nil {
		return r
	}
	if op == OFEq {
		if a == b {
			return c.Not(c.FIsNaN(a))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(op, BoolS, a, b, nil, 0, "")
}

// fromUint is the integer a float was converted from if it was not negative.
func fromUint(f *Term) *Term {
	if f.sort.K == SF64 && (f.op == OUToF || f.op == OSToF && f.a[0].nonneg()) && f.a[0].width() <= 64 {
		return f.a[0]
	}
	return nil
}

const exactInt = 1 << 53 // integers up to here convert to float64 exactly

// fcmpInt compares converted integers as integers where that is exact.
func (c *Ctx) fcmpInt(op Op, a, b *Term) *Term {
	x, y := fromUint(a), fromUint(b)
	switch {
	case x != nil && y != nil:
		if x.hi > exactInt || y.hi > exactInt {
			return nil
		}
		x, y = c.ZExt(x, 64), c.ZExt(y, 64)
		switch op {
		case OFLt:
			return c.Ult(x, y)
		case OFLe:
			return c.Ule(x, y)
		}
		return c.Eq(x, y)
	case x != nil && b.isConst():
		x = c.ZExt(x, 64)
		v := b.f64()
		k := func(f float64) *Term { return c.BV(64, uint64(f)) }
		switch op {
		case OFLt:
			if v <= 0 {
				return c.False
			} else if v <= exactInt {
				return c.Ult(x, k(math.Ceil(v)))
			}
		case OFLe:
			if v < 0 {
				return c.False
			} else if v < exactInt {
				return c.Ule(x, k(math.Floor(v)))
			}
		default:
			if v < 0 || v < exactInt && v != math.Floor(v) {
				return c.False
			} else if v < exactInt {
				return c.Eq(x, k(v))
			}
		}
	case y != nil && a.isConst():
		y = c.ZExt(y, 64)
		v := a.f64()
		k := func(f float64) *Term { return c.BV(64, uint64(f)) }
		switch op {
		case OFLt:
			if v < 0 {
				return c.True
			} else if v < exactInt {
				return c.Ult(k(math.Floor(v)), y)
			}
		case OFLe:
			if v <= 0 {
				return c.True
			} else if v <= exactInt {
				return c.Ule(k(math.Ceil(v)), y)
			}
		default:
			return c.fcmpInt(op, b, a)
		}
	}
	return nil
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if fromUint(a) != nil || a.op == OSToF {
		return c.False
	}
	if a.isConst() {
		if a.sort.K == SF64 {
			return c.Bool(math.IsNaN(a.f64()))
		}
		return c.Bool(a.f32() != a.f32())
	}
	return c.mk(OFIsNaN, BoolS, a, nil, nil, 0, "")
}
func (c *Ctx) FFromBits(b *Term) *Term {
	if b.isConst() {
		if b.sort.W == 64 {
			return c.F64(math.Float64frombits(b.x))
		}
		return c.F32(math.Float32frombits(uint32(b.x)))
	}
	if b.op == OFToBits {
		return b.a[0]
	}
	if b.op == OIte {
		return c.Ite(b.a[0], c.FFromBits(b.a[1]), c.FFromBits(b.a[2]))
	}
	s := F64S
	if b.sort.W == 32 {
		s = F32S
	}
	return c.mk(OFFromBits, s, b, nil, nil, 0, "")
}
func (c *Ctx) FToBits(f *Term) *Term {
	w := 64
	if f.sort.K == SF32 {
		w = 32
	}
	if f.isConst() {
		return c.BV(w, f.x)
	}
	if f.op == OFFromBits {
		return f.a[0]
	}
	if f.op == OIte {
		return c.Ite(f.a[0], c.FToBits(f.a[1]), c.FToBits(f.a[2]))
	}
	return c.mk(OFToBits, BVS(w), f, nil, nil, 0, "")
}
func (c *Ctx) FUn(op Op, a *Term) *Term {
	if a.isConst() && a.sort.K == SF64 {
		switch op {
		case OFNeg:
			return c.F64(-a.f64())
		case OFAbs:
			return c.F64(math.Abs(a.f64()))
		case OFSqrt:
			return c.F64(math.Sqrt(a.f64()))
		}
	}
	return c.mk(op, a.sort, a, nil, nil, 0, "")
}
func (c *Ctx) FRound(a *Term, mode uint64) *Term {
	if a.isConst() && a.sort.K == SF64 {
		switch mode {
		case 0:
			return c.F64(math.Ceil(a.f64()))
		case 1:
			return c.F64(math.Floor(a.f64()))
		case 2:
			return c.F64(math.Trunc(a.f64()))
		}
	}
	return c.mk(OFRound, a.sort, a, nil, nil, mode, "")
}
func (c *Ctx) IToF(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.F64(float64(sx(a.x, a.sort.W)))
		}
		return c.F64(float64(a.x))
	}
	if signed && !a.nonneg() {
		return c.mk(OSToF, F64S, a, nil, nil, 0, "")
	}
	return c.mk(OUToF, F64S, a, nil, nil, 0, "")
}
func (c *Ctx) FToI(a *Term, w int, signed bool) *Term {
	if a.isConst() {
		var f float64
		if a.sort.K == SF64 {
			f = a.f64()
		} else {
			f = float64(a.f32())
		}
		if signed {
			switch w {
			case 64:
				return c.BV(w, uint64(int64(f)))
			case 32:
				return c.BV(w, uint64(int32(f)))
			default:
				return c.BV(w, uint64(int64(f)))
			}
		}
		switch w {
		case 64:
			return c.BV(w, uint64(f))
		case 32:
			return c.BV(w, uint64(uint32(f)))
		default:
			return c.BV(w, uint64(uint8(f)))
		}
	}
	if signed {
		return c.mk(OFToS, BVS(w), a, nil, nil, 0, "")
	}
	return c.mk(OFToU, BVS(w), a, nil, nil, 0, "")
}
func (c *Ctx) FToF(a *Term, to SK) *Term {
	if a.sort.K == to {
		return a
	}
	if a.isConst() {
		if to == SF32 {
			return c.F32(float32(a.f64()))
		}
		return c.F64(float64(a.f32()))
	}
	if to == SF32 {
		return c.mk(OFToF, F32S, a, nil, nil, 0, "")
	}
	return c.mk(OFToF, F64S, a, nil, nil, 0, "")
}

// reals -----------------------------------------------------------------------

func (c *Ctx) RBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Rat)
		switch op {
		case ORAdd:
			return c.Real(r.Add(a.rat, b.rat))
		case ORSub:
			return c.Real(r.Sub(a.rat, b.rat))
		case ORMul:
			return c.Real(r.Mul(a.rat, b.rat))
		case ORDiv:
			if b.rat.Sign() != 0 {
				return c.Real(r.Quo(a.rat, b.rat))
			}
		}
	}
	zero := func(t *Term) bool { return t.isConst() && t.rat.Sign() == 0 }
	one := func(t *Term) bool {
		return t.isConst() && t.rat.IsInt() && t.rat.Num().IsInt64() && t.rat.Num().Int64() == 1
	}
	switch op {
	case ORAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case ORSub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.Real(new(big.Rat))
		}
	case ORMul:
		if zero(a) || one(b) {
			return a
		}
		if zero(b) || one(a) {
			return b
		}
	case ORDiv:
		if one(b) {
			return a
		}
	}
	if (op == ORAdd || op == ORMul) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, RealS, a, b, nil, 0, "")
}
func (c *Ctx) RCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		k := a.rat.Cmp(b.rat)
		if op == ORLt {
			return c.Bool(k < 0)
		}
		return c.Bool(k <= 0)
	}
	if a == b {
		return c.Bool(op == ORLe)
	}
	return c.mk(op, BoolS, a, b, nil, 0, "")
}

func (c *Ctx) UF(name string, s Sort, args ...*Term) *Term {
	var a [3]*Term
	copy(a[:], args)
	return c.mk(OUF, s, a[0], a[1], a[2], uint64(len(args)), name)
}

// varsOf returns the variables of t (memoised per term).
func varsOf(t *Term) map[*Term]bool {
	if t.varsOK {
		return t.vars
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.varsOK {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 {
			k := f.t.a[f.i]
			f.i++
			if k != nil && !k.varsOK {
				st = append(st, fr{k, 0})
			}
			continue
		}
		var m map[*Term]bool
		if f.t.op == OVar {
			m = map[*Term]bool{f.t: true}
		} else {
			shared := true
			for _, k := range f.t.a {
				if k == nil || len(k.vars) == 0 {
					continue
				}
				if m == nil {
					m = k.vars
					continue
				}
				sub := true
				for v := range k.vars {
					if !m[v] {
						sub = false
						break
					}
				}
				if sub {
					continue
				}
				if shared {
					n := make(map[*Term]bool, len(m)+len(k.vars))
					for v := range m {
						n[v] = true
					}
					m = n
					shared = false
				}
				for v := range k.vars {
					m[v] = true
				}
			}
		}
		f.t.vars = m
		f.t.varsOK = true
		st = st[:len(st)-1]
	}
	return t.vars
}
