package main

import (
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// An item is a byte string that stands for every byte string with its hash:
// nd.Item makes one whose 64-bit FNV-1 hash is an unconstrained variable. The
// hash functions of the code under test answer with that variable for it (C25
// decides separately that they compute FNV-1), so that a property over hashed
// items is decided for every hash value. In a model the bytes are computed
// from the value of the hash, so that a counterexample is a real item.

const itemLen = 22

type item struct {
	b []*Term
	h *Term
}

func (w *W) newItem(label string) []*Term {
	it := item{h: w.freshVar(label, BVS(64))}
	it.b = make([]*Term, itemLen)
	for i := range it.b {
		it.b[i] = w.freshVar(label, BVS(8))
	}
	w.items = append(w.items, it)
	w.inputs = append(w.inputs, inputRec{kind: "item", label: label, terms: []*Term{it.h}})
	return it.b
}

func (w *W) itemHash(b []*Term) *Term {
	for _, it := range w.items {
		if len(b) == len(it.b) {
			same := true
			for i := range b {
				if b[i] != it.b[i] {
					same = false
					break
				}
			}
			if same {
				return it.h
			}
		}
	}
	return nil
}

// An advice intrinsic may decline, in which case the function is interpreted.
var advice = map[string]func(w *W, fn *ssa.Function, a []Value) (Value, bool){}

func init() {
	const fnv = "github.com/iand/starbow/internal/hash/fnv"
	one := func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if len(w.items) == 0 {
			return nil, false
		}
		if _, big := a[0].(BigSlice); big {
			return nil, false
		}
		h := w.itemHash(w.byteTerms(a[0]))
		return h, h != nil
	}
	advice[fnv+".Sum64"] = one
	advice[fnv+".String64"] = one
	advice[ndPath+".Fnv1"] = one
	stream := func(w *W, fn *ssa.Function, a []Value) (Value, bool) {
		if len(w.items) == 0 {
			return nil, false
		}
		if _, big := a[1].(BigSlice); big {
			return nil, false
		}
		p, ok := a[0].(*Value)
		if !ok {
			return nil, false
		}
		if s, ok := w.load(p).(*Term); !ok || !s.isConst() || s.x != 14695981039346656037 {
			return nil, false
		}
		h := w.itemHash(w.byteTerms(a[1]))
		if h == nil {
			return nil, false
		}
		w.store(p, h)
		return Tuple{w.c.Int(itemLen), Iface{}}, true
	}
	advice["(*"+fnv+".Fnv64).Write"] = stream
	advice["(*"+fnv+".Fnv64).WriteString"] = stream
}

const (
	fnvOffset = 14695981039346656037
	fnvPrime  = 1099511628211
)

// itemBytes is an item of itemLen bytes whose FNV-1 hash is h. Each byte adds
// to the multiplied state a difference that depends on the byte, so the wanted
// hash is a closest vector problem in a fixed lattice, whose reduced basis is
// below; the two leading bytes are varied until each difference can be had.
func itemBytes(h uint64) []byte {
	for pre := 0; pre < 1<<16; pre++ {
		s := uint64(fnvOffset)
		out := []byte{byte(pre), byte(pre >> 8)}
		for _, b := range out {
			s = s*fnvPrime ^ uint64(b)
		}
		t := s
		for i := 0; i < itemLen-2; i++ {
			t *= fnvPrime
		}
		ok := true
		for _, d := range closest(h - t) {
			x := s * fnvPrime
			if lo := int64(x&255) + d; lo < 0 || lo > 255 {
				ok = false
				break
			}
			s = x + uint64(d)
			out = append(out, byte(x^s))
		}
		if ok && s == h {
			return out
		}
	}
	panic("no item for a hash")
}

var gram struct {
	sync.Once
	g  [][]*big.Float
	nn []*big.Float
}

func flt(x *big.Int) *big.Float { return new(big.Float).SetPrec(300).SetInt(x) }

// closest is a short vector d with sum of d[i]*prime^(n-1-i) equal to t.
func closest(t uint64) []int64 {
	n := len(itemBasis)
	dot := func(a, b []*big.Float) *big.Float {
		s := new(big.Float).SetPrec(300)
		for i := range a {
			s.Add(s, new(big.Float).SetPrec(300).Mul(a[i], b[i]))
		}
		return s
	}
	gram.Do(func() {
		for _, row := range itemBasis {
			r := make([]*big.Float, n)
			v := make([]*big.Float, n)
			for i, x := range row {
				r[i] = flt(big.NewInt(int64(x)))
				v[i] = flt(big.NewInt(int64(x)))
			}
			for k, g := range gram.g {
				mu := dot(r, g)
				mu.Quo(mu, gram.nn[k])
				for i := range v {
					v[i].Sub(v[i], new(big.Float).SetPrec(300).Mul(mu, g[i]))
				}
			}
			gram.g = append(gram.g, v)
			gram.nn = append(gram.nn, dot(v, v))
		}
	})
	v := make([]*big.Int, n)
	for i := range v {
		v[i] = new(big.Int)
	}
	v[n-1].SetUint64(t)
	for i := n - 1; i >= 0; i-- {
		f := make([]*big.Float, n)
		for j := range f {
			f[j] = flt(v[j])
		}
		q := dot(f, gram.g[i])
		q.Quo(q, gram.nn[i])
		half := big.NewFloat(0.5)
		if q.Sign() < 0 {
			half = big.NewFloat(-0.5)
		}
		q.Add(q, half)
		k, _ := q.Int(nil)
		for j := range v {
			v[j].Sub(v[j], new(big.Int).Mul(k, big.NewInt(int64(itemBasis[i][j]))))
		}
	}
	out := make([]int64, n)
	for i := range v {
		out[i] = v[i].Int64()
	}
	return out
}

// itemBasis is an LLL reduced basis of the vectors with sum of
// d[i]*prime^(19-i) equal to zero modulo 2^64.
var itemBasis = [][]int8{
	{-1, 1, -2, -2, 0, 1, 0, -5, 4, -2, -2, -3, 1, -1, 2, 0, -1, 0, 1, 5},
	{2, -2, 1, 0, -1, 0, -2, 1, 8, -1, -5, -3, -3, 2, 0, 7, 0, 1, -1, -2},
	{4, 3, 0, -8, 4, 0, -5, 0, 6, -2, -2, -4, 0, -1, 0, -4, 2, 3, 1, -9},
	{0, 0, 4, -2, 0, -6, -3, 3, 1, 10, -8, -3, 3, -5, -3, -3, 2, 3, 1, -4},
	{4, 2, -1, -5, 2, -4, 6, 5, -1, 2, -5, -3, 4, -5, 1, 3, 2, 4, 0, -3},
	{1, -3, -2, 5, 2, 6, 1, 3, 0, -7, 0, 1, 1, 1, 2, -5, -3, -5, 1, 3},
	{-2, -5, -3, 6, 2, 2, -2, 3, -1, -4, 7, -1, -7, 2, -2, 5, 2, 2, -2, 6},
	{1, 11, 2, 3, 2, -1, 0, 2, -4, -2, -4, 1, 2, 1, 4, -3, -2, -4, 0, 5},
	{0, 4, 5, 8, 0, 0, 2, -2, 5, -7, 1, 3, -6, 2, -5, 4, -1, -2, -2, 1},
	{0, -1, -2, 0, -1, 1, -6, 7, 5, -4, 3, 2, -5, 5, 4, 0, 1, -2, -2, 9},
	{-8, 2, 0, 3, 2, -6, 3, -6, -2, 1, -2, 0, -1, 2, -1, 4, -3, 2, 2, 4},
	{4, 3, 1, -5, -4, -1, 1, 1, -5, 0, 2, -1, 7, -2, -1, -2, 2, 3, 3, -2},
	{2, 0, -5, 3, -1, 0, 1, -2, 0, 0, 2, 2, -2, 6, 3, 2, 1, -7, -2, 7},
	{-2, -6, -2, 1, 1, 5, -1, 0, 2, -3, 5, 2, 3, 3, -4, -6, 2, -3, 1, 8},
	{1, -6, 0, -5, -5, -3, 2, 0, -3, 1, 2, 2, 2, -3, 3, 5, 0, 3, -3, 1},
	{-5, 1, -2, -3, 6, 3, 4, -4, -1, -8, 5, -3, -1, -3, -1, -4, -1, -1, 0, -6},
	{3, 7, 1, -1, 4, 3, 0, 1, -3, -3, 2, 2, 2, -3, -1, 0, -3, -6, -3, 2},
	{-4, -1, 2, 0, 4, -5, 3, 1, -1, 1, 3, 5, 3, -1, -1, -4, 6, -3, 1, -1},
	{-2, -3, 2, 2, 3, 1, -4, -4, -2, 1, 9, -1, -7, 3, 4, 4, -4, 1, 1, 4},
	{3, -2, -3, 6, 1, 5, -2, 7, 0, -3, 2, -1, 4, 3, 2, 3, 3, 3, -3, -2},
}
