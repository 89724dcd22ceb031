package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, fr *frame, fn *ssa.Function, a []Value) Value

const ndPath = "github.com/iand/starbow/internal/zzverif/nd"

var intrinsics map[string]intrinsic

type floatTok struct {
	f     *Term
	bytes []*Term
}

func nop(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
	return w.zero(fn.Signature.Results())
}

func (w *W) term(v Value) *Term { return v.(*Term) }

func (w *W) conc(v Value, why string) int { return int(w.concretise(v.(*Term), why)) }

func constStr(v Value) string {
	s, ok := v.(StrV)
	if !ok || !s.concrete() {
		return "?"
	}
	return s.s
}

// newErr builds an error value with the given text.
func (w *W) newErr(text StrV) Iface {
	var cell Value = Struct{text}
	return Iface{t: w.eng.errStrType, v: &cell}
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }

	// harness primitives -------------------------------------------------------------
	nd := func(name string, f intrinsic) { reg(ndPath+"."+name, f) }
	scalar := func(name string, width int) {
		nd(name, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			v := w.freshVar(constStr(a[0]), BVS(width))
			w.inputs = append(w.inputs, inputRec{kind: "u", label: constStr(a[0]), terms: []*Term{v}})
			return v
		})
	}
	scalar("U64", 64)
	scalar("U32", 32)
	scalar("U16", 16)
	scalar("U8", 8)
	nd("Bool", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		v := w.freshVar(constStr(a[0]), BVS(1))
		w.inputs = append(w.inputs, inputRec{kind: "u", label: constStr(a[0]), terms: []*Term{v}})
		return w.c.Eq(v, w.c.BV(1, 1))
	})
	nd("Int", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := int64(w.term(a[1]).x), int64(w.term(a[2]).x)
		if lo == hi {
			w.inputs = append(w.inputs, inputRec{kind: "u", label: constStr(a[0]), terms: []*Term{w.c.Int(int(lo))}})
			return w.c.Int(int(lo))
		}
		span := uint64(hi - lo)
		bits := 1
		for bits < 64 && span>>uint(bits) != 0 {
			bits++
		}
		v := w.freshVar(constStr(a[0]), BVS(bits))
		x := w.c.Add(w.c.ZExt(v, 64), w.c.BV(64, uint64(lo)))
		if span != mask(uint16(bits)) {
			w.assume(w.c.Ule(v, w.c.BV(bits, span)))
		}
		w.inputs = append(w.inputs, inputRec{kind: "u", label: constStr(a[0]), terms: []*Term{x}})
		return x
	})
	bytesOf := func(w *W, label string, n, bits int) []*Term {
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = w.c.ZExt(w.freshVar(label, BVS(bits)), 8)
		}
		w.inputs = append(w.inputs, inputRec{kind: "bytes", label: label, terms: ts})
		return ts
	}
	nd("Bytes", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.termSlice(bytesOf(w, constStr(a[0]), w.conc(a[1], "n"), 8))
	})
	nd("Item", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.termSlice(w.newItem(constStr(a[0])))
	})
	nd("Ascii", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.termSlice(bytesOf(w, constStr(a[0]), w.conc(a[1], "n"), 7))
	})
	nd("F64", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		var v, t *Term
		if w.reals {
			v = w.freshVar(constStr(a[0]), RealS)
			t = v
		} else {
			v = w.freshVar(constStr(a[0]), BVS(64))
			t = w.c.FFromBits(v)
		}
		w.inputs = append(w.inputs, inputRec{kind: "f", label: constStr(a[0]), terms: []*Term{v}})
		return t
	})
	nd("FloatText", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.termSlice(w.floatToken(a[0].(*Term)))
	})
	nd("BigBytes", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		n := w.conc(a[1], "n")
		v := w.freshVar(constStr(a[0]), ArrS(8))
		arr := &BigArr{w: 8, base: v}
		arr.t = v
		w.inputs = append(w.inputs, inputRec{kind: "big", label: constStr(a[0]), terms: []*Term{v}, conc: uint64(n)})
		return BigSlice{arr, w.c.BV(64, 0), w.c.Int(n), w.c.Int(n)}
	})
	nd("Choose", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		k := w.choose(w.conc(a[0], "n"))
		w.inputs = append(w.inputs, inputRec{kind: "u", label: "choose", terms: []*Term{w.c.Int(k)}})
		return w.c.Int(k)
	})
	nd("Concrete", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.c.Int(w.conc(a[0], "nd.Concrete"))
	})
	nd("Tier", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.eng.thorough {
			return a[1]
		}
		return a[0]
	})
	nd("Symbolic", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.c.True })
	nd("Assume", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.assume(a[0].(*Term))
		return Tuple(nil)
	})
	nd("Assert", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.assert(a[0].(*Term), "", constStr(a[1]))
		return Tuple(nil)
	})
	nd("Known", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.assert(a[0].(*Term), constStr(a[1]), constStr(a[2]))
		return Tuple(nil)
	})
	nd("Observe", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"observe"})
		}
		w.obs = append(w.obs, obsRec{constStr(a[0]), []*Term{a[1].(*Term)}, "u"})
		return Tuple(nil)
	})
	nd("ObserveF", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"observe"})
		}
		w.obs = append(w.obs, obsRec{constStr(a[0]), []*Term{a[1].(*Term)}, "f"})
		return Tuple(nil)
	})
	nd("ObserveBytes", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"observe"})
		}
		w.obs = append(w.obs, obsRec{constStr(a[0]), w.byteTerms(a[1]), "b"})
		return Tuple(nil)
	})
	nd("Close", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.sort.K == SReal {
			return w.equal(x, y)
		}
		return w.c.Or(w.c.FCmp(OFEq, x, y), w.c.And(w.c.FIsNaN(x), w.c.FIsNaN(y)))
	})
	nd("SameF", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.sort.K == SReal {
			return w.equal(x, y)
		}
		return w.c.Or(w.c.FCmp(OFEq, x, y), w.c.And(w.c.FIsNaN(x), w.c.FIsNaN(y)))
	})
	nd("Start", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		depth, cf := w.depth, w.curFrame
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(blocked); ok {
						w.depth, w.curFrame = depth, cf
						return
					}
					panic(x)
				}
			}()
			w.callClosure(fr, a[0].(*Closure), nil, nil)
		}()
		return Tuple(nil)
	})
	nd("pumpWith", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.sigPump = a[0].(*Closure)
		return Tuple(nil)
	})
	nd("Settle", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple(nil) })
	nd("Served", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.c.Bool(w.served > 0 && !w.shut)
	})
	nd("Par", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		fs := a[0].(Slice)
		w.runPar(fr, append([]Value(nil), fs.a...))
		return Tuple(nil)
	})
	nd("Go", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.par != nil && w.par.cur != nil {
			w.par.spawn(a[0].(*Closure))
			return Tuple(nil)
		}
		if w.mergeDepth > 0 {
			panic(mergeAbort{"go"})
		}
		w.goStmt(fr, a[0].(*Closure), nil, nil)
		return Tuple(nil)
	})
	nd("MapEnd", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if m, ok := a[0].(Iface).v.(*MapV); ok && w.par != nil && w.par.cur != nil {
			delete(w.par.writing, m)
		}
		return Tuple(nil)
	})
	nd("Atomic", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.par == nil || w.par.cur == nil {
			w.callClosure(fr, a[0].(*Closure), nil, nil)
			return Tuple(nil)
		}
		w.par.gate(fr, atomicSite, 0, nil, 0, nil)
		t := w.par.cur
		t.atomic++
		w.callClosure(fr, a[0].(*Closure), nil, nil)
		t.atomic--
		return Tuple(nil)
	})
	nd("Gate", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.par != nil && w.par.cur != nil {
			w.par.gate(fr, int(a[0].(*Term).x), a[1].(*Term).x, a[2].(Slice).a, 0, nil)
		}
		return w.c.True
	})
	nd("Block", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		kind := int(a[1].(*Term).x)
		p, ok := a[2].(*Value)
		if !ok || p == nil {
			panic(unsupported{"lock at a symbolic address"})
		}
		if w.par != nil && w.par.cur != nil {
			w.par.gate(fr, int(a[0].(*Term).x), 0, nil, kind, p)
			return Tuple(nil)
		}
		x, ok := (*p).(*Term)
		if !ok || !x.isConst() {
			if w.mergeDepth > 0 {
				panic(mergeAbort{"symbolic lock"})
			}
			panic(unsupported{"symbolic lock state"})
		}
		if v := int32(x.x); v != 0 && !(kind == 2 && v > 0) {
			if w.mergeDepth > 0 {
				panic(mergeAbort{"deadlock"})
			}
			panic(blocked{"deadlock: the lock is held"})
		}
		return Tuple(nil)
	})

	// math -------------------------------------------------------------------------------
	reg("math.Float64bits", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.fbits(a[0].(*Term)) })
	reg("math.Float64frombits", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.ffrom(a[0].(*Term)) })
	reg("math.Float32bits", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.c.FToBits(a[0].(*Term)) })
	reg("math.Float32frombits", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.c.FFromBits(a[0].(*Term)) })
	reg("math.IsNaN", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.isNaN(a[0].(*Term)) })
	reg("math.NaN", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.f64const(math.NaN()) })
	reg("math.Inf", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.f64const(math.Inf(int(int64(a[0].(*Term).x))))
	})
	reg("math.IsInf", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, s := a[0].(*Term), int64(w.concretise(a[1].(*Term), "sign"))
		if x.sort.K == SReal {
			r := w.c.False
			if s >= 0 {
				r = w.c.Or(r, w.c.Bool(x == w.realConst(math.Inf(1))))
			}
			if s <= 0 {
				r = w.c.Or(r, w.c.Bool(x == w.realConst(math.Inf(-1))))
			}
			return r
		}
		r := w.c.False
		if s >= 0 {
			r = w.c.Or(r, w.c.FCmp(OFEq, x, w.c.F64(math.Inf(1))))
		}
		if s <= 0 {
			r = w.c.Or(r, w.c.FCmp(OFEq, x, w.c.F64(math.Inf(-1))))
		}
		return r
	})
	reg("math.Abs", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		if x.sort.K == SReal {
			z := w.c.Real(new(big.Rat))
			return w.c.Ite(w.c.RCmp(ORLt, x, z), w.c.RBin(ORSub, z, x), x)
		}
		return w.c.FUn(OFAbs, x)
	})
	reg("math.Sqrt", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		if x.sort.K == SReal {
			return w.realSqrt(x)
		}
		return w.c.FUn(OFSqrt, x)
	})
	for n, m := range map[string]uint64{"Ceil": 0, "Floor": 1, "Trunc": 2} {
		m := m
		reg("math."+n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Term)
			if x.sort.K == SReal {
				if x.isConst() {
					f, _ := x.rat.Float64()
					return w.realConst(w.c.FRound(w.c.F64(f), m).f64())
				}
				panic(unsupported{"rounding of a symbolic real"})
			}
			return w.c.FRound(x, m)
		})
	}
	un := func(name string, f func(float64) float64) {
		reg("math."+name, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(*Term)
			if v, ok := constF(x); ok {
				return w.f64const(f(v))
			}
			if name == "Exp2" {
				if e := w.intOf(x); e != nil {
					if r := w.ldexp(w.f64const(1), e); r != nil {
						return r
					}
				}
			}
			if x.op == OIte {
				return w.mapIte(x, func(t *Term) *Term {
					if v, ok := constF(t); ok {
						return w.f64const(f(v))
					}
					return w.c.UF("math_"+name, t.sort, t)
				})
			}
			w.eng.note("math." + name + " of a symbolic value is an uninterpreted function")
			return w.c.UF("math_"+name, x.sort, x)
		})
	}
	un("Log", math.Log)
	un("Log2", math.Log2)
	un("Log10", math.Log10)
	un("Log1p", math.Log1p)
	un("Exp", math.Exp)
	un("Exp2", math.Exp2)
	un("Expm1", math.Expm1)
	un("Round", math.Round)
	reg("math.Ldexp", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, e := a[0].(*Term), a[1].(*Term)
		if r := w.ldexp(x, e); r != nil {
			return r
		}
		k := int64(w.concretise(e, "exponent"))
		if r := w.ldexp(x, w.c.BV(64, uint64(k))); r != nil {
			return r
		}
		panic(unsupported{"math.Ldexp far out"})
	})
	bin := func(name string, f func(a, b float64) float64) {
		reg("math."+name, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			u, ok := constF(x)
			v, ok2 := constF(y)
			if ok && ok2 {
				return w.f64const(f(u, v))
			}
			if ok && name == "Pow" && u != 1 && u > 0 {
				if fr, k := math.Frexp(u); fr == 0.5 { // a power of two
					if e := w.intOf(y); e != nil {
						if r := w.ldexp(w.f64const(1), w.c.Mul(e, w.c.BV(64, uint64(int64(k-1))))); r != nil {
							return r
						}
					}
				}
			}
			return w.c.UF("math_"+name, x.sort, x, y)
		})
	}
	bin("Pow", math.Pow)
	bin("Nextafter", math.Nextafter)
	bin("Mod", math.Mod)
	mm := func(name string, f func(a, b float64) float64, lt func(w *W, x, y *Term) *Term) {
		reg("math."+name, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Term), a[1].(*Term)
			u, ok := constF(x)
			v, ok2 := constF(y)
			if ok && ok2 {
				return w.f64const(f(u, v))
			}
			if x.sort.K == SReal {
				return w.c.Ite(lt(w, x, y), x, y)
			}
			nan := w.c.Or(w.c.FIsNaN(x), w.c.FIsNaN(y))
			w.eng.note("signed zeros are not distinguished by math." + name)
			r := w.c.Ite(lt(w, x, y), x, y)
			return w.c.Ite(nan, w.c.F64(math.NaN()), r)
		})
	}
	rlt := func(w *W, x, y *Term) *Term {
		if x.sort.K == SReal {
			return w.c.RCmp(ORLt, x, y)
		}
		return w.c.FCmp(OFLt, x, y)
	}
	mm("Min", math.Min, func(w *W, x, y *Term) *Term { return rlt(w, x, y) })
	mm("Max", math.Max, func(w *W, x, y *Term) *Term { return rlt(w, y, x) })

	// math/bits with cheap encodings; the rest is interpreted
	reg("math/bits.LeadingZeros64", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.lzcnt(a[0].(*Term)) })
	reg("math/bits.Len64", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.c.Sub(w.c.BV(64, 64), w.lzcnt(a[0].(*Term)))
	})
	reg("math/bits.TrailingZeros64", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		if w.job.noMerge && w.par == nil && !x.isConst() {
			for i := 0; i < 64; i++ {
				if w.decide(w.c.Eq(w.c.Extract(x, i, i), w.c.BV(1, 1)), nil) {
					return w.c.BV(64, uint64(i))
				}
			}
			return w.c.BV(64, 64)
		}
		r := w.c.BV(64, 64)
		for i := 63; i >= 0; i-- {
			r = w.c.Ite(w.c.Eq(w.c.Extract(x, i, i), w.c.BV(1, 1)), w.c.BV(64, uint64(i)), r)
		}
		return r
	})

	// bytes / strings kernels ---------------------------------------------------------------
	eqBytes := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := w.byteTerms(a[0]), w.byteTerms(a[1])
		if len(x) != len(y) {
			return w.c.False
		}
		r := w.c.True
		for i := range x {
			r = w.c.And(r, w.c.Eq(x[i], y[i]))
			if r == w.c.False {
				break
			}
		}
		return r
	}
	reg("bytes.Equal", eqBytes)
	reg("internal/bytealg.Equal", eqBytes)
	cmp := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := mkStr(w.byteTerms(a[0])), mkStr(w.byteTerms(a[1]))
		return w.c.Ite(w.strEq(x, y), w.c.BV(64, 0), w.c.Ite(w.strLess(x, y), w.c.BV(64, ^uint64(0)), w.c.BV(64, 1)))
	}
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	ib := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.indexByte(w.byteTerms(a[0]), a[1].(*Term))
	}
	for _, n := range []string{"bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		reg(n, ib)
	}
	lib := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		b := w.byteTerms(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.decide(w.c.Eq(b[i], a[1].(*Term)), nil) {
				return w.c.Int(i)
			}
		}
		return w.c.Int(-1)
	}
	for _, n := range []string{"bytes.LastIndexByte", "strings.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, lib)
	}
	cnt := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		r := w.c.BV(64, 0)
		for _, b := range w.byteTerms(a[0]) {
			r = w.c.Add(r, w.c.Ite(w.c.Eq(b, a[1].(*Term)), w.c.BV(64, 1), w.c.BV(64, 0)))
		}
		return r
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.MakeNoZero", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.newSlice(types.Typ[types.Uint8], w.conc(a[0], "n"), w.conc(a[0], "n"))
	})
	reg("(*strings.Builder).copyCheck", nop)
	reg("strings.Clone", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })

	// strconv ---------------------------------------------------------------------------------
	clone := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	reg("strings.Clone", clone)
	reg("internal/stringslite.Clone", clone)
	reg("strconv.ParseFloat", parseFloat)
	fmtFloat := func(w *W, x *Term, verb byte, prec, bits int) StrV {
		if f, ok := constF(x); ok {
			return str(strconv.FormatFloat(f, verb, prec, bits))
		}
		return mkStr(w.floatToken(x))
	}
	reg("strconv.FormatFloat", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return fmtFloat(w, a[0].(*Term), byte(w.conc(a[1], "verb")), int(int64(w.concretise(a[2].(*Term), "prec"))), w.conc(a[3], "bits"))
	})
	reg("strconv.AppendFloat", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := fmtFloat(w, a[1].(*Term), byte(w.conc(a[2], "verb")), int(int64(w.concretise(a[3].(*Term), "prec"))), w.conc(a[4], "bits"))
		out := append([]*Term(nil), w.byteTerms(a[0])...)
		return w.termSlice(append(out, w.strTerms(s)...))
	})

	// fmt -----------------------------------------------------------------------------------------
	reg("fmt.Sprintf", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.sprintf(fr, a[0].(StrV), a[1].(Slice))
	})
	reg("fmt.Sprint", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.sprint(fr, a[0].(Slice), false) })
	reg("fmt.Sprintln", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.sprint(fr, a[0].(Slice), true) })
	reg("fmt.Errorf", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		f := a[0].(StrV)
		text := w.sprintf(fr, f, a[1].(Slice))
		if f.concrete() && strings.Contains(f.s, "%w") && w.eng.wrapErrType != nil {
			for _, x := range a[1].(Slice).a {
				if i, ok := x.(Iface); ok && i.t != nil && types.Implements(i.t, w.eng.errIface) {
					var cell Value = Struct{text, i}
					return Iface{t: w.eng.wrapErrType, v: &cell}
				}
			}
		}
		return w.newErr(text)
	})
	fpr := func(f func(w *W, fr *frame, a []Value) StrV) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			s := f(w, fr, a)
			return w.ioWrite(fr, a[0].(Iface), s)
		}
	}
	reg("fmt.Fprintf", fpr(func(w *W, fr *frame, a []Value) StrV { return w.sprintf(fr, a[1].(StrV), a[2].(Slice)) }))
	reg("fmt.Fprint", fpr(func(w *W, fr *frame, a []Value) StrV { return w.sprint(fr, a[1].(Slice), false) }))
	reg("fmt.Fprintln", fpr(func(w *W, fr *frame, a []Value) StrV { return w.sprint(fr, a[1].(Slice), true) }))
	reg("fmt.Println", nop)
	reg("fmt.Printf", nop)
	reg("fmt.Print", nop)
	reg("(*log.Logger).Printf", nop)
	reg("(*log.Logger).Println", nop)
	reg("(*log.Logger).Print", nop)
	reg("(*log.Logger).Output", nop)
	reg("log.Printf", nop)
	reg("log.Println", nop)
	reg("log.Print", nop)
	exit := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"exit"})
		}
		w.goPanicStr("process exit")
		return nil
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf"} {
		reg(n, exit)
	}

	// sync/atomic ------------------------------------------------------------------------------------
	for _, k := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(p+"Load"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.atomically(a[0], "load", nil)
			})
			reg(p+"Store"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				w.atomically(a[0], "store", func(old Value) Value { return a[1] })
				return Tuple(nil)
			})
			reg(p+"Swap"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.atomically(a[0], "rmw", func(old Value) Value { return a[1] })
			})
			reg(p+"Add"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				var nv Value
				w.atomically(a[0], "rmw", func(old Value) Value {
					nv = w.c.Add(old.(*Term), a[1].(*Term))
					return nv
				})
				return nv
			})
			reg(p+"And"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.atomically(a[0], "rmw", func(old Value) Value { return w.c.BAnd(old.(*Term), a[1].(*Term)) })
			})
			reg(p+"Or"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.atomically(a[0], "rmw", func(old Value) Value { return w.c.BOr(old.(*Term), a[1].(*Term)) })
			})
			reg(p+"CompareAndSwap"+k.n, func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
				return w.cas(a[0], a[1], a[2])
			})
		}
	}
	reg("(*sync/atomic.Value).Load", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.load(w.fieldAddr(a[0], 0))
	})
	reg("(*sync/atomic.Value).Store", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.store(w.fieldAddr(a[0], 0), a[1])
		return Tuple(nil)
	})

	// sync ---------------------------------------------------------------------------------------------
	lock := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexLock(w.intCell(a[0]))
		return Tuple(nil)
	}
	unlock := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mutexUnlock(w.intCell(a[0]))
		return Tuple(nil)
	}
	for _, m := range []string{"(*sync.Mutex)", "(*internal/sync.Mutex)", "(*sync.RWMutex)"} {
		reg(m+".Lock", lock)
		reg(m+".Unlock", unlock)
		reg(m+".TryLock", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			c := w.intCell(a[0])
			return w.cas(c, w.c.BV(32, 0), w.c.BV(32, 1))
		})
	}
	reg("(*sync.RWMutex).RLock", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.rLock(w.intCell(a[0]))
		return Tuple(nil)
	})
	reg("(*sync.RWMutex).RUnlock", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.rUnlock(w.intCell(a[0]))
		return Tuple(nil)
	})
	// A pool of the program hands out what was put last, the most it may do. The
	// standard library's own pools always make new objects.
	poolCell := func(w *W, fr *frame, p Value) *Value {
		if fr == nil || fr.fn.Pkg == nil || !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), w.eng.module) {
			return nil
		}
		s := (*p.(*Value)).(Struct)
		return &s[1]
	}
	reg("(*sync.Pool).Get", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		if c := poolCell(w, fr, a[0]); c != nil {
			if l, ok := (*c).(Slice); ok && len(l.a) > 0 {
				w.setCell(c, Slice{l.a[:len(l.a)-1 : len(l.a)-1]})
				return l.a[len(l.a)-1]
			}
		}
		f := s[len(s)-1]
		if c, ok := f.(*Closure); ok && c != nil {
			return w.callClosure(fr, c, nil, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if c := poolCell(w, fr, a[0]); c != nil && a[1].(Iface).t != nil {
			l, _ := (*c).(Slice)
			w.setCell(c, Slice{append(append([]Value{}, l.a...), a[1])})
		}
		return Tuple(nil)
	})
	// sync.Map: its state is a map kept in the cell of its last field.
	anyMap := func(w *W, p Value) *MapV {
		q, ok := p.(*Value)
		if !ok {
			panic(unsupported{"sync.Map pointer"})
		}
		if q == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		s := (*q).(Struct)
		c := &s[len(s)-1]
		m, ok := (*c).(*MapV)
		if !ok {
			m = &MapV{idx: map[string]*MapEntry{}}
			w.setCell(c, m)
		}
		return m
	}
	reg("(*sync.Map).Load", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if e := w.mapFind(anyMap(w, a[0]), a[1]); e != nil {
			return Tuple{w.load(e.cell), w.c.Bool(true)}
		}
		return Tuple{Iface{}, w.c.Bool(false)}
	})
	reg("(*sync.Map).Store", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mapSet(anyMap(w, a[0]), a[1], a[2])
		return Tuple(nil)
	})
	reg("(*sync.Map).LoadOrStore", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := anyMap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			return Tuple{w.load(e.cell), w.c.Bool(true)}
		}
		w.mapSet(m, a[1], a[2])
		return Tuple{a[2], w.c.Bool(false)}
	})
	reg("(*sync.Map).LoadAndDelete", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := anyMap(w, a[0])
		if e := w.mapFind(m, a[1]); e != nil {
			v := w.load(e.cell)
			w.mapDelete(m, a[1])
			return Tuple{v, w.c.Bool(true)}
		}
		return Tuple{Iface{}, w.c.Bool(false)}
	})
	reg("(*sync.Map).Delete", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.mapDelete(anyMap(w, a[0]), a[1])
		return Tuple(nil)
	})
	reg("(*sync.Map).Range", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := anyMap(w, a[0])
		for _, e := range append([]*MapEntry{}, m.entries...) {
			if e.dead {
				continue
			}
			if r := w.callClosure(fr, a[1].(*Closure), []Value{e.k, w.load(e.cell)}, nil).(*Term); !w.decide(r, nil) {
				break
			}
		}
		return Tuple(nil)
	})
	wgAdd := func(w *W, p Value, d int) {
		c := w.intCell(p)
		old := w.load(c).(*Term)
		w.store(c, w.c.Add(old, w.c.BV(old.width(), uint64(d))))
	}
	reg("(*sync.WaitGroup).Add", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(w, a[0], int(int64(w.concretise(a[1].(*Term), "wg"))))
		return Tuple(nil)
	})
	reg("(*sync.WaitGroup).Done", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(w, a[0], -1)
		return Tuple(nil)
	})
	reg("(*sync.WaitGroup).Wait", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.load(w.intCell(a[0])).(*Term)
		if !t.isConst() || t.x != 0 {
			panic(blocked{"WaitGroup"})
		}
		return Tuple(nil)
	})
	for _, n := range []string{"runtime.KeepAlive", "runtime.Gosched", "runtime.GC", "runtime.SetFinalizer", "runtime.procyield"} {
		reg(n, nop)
	}
	// where a function was called from shows only in messages
	reg("runtime.Caller", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return Tuple{w.zero(fn.Signature.Results().At(0).Type()), str(""), w.c.BV(64, 0), w.c.False}
	})
	reg("runtime.Callers", nop)
	reg("internal/race.Acquire", nop)
	reg("internal/race.Release", nop)

	// time, os, net -----------------------------------------------------------------------------------------
	reg("time.Now", nop)
	reg("time.now", nop)
	reg("time.Unix", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		z := w.zero(fn.Signature.Results().At(0).Type()).(Struct)
		z[1] = a[0]
		if z[0].(*Term).width() == 64 {
			z[0] = a[1]
		}
		return z
	})
	reg("time.Since", nop)
	reg("time.Sleep", nop)
	reg("os/signal.Notify", nop)
	reg("os/signal.Stop", nop)
	reg("os/signal.Reset", nop)
	reg("os/signal.Ignore", nop)
	reg("net.Listen", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		if nw, ok := a[0].(StrV); ok && nw.concrete() {
			switch nw.s {
			case "tcp", "tcp4", "tcp6", "unix", "unixpacket":
			default:
				return Tuple{Iface{}, w.newErr(str("listen " + nw.s + ": unknown network " + nw.s))}
			}
		}
		t := w.eng.typeOf("net", "TCPListener")
		var cell Value = w.zero(t)
		return Tuple{Iface{t: types.NewPointer(t), v: &cell}, Iface{}}
	})
	reg("(*net.TCPListener).Close", nop)
	serve := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.eng.note("(*http.Server).Serve is a stub: requests are handed to the handler directly")
		if w.sigPump != nil && !w.shut {
			w.served++
			panic(blocked{"serving requests"})
		}
		return w.newErr(str("http: Server closed"))
	}
	reg("(*net/http.Server).Serve", serve)
	reg("(*net/http.Server).ListenAndServe", serve)
	reg("net/http.Serve", serve)
	shut := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		w.shut = true
		return Iface{}
	}
	reg("(*net/http.Server).Shutdown", shut)
	reg("(*net/http.Server).Close", shut)
	reg("(*internal/godebug.Setting).Value", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return str("") })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)
	reg("internal/godebug.New", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		t := w.eng.typeOf("internal/godebug", "Setting")
		var cell Value = w.zero(t)
		return &cell
	})
	reg("internal/godebugs.Lookup", nop)
	reg("os.Getenv", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return str("") })

	// regexp ----------------------------------------------------------------------------------------------------
	registerRegexp(reg)

	// encoding/binary reflection-free entry points are interpreted from source
}

func constF(t *Term) (float64, bool) {
	if !t.isConst() {
		return 0, false
	}
	switch t.sort.K {
	case SF64:
		return t.f64(), true
	case SReal:
		f, _ := t.rat.Float64()
		return f, true
	}
	return 0, false
}

func (w *W) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r := memo[x]; r != nil {
			return r
		}
		var r *Term
		if x.op == OIte {
			r = w.c.Ite(x.a[0], rec(x.a[1]), rec(x.a[2]))
		} else {
			r = f(x)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func (w *W) lzcnt(x *Term) *Term {
	if w.job.noMerge && w.par == nil && !x.isConst() {
		// path by path, as a loop over the bits would be
		for i := 63; i >= 0; i-- {
			if w.decide(w.c.Eq(w.c.Extract(x, i, i), w.c.BV(1, 1)), nil) {
				return w.c.BV(64, uint64(63-i))
			}
		}
		return w.c.BV(64, 64)
	}
	r := w.c.BV(64, 64)
	for i := 0; i < 64; i++ {
		r = w.c.Ite(w.c.Eq(w.c.Extract(x, i, i), w.c.BV(1, 1)), w.c.BV(64, uint64(63-i)), r)
	}
	return r
}

func (w *W) fbits(x *Term) *Term {
	if x.sort.K != SReal {
		return w.c.FToBits(x)
	}
	if x.isConst() {
		f, exact := x.rat.Float64()
		if exact {
			return w.c.BV(64, math.Float64bits(f))
		}
	}
	if x.op == OVar {
		switch x.name {
		case "real_nan":
			return w.c.BV(64, math.Float64bits(math.NaN()))
		case "real_posinf":
			return w.c.BV(64, math.Float64bits(math.Inf(1)))
		case "real_neginf":
			return w.c.BV(64, math.Float64bits(math.Inf(-1)))
		}
	}
	if x.op == OIte {
		return w.c.Ite(x.a[0], w.fbits(x.a[1]), w.fbits(x.a[2]))
	}
	return w.c.UF("rbits", BVS(64), x)
}

func (w *W) ffrom(b *Term) *Term {
	if !w.reals {
		return w.c.FFromBits(b)
	}
	if b.isConst() {
		return w.realConst(math.Float64frombits(b.x))
	}
	if b.op == OUF && b.name == "rbits" {
		return b.a[0]
	}
	if b.op == OIte {
		return w.c.Ite(b.a[0], w.ffrom(b.a[1]), w.ffrom(b.a[2]))
	}
	return w.c.UF("rfrom", RealS, b)
}

func (w *W) isNaN(x *Term) *Term {
	if x.sort.K == SReal {
		if x.op == OIte {
			return w.c.Ite(x.a[0], w.isNaN(x.a[1]), w.isNaN(x.a[2]))
		}
		return w.c.Bool(x.op == OVar && x.name == "real_nan")
	}
	return w.c.FIsNaN(x)
}

func (w *W) realSqrt(x *Term) *Term {
	if f, ok := constF(x); ok {
		return w.realConst(math.Sqrt(f))
	}
	if w.decide(w.c.RCmp(ORLt, x, w.c.Real(new(big.Rat))), nil) {
		return w.c.Var("real_nan", RealS)
	}
	r := w.c.UF("rsqrt", RealS, x)
	w.assume(w.c.And(w.c.RCmp(ORLe, w.c.Real(new(big.Rat)), r), w.c.Eq(w.c.RBin(ORMul, r, r), x)))
	return r
}

func (w *W) termSlice(ts []*Term) Slice {
	a := w.newCells(len(ts))
	for i := range ts {
		a[i] = ts[i]
	}
	if a == nil {
		a = []Value{}
	}
	return Slice{a}
}

func (w *W) indexByte(b []*Term, ch *Term) Value {
	if w.mergeDepth > 0 {
		r := w.c.Int(-1)
		for i := len(b) - 1; i >= 0; i-- {
			r = w.c.Ite(w.c.Eq(b[i], ch), w.c.Int(i), r)
		}
		return r
	}
	for i := range b {
		if w.decide(w.c.Eq(b[i], ch), nil) {
			return w.c.Int(i)
		}
	}
	return w.c.Int(-1)
}

// floatToken gives opaque text for a symbolic float. The text consists of
// fresh digits, so it contains no separator and no letter; parsing it yields
// the float back.
func (w *W) floatToken(f *Term) []*Term {
	if v, ok := constF(f); ok && !w.reals {
		return w.strTerms(str(strconv.FormatFloat(v, 'g', -1, 64)))
	}
	const n = 3
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = w.c.Concat(w.c.BV(5, 6), w.freshVar("ftext", BVS(3)))
	}
	w.tokens[ts[0]] = &floatTok{f, ts}
	return ts
}

func (w *W) findToken(b []*Term) *floatTok {
	if len(b) == 0 {
		return nil
	}
	tok := w.tokens[b[0]]
	if tok == nil || len(b) != len(tok.bytes) {
		return nil
	}
	for i := range b {
		if b[i] != tok.bytes[i] {
			return nil
		}
	}
	return tok
}

func parseFloat(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(StrV)
	bits := w.conc(a[1], "bitSize")
	if !s.concrete() {
		if tok := w.findToken(s.b); tok != nil {
			f := tok.f
			if bits == 32 && f.sort.K != SReal {
				return w.narrow(f)
			}
			return Tuple{f, Iface{}}
		}
		for _, b := range s.b {
			if w.tokens[b] != nil {
				panic(unsupported{"part of a float text"})
			}
		}
		return w.interpret(fr, fn, a)
	}
	f, err := strconv.ParseFloat(s.s, bits)
	if err != nil {
		rl := w.reals
		w.reals = false
		r := w.interpret(fr, fn, a).(Tuple)
		w.reals = rl
		return Tuple{w.f64const(f), r[1]}
	}
	return Tuple{w.f64const(f), Iface{}}
}

// narrow models ParseFloat(text, 32) for the text of a 64-bit float.
func (w *W) narrow(f *Term) Value {
	r := w.c.FToF(w.c.FToF(f, SF32), SF64)
	inf := w.c.And(w.c.FCmp(OFEq, w.c.FUn(OFAbs, r), w.c.F64(math.Inf(1))), w.c.Not(w.c.FCmp(OFEq, w.c.FUn(OFAbs, f), w.c.F64(math.Inf(1)))))
	if w.decide(inf, nil) {
		return Tuple{r, w.newErr(str("value out of range"))}
	}
	return Tuple{r, Iface{}}
}

// interpret runs the body of a function that has an intrinsic.
func (w *W) interpret(fr *frame, fn *ssa.Function, a []Value) Value {
	h := w.fns[fn]
	if h == nil {
		h = newFnInfo(fn)
		w.fns[fn] = h
	}
	nm := h.name
	h.name = nm + "#body"
	defer func() { h.name = nm }()
	return w.callFn(fr, fn, a, nil)
}

func (w *W) ioWrite(fr *frame, dst Iface, s StrV) Value {
	if dst.t == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := w.eng.methodNamed(dst.t, "Write")
	if m == nil {
		panic(unsupported{"Write method"})
	}
	return w.callFn(fr, m, []Value{dst.v, w.termSlice(w.strTerms(s))}, nil)
}

// atomics -----------------------------------------------------------------------------------

func (w *W) atomically(ptr Value, kind string, f func(old Value) Value) Value {
	old := w.load(ptr)
	if f != nil {
		w.store(ptr, f(old))
	}
	return old
}

func (w *W) cas(ptr, old, nw Value) Value {
	cur := w.load(ptr)
	eq := w.equal(cur, old)
	switch eq {
	case w.c.True:
		w.store(ptr, nw)
	case w.c.False:
	default:
		m, ok := w.merge(eq, nw, cur)
		if !ok {
			if w.decide(eq, nil) {
				w.store(ptr, nw)
				return w.c.True
			}
			return w.c.False
		}
		w.store(ptr, m)
	}
	return eq
}

// intCell finds the first integer cell of a synchronisation object.
func (w *W) intCell(p Value) Value {
	var find func(q *Value) *Value
	find = func(q *Value) *Value {
		switch x := (*q).(type) {
		case Struct:
			for i := range x {
				if r := find(&x[i]); r != nil {
					return r
				}
			}
		case *Term:
			if x.sort.K == SBV {
				return q
			}
		}
		return nil
	}
	switch x := p.(type) {
	case *Value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return find(x)
	case MuxPtr:
		return find(w.pick(x))
	}
	panic(unsupported{fmt.Sprintf("lock at %T", p)})
}

// unshared turns off the tracking of shared accesses, for the insides of
// locks of packages that are not instrumented: their critical sections are
// never preempted.
func (w *W) unshared() func() {
	p := w.par
	if p == nil || p.cur == nil {
		return func() {}
	}
	t := p.cur
	p.cur = nil
	return func() { p.cur = t }
}

// notHere gives up where such a critical section was preempted after all.
func (w *W) notHere() {
	if w.par != nil {
		panic(unsupported{"a thread was preempted within a lock of the standard library"})
	}
}

func (w *W) mutexLock(cell Value) {
	defer w.unshared()()
	t := w.load(cell).(*Term)
	if !t.isConst() {
		panic(unsupported{"symbolic lock state"})
	}
	if t.x != 0 {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"deadlock"})
		}
		w.notHere()
		w.goPanicStr("deadlock: lock of a locked mutex")
	}
	w.store(cell, w.c.BV(t.width(), 1))
}

func (w *W) mutexUnlock(cell Value) {
	defer w.unshared()()
	t := w.load(cell).(*Term)
	if t.isConst() && t.x != 1 {
		w.goPanicStr("fatal error: unlock of unlocked mutex")
	}
	w.store(cell, w.c.BV(t.width(), 0))
}

func (w *W) rLock(cell Value) {
	defer w.unshared()()
	t := w.load(cell).(*Term)
	if t.x == 1 {
		w.notHere()
		w.goPanicStr("deadlock: read lock of a write-locked mutex")
	}
	w.store(cell, w.c.Add(t, w.c.BV(t.width(), 2)))
}

func (w *W) rUnlock(cell Value) {
	defer w.unshared()()
	t := w.load(cell).(*Term)
	if t.x < 2 {
		w.goPanicStr("fatal error: RUnlock of unlocked RWMutex")
	}
	w.store(cell, w.c.Sub(t, w.c.BV(t.width(), 2)))
}

// fmt ---------------------------------------------------------------------------------------------

func (w *W) sprint(fr *frame, args Slice, ln bool) StrV {
	out := StrV{}
	for i, x := range args.a {
		it := x.(Iface)
		if i > 0 {
			isS := func(v Iface) bool { _, ok := v.v.(StrV); return ok }
			if ln || (!isS(it) && !isS(args.a[i-1].(Iface))) {
				out = w.strCat(out, str(" "))
			}
		}
		out = w.strCat(out, w.fmtOne(fr, "%v", 'v', it))
	}
	if ln {
		out = w.strCat(out, str("\n"))
	}
	return out
}

func (w *W) sprintf(fr *frame, f StrV, args Slice) StrV {
	format := w.concStr(f, "format")
	out := StrV{}
	ai := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = w.strCat(out, str(format[i:]))
			break
		}
		out = w.strCat(out, str(format[i:i+j]))
		i += j
		k := i + 1
		for k < len(format) && strings.IndexByte("+-# 0123456789.", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			out = w.strCat(out, str("%!(NOVERB)"))
			break
		}
		verb := format[k]
		spec := format[i : k+1]
		i = k + 1
		if verb == '%' {
			out = w.strCat(out, str("%"))
			continue
		}
		if ai >= len(args.a) {
			out = w.strCat(out, str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = w.strCat(out, w.fmtOne(fr, spec, verb, args.a[ai].(Iface)))
		ai++
	}
	return out
}

func (w *W) fmtOne(fr *frame, spec string, verb byte, it Iface) StrV {
	if it.t == nil {
		return str(fmt.Sprintf(spec, nil))
	}
	plain := len(spec) == 2
	if verb == 'w' {
		verb, spec = 'v', "%v"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, m := range []string{"Error", "String"} {
			if fn := w.eng.methodNamed(it.t, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if p, ok := it.v.(*Value); ok && p == nil {
					return str("<nil>")
				}
				if r, ok := w.callFn(fr, fn, []Value{it.v}, nil).(StrV); ok {
					if verb == 'q' {
						return str(strconv.Quote(w.concStr(r, "%q")))
					}
					if plain {
						return r
					}
					return str(fmt.Sprintf(spec, w.concStr(r, "format")))
				}
			}
		}
	}
	switch x := it.v.(type) {
	case StrV:
		if plain && (verb == 's' || verb == 'v') {
			return x
		}
		return str(fmt.Sprintf(spec, w.concStr(x, "format")))
	case Slice:
		st, _ := it.t.Underlying().(*types.Slice)
		if st != nil && elemWidth(st.Elem()) == 8 {
			b := mkStr(w.byteTerms(x))
			if plain && verb == 's' {
				return b
			}
			return str(fmt.Sprintf(spec, []byte(w.concStr(b, "format"))))
		}
		out := str("[")
		for i := range x.a {
			if i > 0 {
				out = w.strCat(out, str(" "))
			}
			e := x.a[i]
			ei, ok := e.(Iface)
			if !ok {
				ei = Iface{st.Elem(), e}
			}
			out = w.strCat(out, w.fmtOne(fr, spec, verb, ei))
		}
		return w.strCat(out, str("]"))
	case *Term:
		switch x.sort.K {
		case SBool:
			return str(fmt.Sprintf(spec, w.decide(x, nil)))
		case SF64, SReal:
			if f, ok := constF(x); ok {
				return str(fmt.Sprintf(spec, f))
			}
			if verb == 'v' || verb == 'g' || verb == 'f' || verb == 'e' {
				if !plain {
					panic(unsupported{"format " + spec + " of a symbolic float"})
				}
				if verb == 'f' {
					panic(unsupported{"%f of a symbolic float"})
				}
				return mkStr(w.floatToken(x))
			}
		case SBV:
			v := w.concretise(x, "formatted integer")
			if isSigned(it.t) {
				return str(fmt.Sprintf(spec, sx(v, x.sort.W)))
			}
			if x.sort.W == 8 {
				return str(fmt.Sprintf(spec, uint8(v)))
			}
			return str(fmt.Sprintf(spec, v))
		}
	case Iface:
		return w.fmtOne(fr, spec, verb, x)
	}
	return str("<" + it.t.String() + ">")
}

// sort.Slice and sort.SliceStable build their swap function with reflection;
// the sorting itself is interpreted from the standard library's source.
func init() {
	sorter := func(body string) intrinsic {
		return func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			s, ok := i.v.(Slice)
			if !ok {
				panic(unsupported{fmt.Sprintf("%s of %T", fn.Name(), i.v)})
			}
			swap := &Closure{nat: func(w *W, fr *frame, x []Value) Value {
				p := w.indexAddr(s, w.term(x[0]))
				q := w.indexAddr(s, w.term(x[1]))
				u, v := w.load(p), w.load(q)
				w.store(p, v)
				w.store(q, u)
				return Tuple(nil)
			}}
			b := fn.Pkg.Func(body)
			if b == nil {
				panic(unsupported{"sort." + body})
			}
			n := len(s.a)
			args := []Value{Struct{a[1], swap}, w.c.Int(0), w.c.Int(n)}
			if body == "stable_func" {
				args = []Value{Struct{a[1], swap}, w.c.Int(n)}
			} else {
				limit := 0
				for m := n; m > 0; m >>= 1 {
					limit++
				}
				args = append(args, w.c.Int(limit))
			}
			w.callFn(fr, b, args, nil)
			return Tuple(nil)
		}
	}
	intrinsics["sort.Slice"] = sorter("pdqsort_func")
	intrinsics["sort.SliceStable"] = sorter("stable_func")
}
