package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *W) realConst(f float64) *Term {
	if math.IsNaN(f) || math.IsInf(f, 0) {
		// NaN and infinities are opaque constants in exact arithmetic
		nm := "nan"
		if math.IsInf(f, 1) {
			nm = "posinf"
		} else if math.IsInf(f, -1) {
			nm = "neginf"
		}
		return w.c.Var("real_"+nm, RealS)
	}
	r := new(big.Rat)
	r.SetFloat64(f)
	return w.c.Real(r)
}

func (w *W) constVal(k *ssa.Const) Value {
	if v, ok := w.consts[k]; ok {
		return v
	}
	v := w.constVal1(k)
	switch v.(type) {
	case Struct, Array:
		return v
	}
	w.consts[k] = v
	return v
}

func (w *W) constVal1(k *ssa.Const) Value {
	if k.Value == nil {
		return w.zero(k.Type())
	}
	t := k.Type().Underlying()
	if tp, ok := k.Type().(*types.TypeParam); ok {
		panic(unsupported{"type param const " + tp.String()})
	}
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isI := t.(*types.Interface); isI {
			panic(unsupported{"interface const"})
		}
		panic(unsupported{"const of type " + k.Type().String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.String {
			return str(constant.StringVal(k.Value))
		}
		return str(string(rune(k.Int64())))
	case b.Info()&types.IsInteger != 0:
		wd := basicWidth(b)
		if b.Info()&types.IsUnsigned != 0 {
			return w.c.BV(wd, k.Uint64())
		}
		return w.c.BV(wd, uint64(k.Int64()))
	case b.Info()&types.IsFloat != 0:
		if b.Kind() == types.Float32 {
			return w.c.F32(float32(k.Float64()))
		}
		if w.reals {
			c := constant.ToFloat(k.Value)
			r := new(big.Rat)
			if rr, ok := constant.Val(c).(*big.Rat); ok {
				f, _ := rr.Float64()
				r.SetFloat64(f)
				return w.c.Real(r)
			}
			return w.realConst(k.Float64())
		}
		return w.c.F64(k.Float64())
	}
	panic(unsupported{"const of type " + k.Type().String()})
}

func (w *W) global(g *ssa.Global) Value {
	p := w.globals[g]
	if p == nil {
		w.permanent++
		md := w.mergeDepth
		w.mergeDepth = 0
		x := w.zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.mergeDepth = md
		w.permanent--
		p = new(Value)
		*p = x
		w.globals[g] = p
	}
	if g.Pkg != nil {
		w.ensureInit(g.Pkg)
	}
	return p
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/cpu": true, "internal/poll": true,
	"internal/godebug": true, "internal/runtime/atomic": true, "internal/bytealg": true, "os/signal": true,
	"crypto/tls": true, "crypto/x509": true, "net": true, "time": true, "internal/testlog": true, "log": true,
	"math/rand": true, "math/rand/v2": true, "compress/gzip": true, "compress/flate": true, "vendor/golang.org/x/net/http2/hpack": true, "internal/abi": true,
	"internal/reflectlite": true, "sync": true, "internal/sync": true, "crypto/rand": true,
}

func (w *W) ensureInit(p *ssa.Package) {
	if w.inited[p] {
		return
	}
	w.inited[p] = true
	path := p.Pkg.Path()
	if skipInit[path] || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "vendor/") {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	// Package initialisers are concrete; their effects outlive the path.
	w.permanent++
	sv := struct {
		md    int
		g     []*Term
		depth int
		cf    *frame
		steps int
		par   *Par
		lim   int
	}{w.mergeDepth, w.guards, w.depth, w.curFrame, w.steps, w.par, w.stepLimit}
	w.mergeDepth, w.guards, w.par = 0, nil, nil
	w.steps = 0
	w.stepLimit = 50_000_000
	defer func() {
		w.permanent--
		w.mergeDepth, w.guards, w.depth, w.curFrame, w.steps, w.par, w.stepLimit = sv.md, sv.g, sv.depth, sv.cf, sv.steps, sv.par, sv.lim
		if x := recover(); x != nil {
			switch x := x.(type) {
			case unsupported:
				w.eng.note("package init of " + path + " incomplete: " + x.what)
			case *goPanic:
				w.eng.note("package init of " + path + " panicked: " + x.text)
			case error:
				w.eng.note("package init of " + path + " incomplete: " + x.Error())
			default:
				panic(x)
			}
		}
	}()
	fi := w.info(init)
	fr := &frame{fn: init, fi: fi, env: make([]Value, fi.n), block: init.Blocks[0], tolerant: true}
	w.curFrame = fr
	w.run(fr, nil)
}

// Poison is the value of an initialiser that could not be run: any use of it
// is unsupported.
type Poison struct{ why string }

// tolerant runs one instruction of a package initialiser. What cannot be run
// is poisoned rather than given up on, so that unrelated variables of the
// package are still initialised.
func (w *W) tolerant(fr *frame, in ssa.Instruction) {
	depth := w.depth
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		why := ""
		switch x := x.(type) {
		case unsupported:
			why = x.what
		case error: // an operand is poisoned
			why = x.Error()
		default:
			panic(x)
		}
		w.depth, w.curFrame = depth, fr
		if v, ok := in.(ssa.Value); ok {
			w.set(fr, v, Poison{why})
		}
	}()
	w.instr(fr, in)
}

func (w *W) instr(fr *frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		z := w.zero(in.Type().Underlying().(*types.Pointer).Elem())
		w.set(fr, in, w.newCell(z))
	case *ssa.UnOp:
		w.set(fr, in, w.unop(fr, in))
	case *ssa.BinOp:
		w.set(fr, in, w.binop(in.Op, in.X.Type(), w.get(fr, in.X), w.get(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		w.set(fr, in, w.doCall(fr, &in.Call, in))
		w.curFrame = fr
	case *ssa.ChangeInterface:
		w.set(fr, in, w.get(fr, in.X))
	case *ssa.ChangeType:
		w.set(fr, in, w.get(fr, in.X))
	case *ssa.Convert:
		w.set(fr, in, w.convert(in.Type(), in.X.Type(), w.get(fr, in.X)))
	case *ssa.MultiConvert:
		w.set(fr, in, w.convert(in.Type(), in.X.Type(), w.get(fr, in.X)))
	case *ssa.MakeInterface:
		w.set(fr, in, Iface{t: in.X.Type(), v: w.get(fr, in.X)})
	case *ssa.Extract:
		w.set(fr, in, w.get(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		w.set(fr, in, w.slice(fr, in))
	case *ssa.Store:
		w.store(w.get(fr, in.Addr), w.get(fr, in.Val))
	case *ssa.FieldAddr:
		w.set(fr, in, w.fieldAddr(w.get(fr, in.X), in.Field))
	case *ssa.Field:
		w.set(fr, in, w.get(fr, in.X).(Struct)[in.Field])
	case *ssa.IndexAddr:
		w.set(fr, in, w.indexAddr(w.get(fr, in.X), w.idx64(w.get(fr, in.Index), in.Index.Type())))
	case *ssa.Index:
		w.set(fr, in, w.index(w.get(fr, in.X), w.idx64(w.get(fr, in.Index), in.Index.Type())))
	case *ssa.Lookup:
		w.set(fr, in, w.lookup(fr, in))
	case *ssa.MakeMap:
		w.set(fr, in, &MapV{idx: map[string]*MapEntry{}})
	case *ssa.MapUpdate:
		w.mapSet(w.get(fr, in.Map).(*MapV), w.get(fr, in.Key), w.get(fr, in.Value))
	case *ssa.MakeSlice:
		w.set(fr, in, w.makeSlice(in, w.idx64(w.get(fr, in.Len), in.Len.Type()), w.idx64(w.get(fr, in.Cap), in.Cap.Type())))
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.free = append(c.free, w.get(fr, b))
		}
		w.set(fr, in, c)
	case *ssa.MakeChan:
		n := int(w.concretise(w.idx64(w.get(fr, in.Size), in.Size.Type()), "channel size"))
		w.set(fr, in, &ChanV{cap: n})
	case *ssa.TypeAssert:
		w.set(fr, in, w.typeAssert(in, w.get(fr, in.X).(Iface)))
	case *ssa.Defer:
		if fr.region > 0 {
			panic(mergeAbort{"defer"})
		}
		fn, args := w.prepCall(fr, &in.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, in: in})
	case *ssa.RunDefers:
		if fr.region > 0 && len(fr.defers) > 0 {
			panic(mergeAbort{"rundefers"})
		}
		w.runDefers(fr)
		if fr.panicV != nil {
			p := fr.panicV
			fr.panicV = nil
			panic(p)
		}
	case *ssa.Range:
		w.set(fr, in, w.rangeIter(fr, w.get(fr, in.X)))
	case *ssa.Next:
		w.set(fr, in, w.rangeNext(fr, in))
	case *ssa.Select:
		w.set(fr, in, w.selectStmt(fr, in))
	case *ssa.Send:
		w.chanSend(w.get(fr, in.Chan).(*ChanV), w.get(fr, in.X))
	case *ssa.Go:
		if w.mergeDepth > 0 {
			panic(mergeAbort{"go"})
		}
		fn, args := w.prepCall(fr, &in.Call)
		w.goStmt(fr, fn.(*Closure), args, in)
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, in.X).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			w.rtPanic("cannot convert slice to array pointer: length too short")
		}
		var v Value = Array(s.a[:n:n])
		w.set(fr, in, &v)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (w *W) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.width() == 64 {
		return x
	}
	if isSigned(t) {
		return w.c.SExt(x, 64)
	}
	return w.c.ZExt(x, 64)
}

func (w *W) prepCall(fr *frame, call *ssa.CallCommon) (Value, []Value) {
	if call.IsInvoke() {
		recv := w.get(fr, call.Value).(Iface)
		if recv.t == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := w.findMethod(recv.t, call.Method)
		args := make([]Value, 0, len(call.Args)+1)
		args = append(args, recv.v)
		for _, a := range call.Args {
			args = append(args, w.get(fr, a))
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(call.Args))
	for i, a := range call.Args {
		args[i] = w.get(fr, a)
	}
	return w.get(fr, call.Value), args
}

func (w *W) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t.String(), m.Id()}
	if f := w.meths[k]; f != nil {
		return f
	}
	f := w.eng.lookupMethod(t, m)
	if f == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.String()})
	}
	w.meths[k] = f
	return f
}

func (w *W) doCall(fr *frame, call *ssa.CallCommon, site ssa.CallInstruction) Value {
	if !call.IsInvoke() {
		if f, ok := call.Value.(*ssa.Function); ok {
			args := make([]Value, len(call.Args))
			for i, a := range call.Args {
				args[i] = w.get(fr, a)
			}
			return w.callFn(fr, f, args, nil)
		}
		if b, ok := call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(call.Args))
			for i, a := range call.Args {
				args[i] = w.get(fr, a)
			}
			return w.builtin(fr, b, args, site)
		}
	}
	fn, args := w.prepCall(fr, call)
	c, ok := fn.(*Closure)
	if !ok {
		panic(unsupported{fmt.Sprintf("call of %T", fn)})
	}
	return w.callClosure(fr, c, args, site)
}

func (w *W) unop(fr *frame, in *ssa.UnOp) Value {
	x := w.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		return w.load(x)
	case token.NOT:
		return w.c.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		switch t.sort.K {
		case SBV:
			return w.c.Neg(t)
		case SReal:
			return w.c.RBin(ORSub, w.c.Real(new(big.Rat)), t)
		}
		return w.c.FUn(OFNeg, t)
	case token.XOR:
		return w.c.BNot(x.(*Term))
	case token.ARROW:
		v, ok := w.chanRecv(x.(*ChanV), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, w.c.Bool(ok)}
		}
		return v
	}
	panic(unsupported{"unop " + in.Op.String()})
}

func (w *W) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	c := w.c
	switch op {
	case token.EQL:
		return w.equal(x, y)
	case token.NEQ:
		return c.Not(w.equal(x, y))
	}
	if sx, ok := x.(StrV); ok {
		sy := y.(StrV)
		switch op {
		case token.ADD:
			return w.strCat(sx, sy)
		case token.LSS:
			return w.strLess(sx, sy)
		case token.GTR:
			return w.strLess(sy, sx)
		case token.LEQ:
			return c.Not(w.strLess(sy, sx))
		case token.GEQ:
			return c.Not(w.strLess(sx, sy))
		}
	}
	a, ok := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok || !ok2 {
		panic(unsupported{fmt.Sprintf("binop %s on %T", op, x)})
	}
	switch a.sort.K {
	case SF64, SF32:
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, a, b)
		case token.SUB:
			return c.FBin(OFSub, a, b)
		case token.MUL:
			return c.FBin(OFMul, a, b)
		case token.QUO:
			return c.FBin(OFDiv, a, b)
		case token.LSS:
			return c.FCmp(OFLt, a, b)
		case token.GTR:
			return c.FCmp(OFLt, b, a)
		case token.LEQ:
			return c.FCmp(OFLe, a, b)
		case token.GEQ:
			return c.FCmp(OFLe, b, a)
		}
	case SReal:
		switch op {
		case token.ADD:
			return c.RBin(ORAdd, a, b)
		case token.SUB:
			return c.RBin(ORSub, a, b)
		case token.MUL:
			return c.RBin(ORMul, a, b)
		case token.QUO:
			if b.isConst() && b.rat.Sign() == 0 {
				return c.Var("real_nan", RealS)
			}
			if !b.isConst() {
				// division by a symbolic real: split off zero
				if w.decide(c.Eq(b, c.Real(new(big.Rat))), nil) {
					return c.Var("real_nan", RealS)
				}
			}
			return c.RBin(ORDiv, a, b)
		case token.LSS:
			return c.RCmp(ORLt, a, b)
		case token.GTR:
			return c.RCmp(ORLt, b, a)
		case token.LEQ:
			return c.RCmp(ORLe, a, b)
		case token.GEQ:
			return c.RCmp(ORLe, b, a)
		}
	case SBV:
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(a, b)
		case token.SUB:
			return c.Sub(a, b)
		case token.MUL:
			return c.Mul(a, b)
		case token.QUO, token.REM:
			w.must(c.Not(c.Eq(b, c.BV(b.width(), 0))), "integer divide by zero")
			if op == token.QUO {
				if sg {
					return c.SDiv(a, b)
				}
				return c.UDiv(a, b)
			}
			if sg {
				return c.SRem(a, b)
			}
			return c.URem(a, b)
		case token.AND:
			return c.BAnd(a, b)
		case token.OR:
			return c.BOr(a, b)
		case token.XOR:
			return c.BXor(a, b)
		case token.AND_NOT:
			return c.BAnd(a, c.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) && !b.nonneg() {
				w.must(c.Sle(c.BV(b.width(), 0), b), "negative shift amount")
			}
			return w.shift(op, sg, a, b)
		case token.LSS:
			return w.less(sg, a, b)
		case token.GTR:
			return w.less(sg, b, a)
		case token.LEQ:
			return c.Not(w.less(sg, b, a))
		case token.GEQ:
			return c.Not(w.less(sg, a, b))
		}
	case SBool:
		switch op {
		case token.AND, token.LAND:
			return c.And(a, b)
		case token.OR, token.LOR:
			return c.Or(a, b)
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %s", op, t)})
}

func (w *W) less(sg bool, a, b *Term) *Term {
	if sg {
		return w.c.Slt(a, b)
	}
	return w.c.Ult(a, b)
}

func (w *W) shift(op token.Token, signed bool, a, n *Term) *Term {
	c := w.c
	wd := a.width()
	var small *Term
	over := c.False
	if n.width() > wd {
		over = c.Not(c.Ult(n, c.BV(n.width(), uint64(wd))))
		small = c.Extract(n, wd-1, 0)
	} else {
		small = c.ZExt(n, wd)
	}
	switch {
	case op == token.SHL:
		return c.Ite(over, c.BV(wd, 0), c.Shl(a, small))
	case signed:
		return c.Ite(over, c.Ashr(a, c.BV(wd, uint64(wd-1))), c.Ashr(a, small))
	}
	return c.Ite(over, c.BV(wd, 0), c.Lshr(a, small))
}

func (w *W) fieldAddr(x Value, f int) Value {
	switch p := x.(type) {
	case *Value:
		if p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T", *p)})
		}
		return &s[f]
	case MuxPtr:
		m := MuxPtr{conds: p.conds}
		for _, q := range p.ptrs {
			m.ptrs = append(m.ptrs, &(*q).(Struct)[f])
		}
		return m
	}
	panic(unsupported{fmt.Sprintf("field address of %T", x)})
}

const muxLimit = 300

func (w *W) cellsAddr(a []Value, i *Term) Value {
	n := len(a)
	w.must(w.c.Ult(i, w.c.Int(n)), fmt.Sprintf("index out of range with length %d", n))
	if i.isConst() {
		return &a[i.x]
	}
	lo, hi := int(min(i.lo, uint64(n-1))), int(min(i.hi, uint64(n-1)))
	if hi-lo+1 > muxLimit {
		k := w.concretise(i, "index")
		return &a[k]
	}
	m := MuxPtr{}
	for k := lo; k <= hi; k++ {
		cd := w.c.Eq(i, w.c.Int(k))
		if cd == w.c.False {
			continue
		}
		if v, ok := w.known(cd); ok {
			if !v {
				continue
			}
			return &a[k]
		}
		m.ptrs = append(m.ptrs, &a[k])
		m.conds = append(m.conds, cd)
	}
	if len(m.ptrs) == 1 {
		return m.ptrs[0]
	}
	return m
}

func (w *W) indexAddr(x Value, i *Term) Value {
	switch x := x.(type) {
	case Slice:
		if i.isConst() {
			if i.x < uint64(len(x.a)) {
				return &x.a[i.x]
			}
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.x), len(x.a)))
		}
		return w.cellsAddr(x.a, i)
	case BigSlice:
		w.must(w.c.Ult(i, x.len), "index out of range")
		return BigPtr{x.arr, w.c.Add(x.off, i)}
	case *Value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return w.cellsAddr((*x).(Array), i)
	case MuxPtr:
		return w.cellsAddr((*w.pick(x)).(Array), i)
	}
	panic(unsupported{fmt.Sprintf("index address of %T", x)})
}

func (w *W) index(x Value, i *Term) Value {
	switch x := x.(type) {
	case Array:
		p := w.cellsAddr(x, i)
		par := w.par
		w.par = nil
		v := w.load(p)
		w.par = par
		return v
	case StrV:
		n := x.Len()
		w.must(w.c.Ult(i, w.c.Int(n)), "index out of range")
		if i.isConst() {
			return w.strByte(x, int(i.x))
		}
		r := w.strByte(x, n-1)
		for k := n - 2; k >= 0; k-- {
			r = w.c.Ite(w.c.Eq(i, w.c.Int(k)), w.strByte(x, k), r)
		}
		return r
	}
	panic(unsupported{fmt.Sprintf("index of %T", x)})
}

func (w *W) lookup(fr *frame, in *ssa.Lookup) Value {
	x := w.get(fr, in.X)
	if s, ok := x.(StrV); ok {
		return w.index(s, w.idx64(w.get(fr, in.Index), in.Index.Type()))
	}
	m := x.(*MapV)
	e := w.mapFind(m, w.get(fr, in.Index))
	var v Value
	if e != nil {
		v = w.copyVal(*e.cell)
	} else {
		v = w.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, w.c.Bool(e != nil)}
	}
	return v
}

func (w *W) newSlice(elem types.Type, n, cp int) Slice {
	a := w.newCells(cp)
	z := w.zero(elem)
	switch z.(type) {
	case Struct, Array:
		for i := range a {
			a[i] = w.zero(elem)
		}
	default:
		for i := range a {
			a[i] = z
		}
	}
	if a == nil {
		a = []Value{}
	}
	return Slice{a[:n:cp]}
}

func elemWidth(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0
	}
	return basicWidth(b)
}

func (w *W) makeSlice(in *ssa.MakeSlice, n, cp *Term) Value {
	elem := in.Type().Underlying().(*types.Slice).Elem()
	ew := elemWidth(elem)
	c := w.c
	w.must(c.Sle(c.BV(64, 0), n), "makeslice: len out of range")
	sz := max(ew/8, 1)
	w.must(c.Ult(n, c.BV(64, uint64(1<<47)/uint64(sz))), "makeslice: len out of range")
	if cp != n {
		w.must(c.Sle(n, cp), "makeslice: cap out of range")
		w.must(c.Ult(cp, c.BV(64, uint64(1<<47)/uint64(sz))), "makeslice: cap out of range")
	}
	if w.job.maxAlloc > 0 {
		if !w.decide(c.Ult(cp, c.BV(64, uint64(w.job.maxAlloc))), nil) {
			w.goPanicStr("allocation beyond the harness limit")
		}
	}
	if ew > 0 && (n.hi > bigThreshold || cp.hi > bigThreshold) && (!n.isConst() || n.x > bigThreshold) {
		small := false
		if !n.isConst() {
			small = w.decide(c.Ult(n, c.BV(64, 64)), nil) && w.decide(c.Ult(cp, c.BV(64, 64)), nil)
		}
		if !small {
			if w.mergeDepth > 0 {
				panic(mergeAbort{"big alloc"})
			}
			arr := &BigArr{w: ew}
			arr.t = c.ConstArr(c.BV(ew, 0))
			return BigSlice{arr, c.BV(64, 0), n, cp}
		}
	}
	nn := int(w.concretise(n, "slice length"))
	cc := nn
	if cp != n {
		cc = int(w.concretise(cp, "slice capacity"))
	}
	return w.newSlice(elem, nn, cc)
}

func (w *W) slice(fr *frame, in *ssa.Slice) Value {
	x := w.get(fr, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return w.idx64(w.get(fr, v), v.Type())
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	return w.sliceVal(x, lo, hi, mx)
}

func (w *W) sliceVal(x Value, lo, hi, mx *Term) Value {
	c := w.c
	if lo == nil {
		lo = c.BV(64, 0)
	}
	switch x := x.(type) {
	case StrV:
		n := x.Len()
		if hi == nil {
			hi = c.Int(n)
		}
		w.must(c.Ule(hi, c.Int(n)), fmt.Sprintf("slice bounds out of range with length %d", n))
		w.must(c.Ule(lo, hi), "slice bounds out of range")
		l, h := int(w.concretise(lo, "slice bound")), int(w.concretise(hi, "slice bound"))
		return x.sub(l, h)
	case BigSlice:
		if hi == nil {
			hi = x.len
		}
		cp := x.cap
		if mx != nil {
			w.must(c.Ule(mx, x.cap), "slice bounds out of range")
			cp = mx
		}
		w.must(c.Ule(hi, cp), "slice bounds out of range")
		w.must(c.Ule(lo, hi), "slice bounds out of range")
		return BigSlice{x.arr, c.Add(x.off, lo), c.Sub(hi, lo), c.Sub(cp, lo)}
	}
	var a []Value
	isNil := false
	switch x := x.(type) {
	case Slice:
		a = x.a
		isNil = a == nil
	case *Value:
		if x == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		a = (*x).(Array)
	case MuxPtr:
		a = (*w.pick(x)).(Array)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	cp := cap(a)
	if hi == nil {
		hi = c.Int(len(a))
	}
	m := cp
	if mx != nil {
		w.must(c.Ule(mx, c.Int(cp)), "slice bounds out of range")
		m = int(w.concretise(mx, "slice bound"))
	}
	w.must(c.Ule(hi, c.Int(m)), fmt.Sprintf("slice bounds out of range with capacity %d", m))
	w.must(c.Ule(lo, hi), "slice bounds out of range")
	h := int(w.concretise(hi, "slice bound"))
	l := int(w.concretise(lo, "slice bound"))
	if isNil {
		return Slice{}
	}
	return Slice{a[l:h:m]}
}

// conversions ------------------------------------------------------------------------

func (w *W) convert(to, from types.Type, v Value) Value {
	c := w.c
	ut, uf := to.Underlying(), from.Underlying()
	switch f := uf.(type) {
	case *types.Basic:
		if f.Info()&types.IsString != 0 {
			s := v.(StrV)
			switch t := ut.(type) {
			case *types.Slice:
				if basicWidth(t.Elem().Underlying().(*types.Basic)) == 8 {
					b := w.strTerms(s)
					a := w.newCells(len(b))
					for i := range b {
						a[i] = b[i]
					}
					if a == nil {
						a = []Value{}
					}
					return Slice{a}
				}
				// []rune
				rs := []rune(w.concStr(s, "rune conversion"))
				a := w.newCells(len(rs))
				for i := range rs {
					a[i] = c.BV(32, uint64(rs[i]))
				}
				return Slice{a}
			}
			return v
		}
		if f.Kind() == types.UnsafePointer {
			u := v.(UPtr)
			if _, ok := ut.(*types.Pointer); ok {
				if u.v == nil {
					return (*Value)(nil)
				}
				return u.v
			}
			if b, ok := ut.(*types.Basic); ok && b.Kind() == types.Uintptr {
				panic(unsupported{"uintptr of pointer"})
			}
			return v
		}
		t, ok := ut.(*types.Basic)
		if !ok {
			panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
		}
		x := v.(*Term)
		if t.Info()&types.IsString != 0 {
			return str(string(rune(int32(w.concretise(x, "rune to string")))))
		}
		if t.Kind() == types.UnsafePointer {
			return UPtr{}
		}
		switch {
		case f.Info()&types.IsInteger != 0 && t.Info()&types.IsInteger != 0:
			n := basicWidth(t)
			if f.Info()&types.IsUnsigned == 0 {
				return c.SExt(x, n)
			}
			return c.ZExt(x, n)
		case f.Info()&types.IsInteger != 0 && t.Info()&types.IsFloat != 0:
			if w.reals {
				return w.intToReal(x, f.Info()&types.IsUnsigned == 0)
			}
			if w.job.concFloat && !x.isConst() {
				x = w.c.BV(x.width(), w.concretise(x, "conversion to a float"))
			}
			r := c.IToF(x, f.Info()&types.IsUnsigned == 0)
			if t.Kind() == types.Float32 {
				return c.FToF(r, SF32)
			}
			return r
		case f.Info()&types.IsFloat != 0 && t.Info()&types.IsInteger != 0:
			if x.sort.K == SReal {
				if x.isConst() {
					q, _ := x.rat.Float64()
					return c.FToI(c.F64(q), basicWidth(t), t.Info()&types.IsUnsigned == 0)
				}
				panic(unsupported{"real to integer"})
			}
			if !x.isConst() {
				w.eng.note("float to integer conversion of a symbolic value")
			}
			return c.FToI(x, basicWidth(t), t.Info()&types.IsUnsigned == 0)
		case f.Info()&types.IsFloat != 0 && t.Info()&types.IsFloat != 0:
			if x.sort.K == SReal {
				return x
			}
			if t.Kind() == types.Float32 {
				return c.FToF(x, SF32)
			}
			return c.FToF(x, SF64)
		}
	case *types.Slice:
		switch t := ut.(type) {
		case *types.Basic:
			if t.Info()&types.IsString != 0 {
				return w.bytesToStr(v, f)
			}
		case *types.Slice:
			return v
		}
	case *types.Pointer:
		if b, ok := ut.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return UPtr{v}
		}
		return v
	case *types.Interface, *types.Struct, *types.Map, *types.Signature, *types.Chan, *types.Array:
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func (w *W) intToReal(x *Term, signed bool) *Term {
	if x.isConst() {
		r := new(big.Rat)
		if signed {
			r.SetInt64(sx(x.x, x.sort.W))
		} else {
			r.SetInt(new(big.Int).SetUint64(x.x))
		}
		// large integers round when converted
		if f, exact := r.Float64(); !exact {
			r.SetFloat64(f)
		}
		return w.c.Real(r)
	}
	if x.op == OIte && x.sort.W <= 64 {
		return w.mapIte(x, func(t *Term) *Term { return w.intToReal1(t, signed) })
	}
	return w.intToReal1(x, signed)
}

func (w *W) intToReal1(x *Term, signed bool) *Term {
	if x.isConst() {
		return w.intToReal(x, signed)
	}
	from := func(t *Term) *Term { return w.c.mk(ORFromU, RealS, t, nil, nil, 0, "") }
	if signed && w.span(x).hi>>(x.sort.W-1) != 0 {
		neg := w.c.Eq(w.c.Extract(x, x.width()-1, x.width()-1), w.c.BV(1, 1))
		return w.c.Ite(neg, w.c.RBin(ORSub, w.c.Real(new(big.Rat)), from(w.c.Neg(x))), from(x))
	}
	return from(x)
}

// intOf is the integer a float was converted from, as a signed number of 64
// bits.
func (w *W) intOf(y *Term) *Term {
	if v, ok := constF(y); ok {
		if v != math.Trunc(v) || math.Abs(v) > 1<<31 {
			return nil
		}
		return w.c.BV(64, uint64(int64(v)))
	}
	switch y.op {
	case ORFromU, OUToF:
		return w.c.ZExt(y.a[0], 64)
	case OSToF:
		return w.c.SExt(y.a[0], 64)
	case OFNeg, ORNeg:
		if x := w.intOf(y.a[0]); x != nil {
			return w.c.Neg(x)
		}
	case ORSub, OFSub:
		a, b := w.intOf(y.a[0]), w.intOf(y.a[1])
		if a != nil && b != nil {
			return w.c.Sub(a, b)
		}
	case OIte:
		a, b := w.intOf(y.a[1]), w.intOf(y.a[2])
		if a != nil && b != nil {
			return w.c.Ite(y.a[0], a, b)
		}
	}
	return nil
}

// ldexp is x times two to the power e, or nil.
func (w *W) ldexp(x, e *Term) *Term {
	at := func(k int) *Term {
		if v, ok := constF(x); ok {
			return w.f64const(math.Ldexp(v, k))
		}
		f := w.f64const(math.Ldexp(1, k))
		if x.sort.K == SReal {
			return w.c.RBin(ORMul, x, f)
		}
		return w.c.FBin(OFMul, x, f)
	}
	var rec func(e *Term) *Term
	rec = func(e *Term) *Term {
		if e.isConst() {
			k := int64(e.x)
			if k < -1000 || k > 1000 {
				return nil
			}
			return at(int(k))
		}
		if e.op == OIte {
			a, b := rec(e.a[1]), rec(e.a[2])
			if a == nil || b == nil {
				return nil
			}
			return w.c.Ite(e.a[0], a, b)
		}
		sign, n := 1, e
		r := w.span(n)
		if r.hi > 300 {
			sign, n = -1, w.c.Neg(e)
			r = w.span(n)
		}
		if r.hi > 300 {
			return nil
		}
		t := at(sign * int(r.hi))
		for k := r.hi; k > r.lo; k-- {
			t = w.c.Ite(w.c.Eq(n, w.c.BV(64, k-1)), at(sign*int(k-1)), t)
		}
		return t
	}
	return rec(e)
}

func (w *W) bytesToStr(v Value, st *types.Slice) StrV {
	switch s := v.(type) {
	case Slice:
		if b, ok := st.Elem().Underlying().(*types.Basic); ok && basicWidth(b) == 32 {
			var sb strings.Builder
			for i := range s.a {
				sb.WriteRune(rune(int32(w.concretise(s.a[i].(*Term), "rune"))))
			}
			return str(sb.String())
		}
		return mkStr(w.byteTerms(s))
	case BigSlice:
		return mkStr(w.byteTerms(v))
	}
	panic(unsupported{fmt.Sprintf("string of %T", v)})
}

// byteTerms reads all elements of a byte slice.
func (w *W) byteTerms(v Value) []*Term {
	switch s := v.(type) {
	case Slice:
		b := make([]*Term, len(s.a))
		for i := range s.a {
			b[i] = w.loadFrom(&s.a[i]).(*Term)
		}
		return b
	case BigSlice:
		n := int(w.concretise(s.len, "length of a large slice"))
		b := make([]*Term, n)
		arr := s.arr.t.(*Term)
		if s.off.isConst() { // stores at known places, the latest first
			for ; arr.op == OStore && arr.a[1].isConst(); arr = arr.a[0] {
				if i := arr.a[1].x - s.off.x; i < uint64(n) && b[i] == nil {
					b[i] = arr.a[2]
				}
			}
		}
		for i := range b {
			if b[i] == nil {
				b[i] = w.c.Select(arr, w.c.Add(s.off, w.c.Int(i)))
			}
		}
		return b
	case StrV:
		return w.strTerms(s)
	}
	panic(unsupported{fmt.Sprintf("bytes of %T", v)})
}

func (w *W) concStr(s StrV, why string) string {
	if s.concrete() {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(w.concretise(t, why))
	}
	return string(b)
}

// type assertions ----------------------------------------------------------------------

func (w *W) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && types.Implements(x.t, it) {
			ok = true
			v = x
		}
	} else if x.t != nil && types.Identical(x.t, in.AssertedType) {
		ok = true
		v = w.copyVal(x.v)
	}
	if !ok {
		if !in.CommaOk {
			w.rtPanic(fmt.Sprintf("interface conversion: not %s", in.AssertedType))
		}
		v = w.zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, w.c.Bool(ok)}
	}
	return v
}

// range --------------------------------------------------------------------------------

type iterV struct {
	str  StrV
	m    *MapV
	perm []*MapEntry
	pos  Value // *Term
}

func (w *W) rangeIter(fr *frame, x Value) Value {
	it := &iterV{pos: w.c.BV(64, 0)}
	switch x := x.(type) {
	case StrV:
		it.str = x
	case *MapV:
		it.m = x
		if x != nil {
			for _, e := range x.entries {
				if !e.dead {
					it.perm = append(it.perm, e)
				}
			}
			if len(it.perm) > 1 && fr.fn.Pkg != nil && w.eng.inRepo(fr.fn.Pkg.Pkg.Path()) {
				// iteration order is unspecified: explore every order of small maps
				w.nchoice++
				if len(it.perm) <= 3 {
					for i := 0; i < len(it.perm)-1; i++ {
						k := i + w.choose(len(it.perm)-i)
						it.perm[i], it.perm[k] = it.perm[k], it.perm[i]
					}
				} else {
					w.incompl = append(w.incompl, "only insertion order of a map with more than 3 entries")
				}
			}
		}
	default:
		panic(unsupported{fmt.Sprintf("range over %T", x)})
	}
	return it
}

func (w *W) rangeNext(fr *frame, in *ssa.Next) Value {
	it := w.get(fr, in.Iter).(*iterV)
	p := int(it.pos.(*Term).x)
	if in.IsString {
		if p >= it.str.Len() {
			return Tuple{w.c.False, w.c.BV(64, 0), w.c.BV(32, 0)}
		}
		b := w.strByte(it.str, p)
		if !w.decide(w.c.Ult(b, w.c.BV(8, 0x80)), nil) {
			s := w.concStr(it.str.sub(p, min(it.str.Len(), p+4)), "non-ASCII rune")
			for i, r := range s {
				n := len(string(r))
				if r == 0xfffd {
					n = 1
					if strings.HasPrefix(s, "\xef\xbf\xbd") {
						n = 3
					}
				}
				_ = i
				w.setCell(&it.pos, w.c.Int(p+n))
				return Tuple{w.c.True, w.c.Int(p), w.c.BV(32, uint64(r))}
			}
		}
		w.setCell(&it.pos, w.c.Int(p+1))
		return Tuple{w.c.True, w.c.Int(p), w.c.ZExt(b, 32)}
	}
	tup := in.Type().(*types.Tuple)
	for p < len(it.perm) && it.perm[p].dead {
		p++
	}
	if p >= len(it.perm) {
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return w.zero(t)
		}
		return Tuple{w.c.False, z(tup.At(1).Type()), z(tup.At(2).Type())}
	}
	w.setCell(&it.pos, w.c.Int(p+1))
	e := it.perm[p]
	return Tuple{w.c.True, w.copyVal(e.k), w.copyVal(*e.cell)}
}

// channels -----------------------------------------------------------------------------

type blocked struct{ what string }

func (w *W) chanRecv(ch *ChanV, elem types.Type) (Value, bool) {
	if ch != nil && len(ch.buf) > 0 {
		v := ch.buf[0]
		old := ch.buf
		ch.buf = ch.buf[1:]
		w.onUndo(func() { ch.buf = old })
		return v, true
	}
	if ch != nil && ch.closed {
		return w.zero(elem), false
	}
	if w.mergeDepth > 0 {
		panic(mergeAbort{"chan"})
	}
	if w.pumped(ch) {
		return w.chanRecv(ch, elem)
	}
	w.noChanInPar()
	panic(blocked{"receive"})
}

func (w *W) chanSend(ch *ChanV, v Value) {
	if ch != nil && ch.closed {
		w.goPanicStr("send on closed channel")
	}
	if ch != nil && ch.room() {
		old := ch.buf
		ch.buf = append(append([]Value(nil), ch.buf...), v)
		w.onUndo(func() { ch.buf = old })
		return
	}
	if w.mergeDepth > 0 {
		panic(mergeAbort{"chan"})
	}
	w.noChanInPar()
	panic(blocked{"send"})
}

func (w *W) selectStmt(fr *frame, in *ssa.Select) Value {
	var ready []int
	for i, st := range in.States {
		ch := w.get(fr, st.Chan).(*ChanV)
		if ch == nil {
			continue
		}
		if st.Dir == types.RecvOnly && (len(ch.buf) > 0 || ch.closed) {
			ready = append(ready, i)
		}
		if st.Dir == types.SendOnly && (ch.room() || ch.closed) {
			ready = append(ready, i)
		}
	}
	chosen := -1
	if len(ready) == 1 {
		chosen = ready[0]
	} else if len(ready) > 1 {
		w.nchoice++
		chosen = ready[w.choose(len(ready))]
	} else if in.Blocking {
		if w.mergeDepth > 0 {
			panic(mergeAbort{"select"})
		}
		var chs []*ChanV
		for _, st := range in.States {
			if st.Dir == types.RecvOnly {
				chs = append(chs, w.get(fr, st.Chan).(*ChanV))
			}
		}
		if w.pumped(chs...) {
			return w.selectStmt(fr, in)
		}
		w.noChanInPar()
		panic(blocked{"select"})
	}
	r := Tuple{w.c.Int(chosen), w.c.False}
	for i, st := range in.States {
		if st.Dir != types.RecvOnly {
			if i == chosen {
				w.chanSend(w.get(fr, st.Chan).(*ChanV), w.get(fr, st.Send))
			}
			continue
		}
		el := st.Chan.Type().Underlying().(*types.Chan).Elem()
		v := w.zero(el)
		if i == chosen {
			var ok bool
			v, ok = w.chanRecv(w.get(fr, st.Chan).(*ChanV), el)
			r[1] = w.c.Bool(ok)
		}
		r = append(r, v)
	}
	return r
}

// room tells whether a send does not block: receivers exist only while
// signals are delivered to them.
func (ch *ChanV) room() bool {
	return len(ch.buf) < ch.cap || ch.waits && len(ch.buf) == 0
}

// pumped delivers signals to a thread that waits for channels, until one is ready.
func (w *W) pumped(chs ...*ChanV) bool {
	if w.sigPump == nil || w.par != nil {
		return false
	}
	wait := func(v bool) {
		for _, ch := range chs {
			if ch != nil {
				ch.waits = v
			}
		}
	}
	for {
		wait(true)
		r := w.callClosure(w.curFrame, w.sigPump, nil, nil).(*Term)
		wait(false)
		if r != w.c.True {
			return false
		}
		for _, ch := range chs {
			if ch != nil && (len(ch.buf) > 0 || ch.closed) {
				return true
			}
		}
	}
}

// noChanInPar: threads waiting for channels are outside the model.
func (w *W) noChanInPar() {
	if w.shut && w.served > 0 {
		panic(unsupported{"waiting for a server that was shut down"})
	}
	if w.par != nil {
		panic(unsupported{"a thread waits for a channel"})
	}
}

// goStmt runs a new goroutine to completion at once when it does not block;
// a goroutine that blocks is suspended for good (recorded in the evidence).
func (w *W) goStmt(fr *frame, fn *Closure, args []Value, in *ssa.Go) {
	if w.par != nil {
		panic(unsupported{"go statement the instrumenter left alone"})
	}
	depth, cf := w.depth, w.curFrame
	defer func() {
		w.depth, w.curFrame = depth, cf
		if x := recover(); x != nil {
			if _, ok := x.(blocked); ok {
				w.eng.note("goroutine blocks forever")
				return
			}
			panic(x)
		}
	}()
	w.eng.note("go statement run to completion at its start")
	w.callClosure(fr, fn, args, in)
}

// builtins -------------------------------------------------------------------------------

func (w *W) builtin(fr *frame, b *ssa.Builtin, args []Value, site ssa.CallInstruction) Value {
	c := w.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case StrV:
			return c.Int(x.Len())
		case Slice:
			return c.Int(len(x.a))
		case BigSlice:
			return x.len
		case *MapV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(x.n)
		case Array:
			return c.Int(len(x))
		case *Value:
			return c.Int(len((*x).(Array)))
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(cap(x.a))
		case BigSlice:
			return x.cap
		case Array:
			return c.Int(len(x))
		case *Value:
			return c.Int(len((*x).(Array)))
		case *ChanV:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(x.cap)
		}
	case "append":
		return w.appendVal(args, b)
	case "copy":
		return w.copyBuiltin(args[0], args[1])
	case "delete":
		w.mapDelete(args[0].(*MapV), args[1])
		return Tuple(nil)
	case "panic":
		if w.mergeDepth > 0 {
			panic(mergeAbort{"panic"})
		}
		panic(&goPanic{v: args[0], text: w.describe(args[0]), where: w.where(fr)})
	case "recover":
		// called directly from a deferred function: its caller frame is panicking
		f := fr.caller
		if f != nil && f.panicV != nil {
			p := f.panicV
			f.panicV = nil
			if p.v == nil {
				return Iface{}
			}
			if i, ok := p.v.(Iface); ok {
				return i
			}
			return Iface{t: types.Typ[types.String], v: str(p.text)}
		}
		return Iface{}
	case "close":
		ch := args[0].(*ChanV)
		if ch == nil || ch.closed {
			w.goPanicStr("close of closed or nil channel")
		}
		ch.closed = true
		w.onUndo(func() { ch.closed = false })
		return Tuple(nil)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			if x.sort.K != SBV {
				panic(unsupported{"min/max of floats"})
			}
			lt := w.less(isSigned(b.Type().(*types.Signature).Params().At(0).Type()), y, x)
			if b.Name() == "max" {
				lt = w.less(isSigned(b.Type().(*types.Signature).Params().At(0).Type()), x, y)
			}
			r = c.Ite(lt, y, x)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range append([]*MapEntry(nil), x.entries...) {
					if !e.dead {
						w.mapDelete(x, e.k)
					}
				}
			}
		case Slice:
			for i := range x.a {
				t := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				w.storeInto(&x.a[i], w.zero(t))
			}
		}
		return Tuple(nil)
	case "print", "println":
		return Tuple(nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		n := int(w.concretise(args[1].(*Term), "unsafe.String length"))
		switch p := args[0].(type) {
		case SlicePtr:
			return mkStr(w.byteTerms(Slice{p.a[:n]}))
		case StrPtr:
			return p.s.sub(0, n)
		case *Value:
			if n == 0 {
				return StrV{}
			}
			if n == 1 {
				return mkStr([]*Term{w.loadFrom(p).(*Term)})
			}
		}
		panic(unsupported{fmt.Sprintf("unsafe.String of %T", args[0])})
	case "SliceData":
		s, ok := args[0].(Slice)
		if !ok {
			panic(unsupported{"SliceData"})
		}
		return SlicePtr{s.a}
	case "StringData":
		return StrPtr{args[0].(StrV)}
	case "Slice":
		n := int(w.concretise(args[1].(*Term), "unsafe.Slice length"))
		switch p := args[0].(type) {
		case SlicePtr:
			return Slice{p.a[:n]}
		case StrPtr:
			b := w.strTerms(p.s)
			a := w.newCells(n)
			for i := range a {
				a[i] = b[i]
			}
			return Slice{a}
		}
		panic(unsupported{"unsafe.Slice"})
	}
	panic(unsupported{"builtin " + b.Name() + fmt.Sprintf(" %T", args[0])})
}

func (w *W) appendVal(args []Value, b *ssa.Builtin) Value {
	if len(args) == 1 {
		return args[0]
	}
	var add []Value
	switch y := args[1].(type) {
	case Slice:
		add = make([]Value, len(y.a))
		for i := range y.a {
			add[i] = w.loadFrom(&y.a[i])
		}
	case StrV:
		bs := w.strTerms(y)
		add = make([]Value, len(bs))
		for i := range bs {
			add[i] = bs[i]
		}
	case BigSlice:
		for _, t := range w.byteTerms(y) {
			add = append(add, t)
		}
	default:
		panic(unsupported{fmt.Sprintf("append of %T", y)})
	}
	x, ok := args[0].(Slice)
	if !ok {
		panic(unsupported{fmt.Sprintf("append to %T", args[0])})
	}
	if len(add) == 0 {
		return x
	}
	n := len(x.a)
	if n+len(add) <= cap(x.a) {
		r := x.a[:n+len(add)]
		for i, v := range add {
			w.storeInto(&r[n+i], v)
		}
		return Slice{r}
	}
	nc := 2 * cap(x.a)
	if cap(x.a) > 256 {
		nc = cap(x.a) + cap(x.a)/4 + 192
	}
	nc = max(nc, n+len(add), 4)
	elem := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
	r := w.newCells(nc)
	for i := 0; i < n; i++ {
		r[i] = w.loadFrom(&x.a[i])
	}
	for i, v := range add {
		r[n+i] = w.copyVal(v)
	}
	z := w.zero(elem)
	for i := n + len(add); i < nc; i++ {
		switch z.(type) {
		case Struct, Array:
			r[i] = w.zero(elem)
		default:
			r[i] = z
		}
	}
	return Slice{r[:n+len(add)]}
}

func (w *W) copyBuiltin(dst, src Value) Value {
	c := w.c
	switch d := dst.(type) {
	case Slice:
		switch s := src.(type) {
		case Slice:
			n := min(len(d.a), len(s.a))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = w.loadFrom(&s.a[i])
			}
			for i := 0; i < n; i++ {
				w.storeInto(&d.a[i], tmp[i])
			}
			return c.Int(n)
		case StrV:
			n := min(len(d.a), s.Len())
			for i := 0; i < n; i++ {
				w.storeInto(&d.a[i], w.strByte(s, i))
			}
			return c.Int(n)
		case BigSlice:
			nt := c.Ite(c.Ult(s.len, c.Int(len(d.a))), s.len, c.Int(len(d.a)))
			n := int(w.concretise(nt, "copy length"))
			for i := 0; i < n; i++ {
				w.storeInto(&d.a[i], c.Select(s.arr.t.(*Term), c.Add(s.off, c.Int(i))))
			}
			return c.Int(n)
		}
	case BigSlice:
		switch s := src.(type) {
		case Slice, StrV:
			bs := w.byteTerms(s)
			nt := c.Ite(c.Ult(d.len, c.Int(len(bs))), d.len, c.Int(len(bs)))
			n := int(w.concretise(nt, "copy length"))
			t := d.arr.t.(*Term)
			for i := 0; i < n; i++ {
				t = c.Store(t, c.Add(d.off, c.Int(i)), bs[i])
			}
			w.setCell(&d.arr.t, t)
			return c.Int(n)
		case BigSlice:
			// whole-array copy when the ranges coincide
			if d.len == s.len && d.off == s.off && d.off.isConst() && d.off.x == 0 && d.len == d.cap {
				w.setCell(&d.arr.t, s.arr.t)
				return d.len
			}
			n := int(w.concretise(d.len, "copy length"))
			m := int(w.concretise(s.len, "copy length"))
			n = min(n, m)
			if n > 100000 {
				panic(unsupported{"large copy"})
			}
			t := d.arr.t.(*Term)
			st := s.arr.t.(*Term)
			for i := 0; i < n; i++ {
				t = c.Store(t, c.Add(d.off, c.Int(i)), c.Select(st, c.Add(s.off, c.Int(i))))
			}
			w.setCell(&d.arr.t, t)
			return c.Int(n)
		}
	}
	panic(unsupported{fmt.Sprintf("copy %T from %T", dst, src)})
}

// describe renders a value for messages.
func (w *W) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if p, ok := x.v.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				return w.describe(s[0])
			}
		}
		return w.describe(x.v)
	case StrV:
		if x.concrete() {
			return x.s
		}
		return "<symbolic string>"
	case *Term:
		if x.isConst() {
			return fmt.Sprint(x.x)
		}
		return "<symbolic>"
	}
	return fmt.Sprintf("%T", v)
}
