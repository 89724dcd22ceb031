package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Non-local exits of the interpreter.
type mergeAbort struct{ why string }
type unsupported struct{ what string }
type pathEnd struct{ why string } // "assume", "limit", ...
type goPanic struct {             // a panic of the program under test
	v     Value
	rt    bool
	text  string
	where string
}
type misaligned struct{ what string }

// dec is one entry of the decision trail of a path.
type dec struct {
	kind   byte // b branch, c concretise, a assume/assert, n choice
	idx    int
	alts   []int
	val    uint64
	pushed bool // owns a solver level
	ready  bool // the level is on the solver stack of this worker
	inner  []int8
	ipos   int
}

type inputRec struct {
	kind  string // u64 u8 bytes bool choose f64 big par
	label string
	terms []*Term
	conc  uint64
	big   *BigArr
	sched func(m map[*Term]uint64) interface{}
}

type obsRec struct {
	label string
	v     []*Term
	kind  string
}

// W is one exploration worker: a term context, a solver and the state of the
// path being executed.
type W struct {
	id  int
	eng *Engine
	job *Job
	c   *Ctx
	s   *Solver

	journal    []undo
	fresh      [][2]uintptr
	freshKeep  [][]Value
	permanent  int
	mergeDepth int
	sigPump    *Closure // delivers the next signal of nd.Signals
	shut       bool     // the HTTP server was stopped
	served     int      // HTTP servers started
	guards     []*Term
	curMerge   *dec
	siteDepth  map[ssa.Instruction]int

	trail []*dec
	pos   int
	facts map[*Term]bool
	rngs  map[*Term]rng // intervals on this path, see bounds.go
	rmemo map[*Term]rng
	factL []*Term

	nvar     int
	inputs   []inputRec
	items    []item
	obs      []obsRec
	reads    map[*Term][]*Term // base array var -> indexes selected (for models)
	steps    int
	since    int // steps since the last decision
	depth    int
	reals    bool
	tokens   map[*Term]*floatTok
	par      *Par
	curFrame *frame
	incompl  []string

	globals   map[*ssa.Global]*Value
	inited    map[*ssa.Package]bool
	fns       map[*ssa.Function]*fnInfo
	consts    map[*ssa.Const]Value
	used      map[*ssa.Function]bool
	meths     map[methKey]*ssa.Function
	initing   int
	extra     map[string]Value
	mergeN    int
	branchN   int
	pathInit  bool
	nchoice   int
	stepLimit int
}

type methKey struct {
	t  string
	nm string
}

func (w *W) next(kind byte) (*dec, bool) {
	w.since = 0
	if w.pos < len(w.trail) {
		d := w.trail[w.pos]
		if d.kind != kind {
			panic(misaligned{fmt.Sprintf("decision %d: %c vs %c", w.pos, d.kind, kind)})
		}
		w.pos++
		d.ipos = 0
		return d, false
	}
	d := &dec{kind: kind}
	w.trail = append(w.trail, d)
	w.pos++
	return d, true
}

// take makes t part of the path condition on behalf of decision d.
func (w *W) take(d *dec, t *Term) {
	if d.pushed && !d.ready {
		w.s.Push()
		w.s.Assert(t)
	}
	d.ready = true
	w.fact(t, true)
}

func (w *W) fact(t *Term, v bool) {
	if t.op == ONot {
		t, v = t.a[0], !v
	}
	w.facts[t] = v
	w.learn(t, v)
	if v && t.op == OAnd {
		w.fact(t.a[0], true)
		w.fact(t.a[1], true)
	}
	if !v && t.op == OOr {
		w.fact(t.a[0], false)
		w.fact(t.a[1], false)
	}
}

func (w *W) known(t *Term) (bool, bool) {
	if t.isConst() {
		return t.x == 1, true
	}
	neg := false
	if t.op == ONot {
		t = t.a[0]
		neg = true
	}
	if v, ok := w.facts[t]; ok {
		return v != neg, true
	}
	for _, g := range w.guards {
		gn := false
		if g.op == ONot {
			g, gn = g.a[0], true
		}
		if g == t {
			return gn == neg, true
		}
	}
	if v, ok := w.bySpan(t); ok {
		return v != neg, true
	}
	switch t.op {
	case OAnd:
		a, ka := w.known(t.a[0])
		b, kb := w.known(t.a[1])
		if (ka && !a) || (kb && !b) {
			return neg, true
		}
		if ka && kb {
			return !neg, true
		}
	case OOr:
		a, ka := w.known(t.a[0])
		b, kb := w.known(t.a[1])
		if (ka && a) || (kb && b) {
			return !neg, true
		}
		if ka && kb {
			return neg, true
		}
	}
	return false, false
}

func (w *W) guard() *Term {
	g := w.c.True
	for _, x := range w.guards {
		g = w.c.And(g, x)
	}
	return g
}

func (w *W) check(t *Term) Result {
	w.outOfTime()
	r := w.s.Check(t, w.job.branchMs)
	if dbg == "unk" && r == Unknown {
		fmt.Fprintf(os.Stderr, "unknown at %s\n%s", w.where(w.curFrame), w.stack())
		if os.Getenv("ENGDUMP") != "" {
			w.dump(t, "branch")
		}
	}
	return r
}

// decide resolves a symbolic condition to a concrete truth value, forking the
// path when both are possible.
func (w *W) decide(cond *Term, at ssa.Instruction) bool {
	if v, ok := w.known(cond); ok {
		return v
	}
	if w.par != nil {
		w.par.touch(cond)
	}
	if w.mergeDepth > 0 {
		t, f := w.innerFeasible(cond)
		if t && f {
			panic(mergeAbort{"fork"})
		}
		return t
	}
	d, fresh := w.next('b')
	if fresh {
		w.branchN++
		w.feasible2(d, cond)
	}
	if d.idx == 0 {
		w.take(d, cond)
		return true
	}
	w.take(d, w.c.Not(cond))
	return false
}

// feasible2 fills in a fresh branch decision.
func (w *W) feasible2(d *dec, cond *Term) {
	rt := w.check(cond)
	rf := Sat
	if rt != Unsat {
		rf = w.check(w.c.Not(cond))
	}
	switch {
	case rt == Unsat && rf == Unsat:
		w.trail = w.trail[:len(w.trail)-1]
		w.pos--
		panic(pathEnd{"infeasible"})
	case rt == Unsat:
		d.idx = 1
	case rf == Unsat:
		d.idx = 0
	default:
		d.idx = 0
		d.alts = []int{1}
		d.pushed = true
	}
}

// innerFeasible answers feasibility of both sides inside a merge region, and
// records the answers in the enclosing decision so that re-execution needs no
// solver.
func (w *W) innerFeasible(cond *Term) (bool, bool) {
	d := w.curMerge
	if d.ipos < len(d.inner) {
		x := d.inner[d.ipos]
		d.ipos++
		return x&1 != 0, x&2 != 0
	}
	g := w.guard()
	rt := w.check(w.c.And(g, cond))
	rf := Sat
	if rt != Unsat {
		rf = w.check(w.c.And(g, w.c.Not(cond)))
	}
	var x int8
	if rt != Unsat {
		x |= 1
	}
	if rf != Unsat {
		x |= 2
	}
	d.inner = append(d.inner, x)
	d.ipos++
	return x&1 != 0, x&2 != 0
}

// concretise forks over the possible values of t.
func (w *W) concretise(t *Term, why string) uint64 {
	if t.isConst() {
		return t.x
	}
	if w.mergeDepth > 0 {
		panic(mergeAbort{"concretise"})
	}
	if w.par != nil {
		w.par.touch(t)
	}
	for n := 0; ; n++ {
		if n > w.job.maxConc {
			w.incompl = append(w.incompl, "more than "+fmt.Sprint(w.job.maxConc)+" values for "+why)
			panic(pathEnd{"limit"})
		}
		d, fresh := w.next('c')
		if fresh {
			r, m := w.s.CheckModel(nil, []*Term{t}, w.job.branchMs)
			if r != Sat {
				w.trail = w.trail[:len(w.trail)-1]
				w.pos--
				if r == Unsat {
					panic(pathEnd{"infeasible"})
				}
				w.incompl = append(w.incompl, "unknown while enumerating "+why)
				panic(pathEnd{"unknown"})
			}
			d.val = m[t]
			if w.check(w.c.Not(w.c.Eq(t, w.c.BV(t.width(), d.val)))) != Unsat {
				d.alts = []int{1}
				d.pushed = true
			}
		}
		eq := w.c.Eq(t, w.c.BV(t.width(), d.val))
		if d.idx == 0 {
			w.take(d, eq)
			return d.val
		}
		w.take(d, w.c.Not(eq))
	}
}

func (w *W) choose(n int) int {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"choose"})
	}
	d, fresh := w.next('n')
	if fresh {
		for i := 1; i < n; i++ {
			d.alts = append(d.alts, i)
		}
	}
	d.ready = true
	return d.idx
}

func (w *W) assume(t *Term) {
	if v, ok := w.known(t); ok {
		if v {
			return
		}
		if w.mergeDepth > 0 {
			panic(mergeAbort{"assume"})
		}
		panic(pathEnd{"assume"})
	}
	if w.mergeDepth > 0 {
		panic(mergeAbort{"assume"})
	}
	if w.par != nil {
		w.par.touch(t)
	}
	d, fresh := w.next('a')
	if fresh {
		d.pushed = true
		w.s.Push()
		w.s.Assert(t)
		d.ready = true
		if w.check(w.c.True) == Unsat {
			panic(pathEnd{"assume"})
		}
	}
	w.take(d, t)
}

// backtrack moves the trail to the next unexplored path.
func (w *W) backtrack() bool {
	for len(w.trail) > 0 {
		d := w.trail[len(w.trail)-1]
		if d.pushed && d.ready {
			w.s.Pop(1)
		}
		if len(d.alts) > 0 {
			d.idx = d.alts[0]
			d.alts = d.alts[1:]
			d.ready = false
			return true
		}
		w.trail = w.trail[:len(w.trail)-1]
	}
	return false
}

// donate splits off the shallowest unexplored alternative.
func (w *W) donate() []*dec {
	for i, d := range w.trail {
		if len(d.alts) == 0 {
			continue
		}
		alt := d.alts[len(d.alts)-1]
		d.alts = d.alts[:len(d.alts)-1]
		pre := make([]*dec, i+1)
		for k := range pre {
			o := w.trail[k]
			pre[k] = &dec{kind: o.kind, idx: o.idx, val: o.val, pushed: o.pushed, inner: append([]int8(nil), o.inner...)}
		}
		pre[i].idx = alt
		return pre
	}
	return nil
}

// frames ------------------------------------------------------------------------

type deferred struct {
	fn   Value
	args []Value
	in   *ssa.Defer
}

type frame struct {
	fn       *ssa.Function
	fi       *fnInfo
	env      []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	entering bool
	defers   []deferred
	result   Value
	caller   *frame
	panicV   *goPanic
	recov    bool
	region   int
	at       ssa.Instruction
	tolerant bool
}

func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	fr.entering = true
}

func (w *W) where(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.at != nil && f.at.Pos().IsValid() {
			p := w.eng.prog.Fset.Position(f.at.Pos())
			if strings.HasPrefix(p.Filename, w.eng.repo) || f.caller == nil {
				return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, w.eng.repo+"/"), p.Line)
			}
		}
	}
	return ""
}

func (w *W) stack() string {
	var sb strings.Builder
	for f := w.curFrame; f != nil; f = f.caller {
		p := ""
		if f.at != nil && f.at.Pos().IsValid() {
			p = w.eng.prog.Fset.Position(f.at.Pos()).String()
		}
		fmt.Fprintf(&sb, "  %s %s\n", f.fn, p)
	}
	return sb.String()
}

func (w *W) rtPanic(msg string) {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"panic"})
	}
	panic(&goPanic{v: Iface{t: w.eng.rtErrType, v: str("runtime error: " + msg)}, rt: true, text: "runtime error: " + msg, where: w.where(w.curFrame)})
}

func (w *W) goPanicStr(msg string) {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"panic"})
	}
	panic(&goPanic{v: Iface{t: types.Typ[types.String], v: str(msg)}, text: msg, where: w.where(w.curFrame)})
}

// must forks on a safety condition; the failing side panics.
func (w *W) must(ok *Term, msg string) {
	if ok == w.c.True {
		return
	}
	if !w.decide(ok, nil) {
		w.rtPanic(msg)
	}
}

func (w *W) info(fn *ssa.Function) *fnInfo {
	fi := w.fns[fn]
	if fi == nil {
		fi = newFnInfo(fn)
		w.fns[fn] = fi
	}
	return fi
}

func (w *W) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return w.constVal(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return w.global(v)
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	return fr.env[fr.fi.idx[v]]
}

func (w *W) set(fr *frame, v ssa.Value, x Value) {
	fr.env[fr.fi.idx[v]] = x
}

// call runs a function value.
func (w *W) callClosure(fr *frame, c *Closure, args []Value, site ssa.CallInstruction) Value {
	if c == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(w, fr, args)
	}
	if c.bi != nil {
		return w.builtin(fr, c.bi, args, site)
	}
	return w.callFn(fr, c.fn, args, c.free)
}

func (w *W) callFn(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	fi := w.info(fn)
	if h := intrinsics[fi.name]; h != nil {
		return h(w, caller, fn, args)
	}
	if o := fn.Origin(); o != nil && o != fn {
		if h := intrinsics[o.String()]; h != nil {
			return h(w, caller, fn, args)
		}
	}
	if h := advice[fi.name]; h != nil {
		if v, ok := h(w, fn, args); ok {
			return v
		}
	}
	if fn.Pkg != nil {
		if fn == fn.Pkg.Func("init") && fn.Parent() == nil {
			return Tuple(nil) // package initialisation is lazy
		}
		w.ensureInit(fn.Pkg)
	}
	if fn.Blocks == nil {
		panic(unsupported{"external function " + fi.name})
	}
	if !w.used[fn] {
		w.used[fn] = true
	}
	w.depth++
	if w.depth > 3000 {
		panic(unsupported{"call depth"})
	}
	fr := &frame{fn: fn, fi: fi, env: make([]Value, fi.n), caller: caller, block: fn.Blocks[0]}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], free)
	w.curFrame = fr
	if fn.Recover == nil && !hasDefer(fn) {
		w.run(fr, nil)
	} else {
		w.runWithDefers(fr)
	}
	w.curFrame = caller
	w.depth--
	return fr.result
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// runWithDefers executes a frame that may defer or recover.
func (w *W) runWithDefers(fr *frame) {
	depth := w.depth
	for fr.block != nil {
		gp := w.runCatch(fr)
		if gp == nil {
			return
		}
		w.depth = depth
		w.curFrame = fr
		// panicking: run the deferred calls
		fr.panicV = gp
		w.runDefers(fr)
		if fr.panicV != nil {
			panic(fr.panicV)
		}
		// recovered
		if fr.fn.Recover != nil {
			fr.prev = nil
			fr.block = fr.fn.Recover
			fr.entering = false
			fr.pc = 0
		} else {
			fr.result = w.zero(fr.fn.Signature.Results())
			fr.block = nil
		}
	}
}

func (w *W) runCatch(fr *frame) (gp *goPanic) {
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(*goPanic); ok {
				gp = g
				return
			}
			panic(x)
		}
	}()
	w.run(fr, nil)
	return nil
}

func (w *W) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := w.depth
			defer func() {
				if x := recover(); x != nil {
					if g, ok := x.(*goPanic); ok {
						fr.panicV = g
						w.depth = depth
						w.curFrame = fr
						return
					}
					panic(x)
				}
			}()
			w.callClosure(fr, d.fn.(*Closure), d.args, d.in)
		}()
	}
}

// run executes the frame until it returns or arrives at block stop.
func (w *W) run(fr *frame, stop *ssa.BasicBlock) {
	for fr.block != nil {
		b := fr.block
		if fr.entering {
			fr.entering = false
			n := fr.fi.nphi[b.Index]
			fr.pc = n
			if n > 0 {
				pi := -1
				for i, p := range b.Preds {
					if p == fr.prev {
						pi = i
						break
					}
				}
				var tmp [16]Value
				vals := tmp[:0]
				for k := 0; k < n; k++ {
					vals = append(vals, w.get(fr, b.Instrs[k].(*ssa.Phi).Edges[pi]))
				}
				for k := 0; k < n; k++ {
					w.set(fr, b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
			if b == stop {
				return
			}
		}
		w.block(fr, b, stop)
		if fr.block == stop && stop != nil && !fr.entering {
			return
		}
	}
}

func (w *W) block(fr *frame, b *ssa.BasicBlock, stop *ssa.BasicBlock) {
	for i := fr.pc; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		fr.at = in
		w.steps++
		w.since++
		if w.steps > w.stepLimit {
			w.overrun()
		}
		switch in := in.(type) {
		case *ssa.Jump:
			fr.jump(b.Succs[0])
			return
		case *ssa.If:
			w.execIf(fr, in)
			return
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				fr.result = Tuple(nil)
			case 1:
				fr.result = w.get(fr, in.Results[0])
			default:
				t := make(Tuple, len(in.Results))
				for k, r := range in.Results {
					t[k] = w.get(fr, r)
				}
				fr.result = t
			}
			fr.block = nil
			return
		case *ssa.Panic:
			if w.mergeDepth > 0 {
				panic(mergeAbort{"panic"})
			}
			v := w.get(fr, in.X)
			panic(&goPanic{v: v, text: w.describe(v), where: w.where(fr)})
		default:
			if fr.tolerant {
				w.tolerant(fr, in)
			} else {
				w.instr(fr, in)
			}
		}
	}
	panic(unsupported{"block without terminator"})
}

func (w *W) overrun() {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"steps"})
	}
	if w.since > w.job.maxSteps*3/4 {
		panic(pathEnd{"hang"})
	}
	w.incompl = append(w.incompl, fmt.Sprintf("path longer than %d instructions at %s", w.job.maxSteps, w.where(w.curFrame)))
	panic(pathEnd{"limit"})
}

var dbg = os.Getenv("ENGDEBUG")

func (w *W) execIf(fr *frame, in *ssa.If) {
	cond := w.get(fr, in.Cond).(*Term)
	b := fr.block
	if v, ok := w.known(cond); ok {
		if v {
			fr.jump(b.Succs[0])
		} else {
			fr.jump(b.Succs[1])
		}
		return
	}
	if w.par != nil {
		w.par.touch(cond)
	}
	if w.mergeDepth > 0 {
		n := w.siteDepth[in]
		if n > 0 {
			t, f := w.innerFeasible(cond)
			if !t || !f {
				if t {
					fr.jump(b.Succs[0])
				} else {
					fr.jump(b.Succs[1])
				}
				return
			}
		}
		if n > 600 {
			panic(mergeAbort{"depth"})
		}
		w.mergeSides(fr, in, cond)
		return
	}
	d, fresh := w.next('b')
	if fresh {
		w.branchN++
		w.feasible2(d, cond)
		if d.pushed && !w.job.noMerge && fr.fi.fails[in] < 2 && w.par == nil {
			if w.tryMerge(fr, in, cond, d) {
				d.idx, d.alts, d.pushed = 2, nil, false
				w.mergeN++
				return
			}
			d.inner = nil
			fr.fi.fails[in]++
		}
	} else if d.idx == 2 {
		if !w.tryMerge(fr, in, cond, d) {
			panic(misaligned{"merge"})
		}
		return
	}
	if d.idx == 0 {
		w.take(d, cond)
		fr.jump(b.Succs[0])
	} else {
		w.take(d, w.c.Not(cond))
		fr.jump(b.Succs[1])
	}
}

// tryMerge executes both sides of a branch and joins the resulting states. It
// reports false, with the state restored, when the sides cannot be joined.
func (w *W) tryMerge(fr *frame, in *ssa.If, cond *Term, d *dec) (ok bool) {
	mark := len(w.journal)
	env := append([]Value(nil), fr.env...)
	blk, prev, pc, depth, steps := fr.block, fr.prev, fr.pc, w.depth, w.steps
	ndef := len(fr.defers)
	maxSteps := w.stepLimit
	if w.steps+200000 < maxSteps {
		w.stepLimit = w.steps + 200000
	}
	defer func() {
		w.stepLimit = maxSteps
		w.curMerge = nil
		w.mergeDepth = 0
		w.guards = w.guards[:0]
		w.fresh = w.fresh[:0]
		w.freshKeep = w.freshKeep[:0]
		fr.region = 0
		if x := recover(); x != nil {
			ma, isAbort := x.(mergeAbort)
			if !isAbort {
				panic(x)
			}
			if dbg == "merge" {
				fmt.Fprintf(os.Stderr, "merge abort %s at %s\n", ma.why, w.where(w.curFrame))
			}
			w.rollback(mark)
			copy(fr.env, env)
			fr.block, fr.prev, fr.pc, fr.entering = blk, prev, pc, false
			fr.defers = fr.defers[:ndef]
			w.depth = depth
			w.steps = steps
			w.curFrame = fr
			w.siteDepth = map[ssa.Instruction]int{}
			ok = false
		}
	}()
	w.curMerge = d
	w.mergeSides(fr, in, cond)
	return true
}

type sideState struct {
	env    []Value
	writes map[*Value]Value
	order  []*Value
	result Value
}

func (w *W) mergeSides(fr *frame, in *ssa.If, cond *Term) {
	b := fr.block
	join := fr.fi.ipdom[b.Index]
	w.mergeDepth++
	fr.region++
	w.siteDepth[in]++
	env := append([]Value(nil), fr.env...)
	mark := len(w.journal)
	freshMark := len(w.fresh)
	var st [2]sideState
	for k := 0; k < 2; k++ {
		g := cond
		if k == 1 {
			g = w.c.Not(cond)
		}
		w.guards = append(w.guards, g)
		fr.block = b
		fr.jump(b.Succs[k])
		w.run(fr, join)
		w.guards = w.guards[:len(w.guards)-1]
		if (fr.block == nil) != (join == nil) {
			panic(mergeAbort{"early return"})
		}
		s := &st[k]
		s.env = append([]Value(nil), fr.env...)
		s.result = fr.result
		s.writes = map[*Value]Value{}
		for i := mark; i < len(w.journal); i++ {
			u := &w.journal[i]
			if _, ok := s.writes[u.p]; !ok {
				s.order = append(s.order, u.p)
				s.writes[u.p] = nil
			}
		}
		for p := range s.writes {
			s.writes[p] = *p
		}
		w.rollback(mark)
		copy(fr.env, env)
	}
	w.siteDepth[in]--
	// join
	for k := 0; k < 2; k++ {
		for _, p := range st[k].order {
			if k == 1 {
				if _, done := st[0].writes[p]; done {
					continue
				}
			}
			if w.isFresh(p, freshMark) {
				continue
			}
			a, ok := st[0].writes[p]
			if !ok {
				a = *p
			}
			bb, ok := st[1].writes[p]
			if !ok {
				bb = *p
			}
			v, ok := w.merge(cond, a, bb)
			if !ok {
				panic(mergeAbort{fmt.Sprintf("cell %T/%T", a, bb)})
			}
			w.setCell(p, v)
		}
	}
	if join == nil {
		v, ok := w.merge(cond, st[0].result, st[1].result)
		if !ok {
			panic(mergeAbort{"result"})
		}
		fr.result = v
		fr.block = nil
	} else {
		live := fr.fi.live[join.Index]
		for i := range fr.env {
			a, bb := st[0].env[i], st[1].env[i]
			if live[i/64]>>(i%64)&1 == 0 {
				fr.env[i] = a
				continue
			}
			v, ok := w.merge(cond, a, bb)
			if !ok {
				panic(mergeAbort{fmt.Sprintf("register %T/%T", a, bb)})
			}
			fr.env[i] = v
		}
		fr.block = join
		fr.entering = false
		fr.pc = fr.fi.nphi[join.Index]
	}
	w.mergeDepth--
	fr.region--
}

// inputs -------------------------------------------------------------------------

func (w *W) freshVar(label string, s Sort) *Term {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"input"})
	}
	w.nvar++
	nm := fmt.Sprintf("v%d_%s", w.nvar, sanitize(label))
	// the sort is part of the identity on re-execution
	return w.c.Var(nm+"_"+sortTag(s), s)
}

func sortTag(s Sort) string {
	switch s.K {
	case SBool:
		return "b"
	case SBV:
		return fmt.Sprintf("u%d", s.W)
	case SF64:
		return "f"
	case SReal:
		return "r"
	case SArr:
		return "m"
	}
	return "x"
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
