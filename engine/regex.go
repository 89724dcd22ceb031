package main

import (
	"regexp"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions on symbolic strings: the compiled program of
// regexp/syntax is run by a leftmost-first backtracking matcher whose
// character tests are symbolic decisions.

type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
}

func newRx(pat string) (*rx, error) {
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	n := p.MaxCap()
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	return &rx{re, prog, n}, nil
}

// runeCond is the condition that byte b is matched by the instruction.
func (w *W) runeCond(in *syntax.Inst, b *Term) *Term {
	if in.Op == syntax.InstRuneAny {
		return w.c.True
	}
	r := w.c.False
	if b.isConst() {
		return w.c.Bool(in.MatchRune(rune(b.x)))
	}
	lo := -1
	for ch := 0; ch <= 128; ch++ {
		m := ch < 128 && in.MatchRune(rune(ch))
		if m && lo < 0 {
			lo = ch
		}
		if !m && lo >= 0 {
			hi := ch - 1
			var t *Term
			switch {
			case lo == hi:
				t = w.c.Eq(b, w.c.BV(8, uint64(lo)))
			case lo == 0:
				t = w.c.Ule(b, w.c.BV(8, uint64(hi)))
			case hi == 127:
				t = w.c.Ule(w.c.BV(8, uint64(lo)), b)
			default:
				t = w.c.And(w.c.Ule(w.c.BV(8, uint64(lo)), b), w.c.Ule(b, w.c.BV(8, uint64(hi))))
			}
			r = w.c.Or(r, t)
			lo = -1
		}
	}
	return r
}

func (w *W) matchAt(x *rx, in []*Term, start int, anchoredAll bool) []int {
	n := len(in)
	visited := map[[2]int]bool{}
	cap := make([]int, 2*(x.ncap+1))
	for i := range cap {
		cap[i] = -1
	}
	var bt func(pc, pos int) bool
	bt = func(pc, pos int) bool {
		k := [2]int{pc, pos}
		if visited[k] {
			return false
		}
		visited[k] = true
		i := &x.prog.Inst[pc]
		switch i.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			return bt(int(i.Out), pos) || bt(int(i.Arg), pos)
		case syntax.InstEmptyWidth:
			need := syntax.EmptyOp(i.Arg)
			if need&(syntax.EmptyBeginText|syntax.EmptyBeginLine) != 0 && pos != 0 {
				if need&syntax.EmptyBeginText != 0 || !w.decide(w.c.Eq(in[pos-1], w.c.BV(8, '\n')), nil) {
					return false
				}
			}
			if need&(syntax.EmptyEndText|syntax.EmptyEndLine) != 0 && pos != n {
				if need&syntax.EmptyEndText != 0 || !w.decide(w.c.Eq(in[pos], w.c.BV(8, '\n')), nil) {
					return false
				}
			}
			if need&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				word := func(p int) bool {
					if p < 0 || p >= n {
						return false
					}
					wi := &syntax.Inst{Op: syntax.InstRune, Rune: []rune{'0', '9', 'A', 'Z', '_', '_', 'a', 'z'}}
					return w.decide(w.runeCond(wi, in[p]), nil)
				}
				b := word(pos-1) != word(pos)
				if need&syntax.EmptyWordBoundary != 0 && !b || need&syntax.EmptyNoWordBoundary != 0 && b {
					return false
				}
			}
			return bt(int(i.Out), pos)
		case syntax.InstCapture:
			s := int(i.Arg)
			if s >= len(cap) {
				return bt(int(i.Out), pos)
			}
			old := cap[s]
			cap[s] = pos
			if bt(int(i.Out), pos) {
				return true
			}
			cap[s] = old
			return false
		case syntax.InstNop:
			return bt(int(i.Out), pos)
		case syntax.InstMatch:
			cap[1] = pos
			return true
		default:
			if pos >= n {
				return false
			}
			if !w.decide(w.c.Ult(in[pos], w.c.BV(8, 0x80)), nil) {
				// A byte of a longer character (or of no character): the
				// classes used here hold all of these or none, so a
				// repetition takes them one byte at a time.
				w.eng.note("non-ASCII text in a regular expression is matched byte by byte")
				if i.Op != syntax.InstRuneAny && i.Op != syntax.InstRuneAnyNotNL && !i.MatchRune(0x4e2d) {
					return false
				}
				return bt(int(i.Out), pos+1)
			}
			if !w.decide(w.runeCond(i, in[pos]), nil) {
				return false
			}
			return bt(int(i.Out), pos+1)
		}
	}
	cap[0] = start
	if bt(x.prog.Start, start) {
		cap[0] = start
		return cap
	}
	return nil
}

func (w *W) rxFind(x *rx, s StrV, from int) []int {
	if s.concrete() {
		all := x.re.FindAllStringSubmatchIndex(s.s, -1)
		for _, m := range all {
			if m[0] >= from {
				return m
			}
		}
		if from == 0 || len(all) == 0 {
			return nil
		}
	}
	if w.mergeDepth > 0 {
		panic(mergeAbort{"regexp"})
	}
	in := w.strTerms(s)
	anch := len(x.prog.Inst) > 0 && x.prog.StartCond()&syntax.EmptyBeginText != 0
	for st := from; st <= len(in); st++ {
		if anch && st > 0 {
			break
		}
		if m := w.matchAt(x, in, st, false); m != nil {
			return m
		}
	}
	return nil
}

func (w *W) rxAll(x *rx, s StrV, n int) [][]int {
	if s.concrete() {
		return x.re.FindAllStringSubmatchIndex(s.s, n)
	}
	var r [][]int
	pos, prevEnd := 0, -1
	for pos <= s.Len() && (n < 0 || len(r) < n) {
		m := w.rxFind(x, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			pos++
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			r = append(r, m)
		}
	}
	return r
}

func registerRegexp(reg func(string, intrinsic)) {
	mk := func(w *W, pat string) (Value, error) {
		x, err := newRx(pat)
		if err != nil {
			return nil, err
		}
		var cell Value = NativeV{x}
		return &cell, nil
	}
	reg("regexp.MustCompile", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := mk(w, w.concStr(a[0].(StrV), "pattern"))
		if err != nil {
			w.goPanicStr("regexp: Compile: " + err.Error())
		}
		return v
	})
	reg("regexp.Compile", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		v, err := mk(w, w.concStr(a[0].(StrV), "pattern"))
		if err != nil {
			return Tuple{(*Value)(nil), w.newErr(str(err.Error()))}
		}
		return Tuple{v, Iface{}}
	})
	get := func(v Value) *rx { return (*v.(*Value)).(NativeV).v.(*rx) }
	input := func(w *W, v Value) StrV {
		if s, ok := v.(StrV); ok {
			return s
		}
		return mkStr(w.byteTerms(v))
	}
	strs := func(w *W, s StrV, m []int) Value {
		if m == nil {
			return Slice{}
		}
		a := w.newCells(len(m) / 2)
		for i := range a {
			if m[2*i] < 0 {
				a[i] = StrV{}
			} else {
				a[i] = s.sub(m[2*i], m[2*i+1])
			}
		}
		return Slice{a}
	}
	ints := func(w *W, m []int) Value {
		if m == nil {
			return Slice{}
		}
		a := w.newCells(len(m))
		for i := range a {
			a[i] = w.c.Int(m[i])
		}
		return Slice{a}
	}
	byteSlices := func(w *W, src Value, m []int) Value {
		if m == nil {
			return Slice{}
		}
		s := src.(Slice)
		a := w.newCells(len(m) / 2)
		for i := range a {
			if m[2*i] < 0 {
				a[i] = Slice{}
			} else {
				a[i] = Slice{s.a[m[2*i]:m[2*i+1]:m[2*i+1]]}
			}
		}
		return Slice{a}
	}
	P := "(*regexp.Regexp)."
	reg(P+"FindStringSubmatch", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := input(w, a[1])
		return strs(w, s, w.rxFind(get(a[0]), s, 0))
	})
	reg(P+"FindStringSubmatchIndex", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return ints(w, w.rxFind(get(a[0]), input(w, a[1]), 0))
	})
	reg(P+"FindSubmatchIndex", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return ints(w, w.rxFind(get(a[0]), input(w, a[1]), 0))
	})
	reg(P+"FindStringIndex", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		m := w.rxFind(get(a[0]), input(w, a[1]), 0)
		if m != nil {
			m = m[:2]
		}
		return ints(w, m)
	})
	reg(P+"FindString", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := input(w, a[1])
		m := w.rxFind(get(a[0]), s, 0)
		if m == nil {
			return StrV{}
		}
		return s.sub(m[0], m[1])
	})
	match := func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return w.c.Bool(w.rxFind(get(a[0]), input(w, a[1]), 0) != nil)
	}
	reg(P+"MatchString", match)
	reg(P+"Match", match)
	reg(P+"FindSubmatch", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return byteSlices(w, a[1], w.rxFind(get(a[0]), input(w, a[1]), 0))
	})
	all := func(w *W, ms [][]int, f func([]int) Value) Value {
		if ms == nil {
			return Slice{}
		}
		c := w.newCells(len(ms))
		for i := range c {
			c[i] = f(ms[i])
		}
		return Slice{c}
	}
	lim := func(w *W, v Value) int { return int(int64(w.concretise(v.(*Term), "n"))) }
	reg(P+"FindAllStringSubmatch", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := input(w, a[1])
		return all(w, w.rxAll(get(a[0]), s, lim(w, a[2])), func(m []int) Value { return strs(w, s, m) })
	})
	reg(P+"FindAllString", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		s := input(w, a[1])
		return all(w, w.rxAll(get(a[0]), s, lim(w, a[2])), func(m []int) Value { return s.sub(m[0], m[1]) })
	})
	reg(P+"FindAllStringSubmatchIndex", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return all(w, w.rxAll(get(a[0]), input(w, a[1]), lim(w, a[2])), func(m []int) Value { return ints(w, m) })
	})
	reg(P+"FindAllSubmatch", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value {
		return all(w, w.rxAll(get(a[0]), input(w, a[1]), lim(w, a[2])), func(m []int) Value { return byteSlices(w, a[1], m) })
	})
	reg(P+"NumSubexp", func(w *W, fr *frame, fn *ssa.Function, a []Value) Value { return w.c.Int(get(a[0]).ncap) })
}
