package main

import "math/bits"

// Intervals that follow from the comparisons on the current path. They settle
// most comparisons of parsed numbers without the solver, whose bit-level
// reasoning about long chains of multiplications is slow.

type rng struct{ lo, hi uint64 }

func (w *W) clearRanges() {
	clear(w.rngs)
	clear(w.rmemo)
}

// learn records the comparison t, known to be v.
func (w *W) learn(t *Term, v bool) {
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OUlt:
		w.learnLt(a, b, !v)
	case OSlt:
		ra, rb := w.span(a), w.span(b)
		sgn := uint64(1) << (a.sort.W - 1)
		if ra.hi < sgn && rb.hi < sgn {
			w.learnLt(a, b, !v)
		} else if rb.lo == rb.hi && rb.hi < sgn && !v { // a >= b >= 0
			w.pinch(a, rb.lo, sgn-1)
		} else if ra.lo == ra.hi && ra.hi < sgn && v { // 0 <= a < b
			w.pinch(b, ra.lo+1, sgn-1)
		}
	case OEq:
		if a.sort.K != SBV {
			return
		}
		if b.isConst() {
			a, b = b, a
		}
		if !a.isConst() {
			return
		}
		r := w.span(b)
		switch {
		case v:
			w.pinch(b, a.x, a.x)
		case a.x == r.lo && r.lo < r.hi:
			w.pinch(b, r.lo+1, r.hi)
		case a.x == r.hi && r.lo < r.hi:
			w.pinch(b, r.lo, r.hi-1)
		}
	}
}

// learnLt records a < b, or b <= a when neg.
func (w *W) learnLt(a, b *Term, neg bool) {
	ra, rb := w.span(a), w.span(b)
	if neg {
		w.pinch(a, rb.lo, ^uint64(0))
		w.pinch(b, 0, ra.hi)
		return
	}
	if rb.hi > 0 {
		w.pinch(a, 0, rb.hi-1)
	}
	if ra.lo < ^uint64(0) {
		w.pinch(b, ra.lo+1, ^uint64(0))
	}
}

func (w *W) pinch(t *Term, lo, hi uint64) {
	if t.isConst() {
		return
	}
	r := w.span(t)
	lo, hi = max(lo, r.lo), min(hi, r.hi)
	if lo > hi || (lo == r.lo && hi == r.hi) {
		return // an empty interval means the path is infeasible; the solver says so
	}
	w.rngs[t] = rng{lo, hi}
	clear(w.rmemo)
	// the same bound for what t merely extends or shifts by a constant
	if t.op == OConcat && t.a[0].isConst() && t.a[0].x == 0 && hi <= mask(t.a[1].sort.W) {
		w.pinch(t.a[1], lo, hi)
	}
	if t.op == OAdd {
		k, x := t.a[0], t.a[1]
		if x.isConst() {
			k, x = x, k
		}
		m := mask(t.sort.W)
		if k.isConst() {
			if l, h := (lo-k.x)&m, (hi-k.x)&m; l <= h {
				w.pinch(x, l, h)
			}
		}
	}
}

// span is the interval of t on this path.
func (w *W) span(t *Term) rng {
	if t.isConst() || t.sort.K != SBV {
		return rng{t.lo, t.hi}
	}
	if len(w.rngs) == 0 {
		return rng{t.lo, t.hi}
	}
	return w.span1(t, 48)
}

func (w *W) span1(t *Term, depth int) rng {
	if t.isConst() || t.sort.K != SBV || t.lo == t.hi {
		return rng{t.lo, t.hi}
	}
	if r, ok := w.rmemo[t]; ok {
		return r
	}
	r := rng{t.lo, t.hi}
	meet := func(lo, hi uint64) {
		lo, hi = max(lo, r.lo), min(hi, r.hi)
		if lo <= hi {
			r = rng{lo, hi}
		}
	}
	if depth > 0 {
		m := mask(t.sort.W)
		sub := func(i int) rng { return w.span1(t.a[i], depth-1) }
		switch t.op {
		case OIte:
			p, q := sub(1), sub(2)
			meet(min(p.lo, q.lo), max(p.hi, q.hi))
		case OConcat:
			p, q := sub(0), sub(1)
			sh := t.a[1].sort.W
			meet(p.lo<<sh|q.lo, p.hi<<sh|q.hi)
		case OURem:
			if t.a[1].isConst() && t.a[1].x > 0 {
				if p := sub(0); p.hi < t.a[1].x {
					meet(p.lo, p.hi)
				}
			}
		case OUDiv:
			if t.a[1].isConst() && t.a[1].x > 0 {
				p := sub(0)
				meet(p.lo/t.a[1].x, p.hi/t.a[1].x)
			}
		case OAdd:
			p, q := sub(0), sub(1)
			l, cl := bits.Add64(p.lo, q.lo, 0)
			h, ch := bits.Add64(p.hi, q.hi, 0)
			if m != ^uint64(0) {
				cl, ch = b2u(l > m), b2u(h > m)
			}
			if cl == ch {
				meet(l&m, h&m)
			}
		case OSub:
			p, q := sub(0), sub(1)
			if p.lo >= q.hi {
				meet(p.lo-q.hi, p.hi-q.lo)
			}
		case OMul:
			p, q := sub(0), sub(1)
			if hh, hl := bits.Mul64(p.hi, q.hi); hh == 0 && hl <= m {
				meet(p.lo*q.lo, hl)
			}
		case OExtract:
			if t.x&255 == 0 {
				if p := sub(0); p.hi <= m {
					meet(p.lo, p.hi)
				}
			}
		case OSExt:
			if p := sub(0); p.hi>>(t.a[0].sort.W-1) == 0 {
				meet(p.lo, p.hi)
			}
		}
	}
	if k, ok := w.rngs[t]; ok {
		meet(k.lo, k.hi)
	}
	w.rmemo[t] = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// bySpan settles a comparison from intervals alone.
func (w *W) bySpan(t *Term) (val, ok bool) {
	if len(w.rngs) == 0 || t.a[0] == nil || t.a[1] == nil || t.a[0].sort.K != SBV {
		return false, false
	}
	switch t.op {
	case OUlt, OSlt, OEq:
	default:
		return false, false
	}
	a, b := w.span(t.a[0]), w.span(t.a[1])
	switch t.op {
	case OSlt:
		sgn := uint64(1) << (t.a[0].sort.W - 1)
		an, bn := a.lo >= sgn, b.lo >= sgn // all negative
		ap, bp := a.hi < sgn, b.hi < sgn   // none negative
		switch {
		case an && bp:
			return true, true
		case ap && bn:
			return false, true
		case !(ap && bp) && !(an && bn):
			return false, false
		}
		fallthrough
	case OUlt:
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
		return w.bySum(t.a[0], t.a[1])
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && b.lo == b.hi {
			return a.lo == b.lo, true
		}
	}
	return false, false
}

// parts appends the summands of t, and false if their sum may wrap around.
func (w *W) parts(t *Term, out []*Term) ([]*Term, bool) {
	if len(out) > 64 {
		return out, false
	}
	if t.op != OAdd {
		return append(out, t), true
	}
	p, q := w.span(t.a[0]), w.span(t.a[1])
	h, cy := bits.Add64(p.hi, q.hi, 0)
	if cy != 0 || h > mask(t.sort.W) {
		return out, false
	}
	out, ok := w.parts(t.a[0], out)
	if !ok {
		return out, false
	}
	return w.parts(t.a[1], out)
}

// bySum settles a < b, for sums that do not wrap around, after removing what
// both have in common.
func (w *W) bySum(a, b *Term) (val, ok bool) {
	if a.op != OAdd && b.op != OAdd {
		return false, false
	}
	pa, oa := w.parts(a, nil)
	pb, ob := w.parts(b, nil)
	if !oa || !ob {
		return false, false
	}
	for i := 0; i < len(pa); i++ {
		for j := range pb {
			if pa[i] == pb[j] {
				pa = append(pa[:i], pa[i+1:]...)
				pb = append(pb[:j], pb[j+1:]...)
				i--
				break
			}
		}
	}
	ra, rb := w.total(pa), w.total(pb)
	if ra.hi < rb.lo {
		return true, true
	}
	if ra.lo >= rb.hi {
		return false, true
	}
	return false, false
}

func (w *W) total(ts []*Term) (r rng) { // a part of a sum that does not wrap around
	for _, t := range ts {
		s := w.span(t)
		r.lo, r.hi = r.lo+s.lo, r.hi+s.hi
	}
	return r
}
