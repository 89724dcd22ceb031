// Package hlls holds the harnesses over internal/summary/hll.
package hlls

import (
	"encoding/binary"
	"math"
	"math/bits"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const hdr = 12

// wrap makes a counter of precision p over the given register bytes, and a
// view of the same registers.
func wrap(p int, data []byte) (hll.Counter, bitbucket.BitBucket, []byte) {
	buf := make([]byte, hdr, hdr+len(data))
	buf[0], buf[1] = hll.Version, uint8(p)
	buf[2], buf[3] = bitbucket.Version, 6
	binary.LittleEndian.PutUint64(buf[4:], uint64(1)<<uint(p))
	buf = append(buf, data...)
	c, err := hll.WithBytes(buf)
	nd.Assert(err == nil, "a well formed counter is accepted")
	regs, err := bitbucket.WithBytes(buf[2:])
	nd.Assert(err == nil, "its registers are accepted")
	return c, regs, buf
}

// place is the register and value an item contributes.
func place(item []byte, p int) (int, uint8) {
	h := nd.Fnv1(item)
	idx := int(h >> uint(64-p))
	rest := h<<uint(p) | 1<<uint(p-1)
	return idx, uint8(bits.LeadingZeros64(rest) + 1)
}

func size(p int) int { return (6<<uint(p) + 7) / 8 }

// H_add decides for any register content that an item raises just its own
// register to just its own value.
//
//verif:C23
func H_add() {
	p := 4 + nd.Choose(nd.Tier(2, 4))
	c, regs, buf := wrap(p, nd.Bytes("registers", size(p)))
	before := append([]byte(nil), buf...)
	old, err := bitbucket.WithBytes(before[2:])
	nd.Assert(err == nil, "the registers are accepted")
	item := nd.Bytes("item", nd.Choose(nd.Tier(4, 7)))
	idx, rho := place(item, p)
	c.Add(item)
	for i := 0; i < 1<<uint(p); i++ {
		was, is := old.Get(i), regs.Get(i)
		nd.Assert(is >= was, "a register never falls")
		if i == idx {
			nd.Observe("raised", uint64(is))
			nd.Assert(is == was && was >= rho || is == rho && rho > was, "the register of the item is the maximum of its old value and that of the item")
		} else {
			nd.Assert(is == was, "no other register changes")
		}
	}
	for i := 0; i < hdr; i++ {
		nd.Assert(buf[i] == before[i], "the dimensions stay")
	}
	after := append([]byte(nil), buf...)
	c.Add(item)
	for i := range after {
		nd.Assert(buf[i] == after[i], "adding an item again changes nothing")
	}
}

// H_hash decides the same for every hash an item can have.
//
//verif:C23
func H_hash() {
	p := []int{4, 5, 8, 12, 18, 6, 7, 9, 10, 11, 13, 14, 15, 16, 17}[nd.Choose(15)]
	c, regs, _ := wrap(p, make([]byte, size(p)))
	item := nd.Item("item")
	idx, rho := place(item, p)
	m := 1 << uint(p)
	at := []int{0, 1, 2, m / 3, m - 2, m - 1}[nd.Choose(6)]
	nd.Assume(idx == at)
	was := nd.U8("value") & 63
	regs.Set(at, was)
	c.Add(item)
	want := was
	if rho > want {
		want = rho
	}
	nd.Observe("register", uint64(regs.Get(at)))
	nd.Assert(regs.Get(at) == want, "the register of the item is the maximum of its old value and that of the item")
	for i := 0; i < m; i += 1 + m/200 {
		nd.Assert(i == at || regs.Get(i) == 0, "no other register changes")
	}
	nd.Assert(at == 0 || regs.Get(at-1) == 0, "no other register changes")
	nd.Assert(at == m-1 || regs.Get(at+1) == 0, "no other register changes")
}

// H_longitem decides that every byte of a long item takes part.
//
//verif:C23
func H_longitem() {
	p := []int{4, 14}[nd.Choose(2)]
	item := make([]byte, []int{9, 33, 65, 129, 257, 1024, 1030, 4096, 5000, 70000}[nd.Choose(nd.Tier(9, 10))])
	for i := range item {
		item[i] = byte(i*i + 3)
	}
	item[len(item)-1] = nd.U8("byte")
	c, regs, buf := wrap(p, make([]byte, size(p)))
	idx, rho := place(item, p)
	c.Add(item)
	nd.Observe("register", uint64(regs.Get(idx)))
	nd.Assert(regs.Get(idx) == rho, "the register of the item takes its value")
	var n byte
	regs.Set(idx, 0)
	for _, x := range buf[hdr:] {
		n |= x
	}
	nd.Assert(n == 0, "no other register changes")
}

// H_order decides that the order of two additions makes no difference.
//
//verif:C23
func H_order() {
	p := 4
	data := nd.Bytes("registers", size(p))
	c, _, b1 := wrap(p, data)
	d, _, b2 := wrap(p, data)
	x, y := nd.Bytes("x", nd.Choose(3)), nd.Bytes("y", 1+nd.Choose(nd.Tier(2, 3)))
	c.Add(x)
	c.Add(y)
	d.Add(y)
	d.Add(x)
	for i := range b1 {
		nd.Assert(b1[i] == b2[i], "the order of additions makes no difference")
	}
	nd.Observe("done", 1)
}

// H_wide decides the step for every precision: the register of the item takes
// its value and the registers around it and at the ends keep theirs.
//
//verif:C23
func H_wide() {
	p := 4 + nd.Choose(15)
	item := [][]byte{{}, {1}, []byte("alpha"), []byte("\x00\x00"), []byte("paris"), []byte("starbow")}[nd.Choose(nd.Tier(4, 6))]
	c, regs, _ := wrap(p, make([]byte, size(p)))
	idx, rho := place(item, p)
	// arbitrary values at the item's register and its neighbours
	at := []int{idx, (idx + 1) & (1<<uint(p) - 1), (idx - 1) & (1<<uint(p) - 1)}
	was := []uint8{0, 0, 0}
	for k, i := range at {
		was[k] = nd.U8("value") & 63
		regs.Set(i, was[k])
	}
	c.Add(item)
	want := was[0]
	if rho > want {
		want = rho
	}
	nd.Observe("register", uint64(regs.Get(idx)))
	nd.Assert(regs.Get(idx) == want, "the register of the item is the maximum of its old value and that of the item")
	nd.Assert(regs.Get(at[1]) == was[1] && regs.Get(at[2]) == was[2], "no other register changes")
}

// H_new decides that a new counter of every precision is empty, estimates
// zero and reports its length.
//
//verif:C23 C24
func H_new() {
	p := 4 + nd.Choose(nd.Tier(9, 15))
	c := hll.New(uint8(p))
	nd.Assert(c.Len() == hdr+size(p) && hll.Len(uint8(p)) == c.Len(), "the length is that of the registers")
	nd.Observe("count", uint64(c.Count()))
	nd.Assert(c.Count() == 0 && c.LinearCount() == 0, "an empty counter estimates zero")
	c.Add(nd.Bytes("item", 1))
	nd.Assert(c.Count() > 0, "a non-empty counter estimates a positive number")
	c.Reset()
	nd.Assert(c.Count() == 0, "a reset counter estimates zero")
}

var thresholds = []float64{10, 20, 40, 80, 220, 400, 900, 1800, 3100, 6500, 11500, 20000, 50000, 120000, 350000}

// H_linear decides that in the range of linear counting the estimate is that
// of the number of empty registers, whatever the values of the others.
//
//verif:C24 nomerge
func H_linear() {
	p := 4 + nd.Choose(nd.Tier(3, 6))
	m := 1 << uint(p)
	// zero registers: every number of them, spread by a stride
	empty := 1 + nd.Choose(m)
	want := math.Ceil(float64(m) * math.Log(float64(m)/float64(empty)))
	if want > thresholds[p-4] {
		return
	}
	data := make([]byte, size(p))
	_, regs, img := wrap(p, data)
	stride := []int{1, 5, 11}[nd.Choose(nd.Tier(2, 3))]
	for k := 0; k < m-empty; k++ {
		v := nd.U8("value") & 63
		nd.Assume(v != 0)
		regs.Set((k*stride+k/m)%m, v)
	}
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "any register content is adopted")
	nd.Observe("count", uint64(c.Count()))
	nd.Assert(c.Count() == int64(want), "the estimate is the linear count")
	nd.Assert(c.LinearCount() == int64(want), "LinearCount is the linear count")
	nd.Assert((c.Count() == 0) == (empty == m), "exactly an empty counter estimates zero")
}

// H_edge decides the same about the threshold for registers of one value.
//
//verif:C24 nomerge
func H_edge() {
	p := 4 + nd.Choose(nd.Tier(4, 8))
	m := 1 << uint(p)
	// the fewest empty registers that are still in range, and one fewer
	empty := m
	lin := func(v int) float64 { return math.Ceil(float64(m) * math.Log(float64(m)/float64(v))) }
	for empty > 1 && lin(empty-1) <= thresholds[p-4] {
		empty--
	}
	empty += nd.Choose(3)
	v := uint8(nd.Concrete(nd.Int("value", 1, 64-p+1)))
	_, regs, img := wrap(p, make([]byte, size(p)))
	for i := 0; i < m-empty; i++ {
		regs.Set(i*11%m, v)
	}
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "any register content is adopted")
	nd.Observe("count", uint64(c.Count()))
	nd.Assert(c.Count() == int64(lin(empty)), "the estimate is the linear count")
}

// H_positive decides that a non-empty counter estimates a positive number
// also past linear counting, for registers of two values.
//
//verif:C24
func H_positive() {
	p := 4 + nd.Choose(nd.Tier(2, 5))
	m := 1 << uint(p)
	_, regs, img := wrap(p, make([]byte, size(p)))
	q := 64 - p
	x := uint8(nd.Concrete(nd.Int("x", 1, q+1)))
	y := uint8([]int{0, 1, 2, 10, q, q + 1}[nd.Choose(6)])
	n := 1 + nd.Choose(4)*(m-1)/3
	for i := 0; i < m; i++ {
		if i < n {
			regs.Set(i, x)
		} else {
			regs.Set(i, y)
		}
	}
	if x == uint8(q+1) && (n == m || y == x) {
		return // every register saturated: the estimate is infinite
	}
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "any register content is adopted")
	e := c.Count()
	nd.Observe("count", uint64(e))
	if x < 30 && y < 30 {
		nd.Assert(e > 0, "a non-empty counter estimates a positive number")
	}
}

// H_precise decides on both sides of the threshold of every precision that
// the estimate is the linear count up to it and one of the other two past it.
//
//verif:C24 nomerge maxsteps=400000000
func H_precise() {
	p := 4 + nd.Choose(15)
	m := 1 << uint(p)
	lin := func(v int) float64 { return math.Ceil(float64(m) * math.Log(float64(m)/float64(v))) }
	// the fewest empty registers that are still in range
	lo, hi := 1, m
	for lo < hi {
		mid := (lo + hi) / 2
		if lin(mid) <= thresholds[p-4] {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	side := nd.Choose(3) // in range, just past it, well past it
	empty := []int{lo, lo - 1, lo * 4 / 5}[side]
	if empty == 0 {
		return
	}
	v := uint8(1 + 2*nd.Choose(nd.Tier(1, 3)))
	_, regs, img := wrap(p, make([]byte, size(p)))
	for i := 0; i < m-empty; i++ {
		regs.Set(i, v)
	}
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "any register content is adopted")
	n := c.Count()
	nd.Observe("count", uint64(n))
	if side == 0 {
		nd.Assert(n == int64(lin(empty)), "the estimate is the linear count")
	} else {
		nd.Assert(n == c.PoissonCount() || n == c.HarmonicCount(), "past the threshold the estimate is that of another estimator")
	}
}
