// Package maps holds the sequential harnesses over internal/bufmap and
// internal/incmap.
package maps

import (
	"errors"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/zzverif/nd"
)

var errFn = errors.New("update function failed")

// ideal is the specification of a buffer map: the keys that hold a place and
// the buffers of those with a successful update.
type ideal struct {
	keys []uint64
	vals [][]byte // nil until an update succeeded
}

func (m *ideal) find(k uint64) int {
	for i, x := range m.keys {
		if x == k {
			return i
		}
	}
	return -1
}

type world struct {
	m    *bufmap.Map
	id   ideal
	l, s int
}

// update applies one update writing val (or failing) and checks what the
// update function sees and what the caller is told.
func (w *world) update(k uint64, val []byte, fail bool) {
	i := w.id.find(k)
	calls := 0
	err := w.m.Update(k, func(data []byte, init bool) error {
		calls++
		nd.Assert(k != 0, "key zero never reaches the update function")
		nd.Assert(len(data) == w.s, "the update function gets a full record")
		first := i < 0 || w.id.vals[i] == nil
		nd.Assert(init == first, "the update is told it is the first exactly until one succeeded")
		if !first {
			for j := range data {
				nd.Assert(data[j] == w.id.vals[i][j], "the update function sees the current buffer of its key")
			}
		}
		if fail {
			if first {
				// what a failed first update leaves behind is never seen
				for j := range data {
					data[j] = 0xee
				}
			}
			return errFn
		}
		copy(data, val)
		return nil
	})
	full := len(w.id.keys) >= w.l
	switch {
	case k == 0:
		nd.Assert(err == bufmap.ErrInvalidKey && calls == 0, "key zero is refused")
	case calls == 0:
		nd.Assert(err == bufmap.ErrOutOfSlots, "an update that was not applied reports that there is no room")
		nd.Assert(i < 0 && (full || len(w.id.keys) > 10), "there is no room only when every probed slot is taken")
	default:
		nd.Assert(!(i < 0 && full), "no more keys than slots are held")
		nd.Assert((err != nil) == fail && (err == nil || err == errFn), "the error of the update function is reported")
		if i < 0 {
			w.id.keys = append(w.id.keys, k)
			w.id.vals = append(w.id.vals, nil)
			i = len(w.id.keys) - 1
		}
		if !fail {
			w.id.vals[i] = append(make([]byte, 0, 8), val...)
		}
	}
}

// read checks one read against the specification.
func (w *world) read(k uint64, extra int) {
	buf := make([]byte, w.s+extra)
	for i := range buf {
		buf[i] = 0x77
	}
	ok := w.m.Get(k, buf)
	i := w.id.find(k)
	nd.Assert(ok == (k != 0 && i >= 0 && w.id.vals[i] != nil), "a key is found exactly when an update of it succeeded")
	if ok {
		for j := 0; j < w.s; j++ {
			nd.Assert(buf[j] == w.id.vals[i][j], "a read returns the buffer last produced for its key")
		}
		nd.ObserveBytes("read", buf[:w.s])
	}
	for j := w.s; j < len(buf); j++ {
		nd.Assert(buf[j] == 0x77, "a read writes no more than one record")
	}
}

// H_seq decides any history of updates of any keys of a small map.
//
//verif:C15 absrem nomerge
func H_seq() {
	l := 1 + nd.Choose(nd.Tier(3, 4))
	w := &world{m: bufmap.New(l, 2), l: l, s: 2}
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		k := nd.U64("key")
		w.update(k, nd.Bytes("val", 2), nd.Choose(2) == 1)
	}
	for _, k := range w.id.keys {
		w.read(k, 0)
	}
	w.read(nd.U64("other"), 0)
}

// H_reads decides that reads of any key between updates change nothing, for
// records of several sizes.
//
//verif:C15 absrem nomerge
func H_reads() {
	l := 2 + nd.Choose(nd.Tier(1, 3))
	s := []int{0, 1, 3, 8}[nd.Choose(4)]
	w := &world{m: bufmap.New(l, s), l: l, s: s}
	k := nd.U64("key")
	w.read(nd.U64("before"), 1)
	w.update(k, nd.Bytes("val", s), nd.Choose(2) == 1)
	w.read(nd.U64("between"), 2)
	w.update(k, nd.Bytes("val", s), nd.Choose(2) == 1)
	w.read(k, 3)
	w.read(nd.U64("after"), 0)
}

// H_probe decides any operation on a map in which a run of keys that share a
// probe range has been written before.
//
//verif:C15 nomerge
func H_probe() {
	l := []int{11, 12, 16, 5000}[nd.Choose(4)]
	held := []int{10, 11}[nd.Choose(2)]
	at := uint64([]int{1, l - 1}[nd.Choose(2)])
	w := &world{m: bufmap.New(l, 2), l: l, s: 2}
	for i := 0; i < held; i++ {
		w.update(at+uint64(l)*uint64(i+1), []byte{byte(i), 0xa0}, false)
	}
	nd.Assert(len(w.id.keys) == held, "as many keys as a probe range has slots are held")
	var k uint64
	if nd.Choose(2) == 0 {
		// the hard case: a key of the same probe range
		k = at + uint64(l)*uint64(nd.Choose(14))
	} else {
		k = uint64(nd.U8("small"))
		nd.Assume(k < 32)
	}
	w.update(k, nd.Bytes("val", 2), nd.Choose(2) == 1)
	w.read(k, 0)
	for _, k := range w.id.keys {
		w.read(k, 0)
	}
	nd.Observe("held", uint64(len(w.id.keys)))
}

// H_inc decides any history of increments and reads of any keys of a small
// increment map.
//
//verif:C17 absrem nomerge
func H_inc() {
	l := 1 + nd.Choose(nd.Tier(3, 4))
	m := incmap.New(l)
	var keys, sums []uint64
	find := func(k uint64) int {
		for i := range keys {
			if keys[i] == k {
				return i
			}
		}
		return -1
	}
	read := func(k uint64) {
		v, ok := m.Get(k)
		i := find(k)
		nd.Assert(ok == (k != 0 && i >= 0), "a key is found exactly when an increment of it was accepted")
		if ok {
			nd.Assert(v == sums[i], "the value is the sum of the increments accepted for the key")
			nd.Observe("value", v)
		}
	}
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		k := nd.U64("key")
		d := nd.U64("d")
		at := find(k)
		ok := m.Inc(k, d)
		nd.Assert(ok == (k != 0 && (at >= 0 || len(keys) < l)), "an increment is refused exactly for key zero and for a new key in a full map")
		if ok {
			if at < 0 {
				keys, sums, at = append(keys, k), append(sums, 0), len(keys)
			}
			sums[at] += d
		}
	}
	for _, k := range keys {
		read(k)
	}
	read(nd.U64("other"))
	read(nd.U64("other"))
}

// H_incprobe decides any increment of a map in which a run of keys sharing a
// probe range has been written before.
//
//verif:C17 nomerge
func H_incprobe() {
	l := []int{11, 12, 16, 100}[nd.Choose(4)]
	held := []int{10, 11}[nd.Choose(2)]
	at := uint64([]int{1, l - 1}[nd.Choose(2)])
	m := incmap.New(l)
	key := func(i int) uint64 { return at + uint64(l)*uint64(i+1) }
	for i := 0; i < held; i++ {
		nd.Assert(m.Inc(key(i), uint64(i+1)), "as many keys as a probe range has slots are held")
	}
	var k uint64
	if nd.Choose(2) == 0 {
		k = at + uint64(l)*uint64(nd.Choose(14))
	} else {
		k = uint64(nd.U8("small"))
		nd.Assume(k < 32)
	}
	d := nd.U64("d")
	old, had := m.Get(k)
	ok := m.Inc(k, d)
	nd.Assert(!had || ok, "an increment of a held key is accepted")
	v, now := m.Get(k)
	nd.Assert(now == ok, "a key is found exactly when an increment of it was accepted")
	if ok {
		nd.Assert(v == old+d, "the value grows by the increment")
	}
	nd.Assert(ok || k == 0 || held >= l || held > 10, "an increment is refused only when every probed slot is taken")
	for i := 0; i < held; i++ {
		if key(i) == k {
			continue
		}
		v, found := m.Get(key(i))
		nd.Assert(found && v == uint64(i+1), "the values of other keys stay")
	}
	nd.Observe("v", v)
}

// H_large decides one operation of any key in a map that holds many large
// records, each updated many times.
//
//verif:C15 nomerge maxsteps=60000000
func H_large() {
	s := []int{33, 300, 3000}[nd.Choose(nd.Tier(2, 3))]
	l := []int{100, 4099}[nd.Choose(2)]
	w := &world{m: bufmap.New(l, s), l: l, s: s}
	held, rounds := 24, 2
	val := func(i int) []byte {
		b := make([]byte, s)
		for j := range b {
			b[j] = byte(i*7 + j)
		}
		return b
	}
	key := func(i int) uint64 { return uint64(i+1) * 0x9e3779b97f4a7c15 }
	for r := 0; r < rounds; r++ {
		for i := 0; i < held; i++ {
			w.update(key(i), val(i+r), r == 1)
		}
	}
	nd.Assert(len(w.id.keys) == held, "every key is held")
	k := []uint64{key(0), key(held / 2), key(held - 1), key(held), key(held + 3), 1}[nd.Choose(6)]
	v := val(1)
	v[0], v[s-1] = nd.U8("first"), nd.U8("last")
	w.update(k, v, nd.Choose(2) == 1)
	for _, k := range w.id.keys {
		w.read(k, 0)
	}
}

// H_often decides that a record updated many times stays whole.
//
//verif:C15 nomerge
func H_often() {
	w := &world{m: bufmap.New(5, 3), l: 5, s: 3}
	n := nd.Tier(300, 70000)
	for r := 0; r < n; r++ {
		w.update(uint64(7+r/3%2), []byte{byte(r), byte(r >> 8), 9}, r%7 == 2)
		if r&(r+1) == 0 || r&(r-1) == 0 {
			w.read(7, 0)
			w.read(8, 0)
		}
	}
	v := nd.Bytes("v", 3)
	k := uint64(7 + nd.Choose(3))
	w.update(k, v, nd.Choose(2) == 1)
	for k := uint64(6); k < 10; k++ {
		w.read(k, 0)
	}
}

// H_inclarge decides the same for increments.
//
//verif:C17 nomerge
func H_inclarge() {
	l := []int{200, 4099}[nd.Choose(2)]
	m := incmap.New(l)
	held := 60
	key := func(i int) uint64 { return uint64(i+1) * 0x9e3779b97f4a7c15 }
	sums := make([]uint64, held)
	big := nd.U64("big")
	for r := 0; r < 300; r++ {
		i := r % held
		if r >= 200 {
			i = 7
		}
		d := uint64(r*r + 1)
		if r == 150 || r == 250 {
			d = big
		}
		nd.Assert(m.Inc(key(i), d), "an increment is accepted")
		sums[i] += d
	}
	k := []uint64{key(0), key(held / 2), key(held - 1), key(held), key(held + 3), 1}[nd.Choose(6)]
	d := nd.U64("d")
	nd.Assert(m.Inc(k, d), "an increment is accepted")
	found := false
	for i := range sums {
		if key(i) == k {
			sums[i] += d
			found = true
		}
		v, ok := m.Get(key(i))
		nd.Assert(ok && v == sums[i], "the value is the sum of the increments accepted for the key")
	}
	v, ok := m.Get(k)
	nd.Assert(ok && (found || v == d), "the value is the sum of the increments accepted for the key")
	nd.Observe("v", v)
}
