// Package races checks the concurrent structures under every sequentially
// consistent interleaving of a few threads.
package races

//gate: internal/bufmap internal/incmap internal/seqlock

import (
	"bytes"
	"errors"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// pattern chooses keys for a map of l slots: equal, different with the same
// slot, or with neighbouring slots. The values are fixed: other checks take
// any key, these take any schedule and any data.
func pattern(n, l int) []uint64 {
	ks := []uint64{uint64(3 * l)}
	for len(ks) < n {
		switch c := nd.Choose(len(ks) + 2); {
		case c < len(ks):
			ks = append(ks, ks[c])
		case c == len(ks): // a new key, same slot as the first
			ks = append(ks, uint64((3+len(ks))*l))
		default: // a new key, next slot
			ks = append(ks, uint64((3+len(ks))*l+1))
		}
	}
	return ks
}

// H_incPar: two increments and a read, any amounts, equal or different keys,
// map of 1, 2 or 4 slots.
//
//verif:C17 nomerge maxpaths=2000000
func H_incPar() {
	l := []int{1, 2, 4}[nd.Choose(3)]
	m := incmap.New(l)
	ks := pattern(2, l)
	k1, k2 := ks[0], ks[1]
	kr := ks[nd.Choose(2)]
	d1, d2 := nd.U64("d1"), nd.U64("d2")
	var ok1, ok2, found bool
	var v uint64
	nd.Par(func() {
		ok1 = m.Inc(k1, d1)
	}, func() {
		ok2 = m.Inc(k2, d2)
	}, func() {
		v, found = m.Get(kr)
	})
	nd.Assert(ok1 || ok2, "one increment fits in any map")
	if l > 1 {
		nd.Assert(ok1 && ok2, "two keys fit in a map of two")
	}
	sum := func(k uint64) uint64 {
		s := uint64(0)
		if ok1 && k1 == k {
			s += d1
		}
		if ok2 && k2 == k {
			s += d2
		}
		return s
	}
	for _, k := range []uint64{k1, k2} {
		x, f := m.Get(k)
		in := ok1 && k1 == k || ok2 && k2 == k
		nd.Assert(f == in, "a key is found exactly when an increment of it was accepted")
		if f {
			nd.Assert(x == sum(k), "the value of a key is the sum of its accepted increments")
		}
	}
	if found {
		nd.Assert(kr == k1 || kr == k2, "a key never incremented is not found")
		s := v == 0
		if kr == k1 {
			s = s || v == d1
		}
		if kr == k2 {
			s = s || v == d2
		}
		if kr == k1 && kr == k2 {
			s = s || v == d1+d2
		}
		nd.Assert(s, "a concurrent read sees some of the increments of its key")
	} else {
		nd.Assert(v == 0, "no value without a key")
	}
	nd.Observe("found", b2u(found))
	nd.Observe("v", v)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// H_incThree: three increments of any amounts, keys equal or not, map of 2
// slots.
//
//verif:C17 nomerge maxpaths=2000000
func H_incThree() {
	m := incmap.New(2)
	var k, d [3]uint64
	var ok [3]bool
	copy(k[:], pattern(3, 2))
	for i := range k {
		d[i] = nd.U64("d")
	}
	inc := func(i int) func() { return func() { ok[i] = m.Inc(k[i], d[i]) } }
	nd.Par(inc(0), inc(1), inc(2))
	for i := range k {
		x, f := m.Get(k[i])
		s, in := uint64(0), false
		for j := range k {
			if ok[j] && k[j] == k[i] {
				s += d[j]
				in = true
			}
		}
		nd.Assert(f == in, "a key is found exactly when an increment of it was accepted")
		nd.Assert(!f || x == s, "the value of a key is the sum of its accepted increments")
		for j := range k {
			nd.Assert(k[j] != k[i] || ok[j] == ok[i], "increments of one key are all accepted or all refused")
		}
		nd.Observe("x", x)
	}
	n := 0
	for i := range ok {
		if ok[i] {
			n++
		}
	}
	nd.Assert(n >= 2, "two keys fit in a map of two")
}

type upd struct {
	k       uint64
	d       byte
	fail    bool
	calls   int
	init    bool
	torn    bool
	before  byte
	err     error
	errWant error
}

var errFail = errors.New("fails")

// run updates the record of its key: both bytes grow by d, with a preemption
// between them.
func (u *upd) run(m *bufmap.Map) {
	u.err = m.Update(u.k, func(data []byte, init bool) error {
		u.calls++
		u.init = init
		if u.fail {
			return errFail
		}
		var a, b byte
		if !init {
			nd.Gate(90, 0, &data[0])
			a = data[0]
			nd.Gate(91, 0, &data[1])
			b = data[1]
		}
		u.before = a
		u.torn = a != b
		nd.Gate(92, 1, &data[0])
		data[0] = a + u.d
		nd.Gate(93, 1, &data[1])
		data[1] = b + u.d
		return nil
	})
}

func checkUpdates(m *bufmap.Map, us []*upd) {
	for _, u := range us {
		if u.fail {
			nd.Assert(u.err == errFail, "the error of the update function is returned")
		} else {
			nd.Assert(u.err == nil, "an update that fits is accepted")
		}
		nd.Assert(u.calls >= 1, "the update function is called")
		nd.Assert(!u.torn, "an update sees no half-done update")
		firsts, sum, n := 0, byte(0), 0
		for _, o := range us {
			if o.k == u.k && !o.fail {
				n++
				sum += o.d
				if o.init {
					firsts++
				}
			}
		}
		buf := make([]byte, 2)
		f := m.Get(u.k, buf)
		nd.Assert(f == (n > 0), "a key is found exactly when an update of it succeeded")
		if n > 0 {
			nd.Assert(firsts == 1, "exactly one successful update of a key is told it is the first")
			nd.Assert(buf[0] == sum && buf[1] == sum, "no update is lost and the first runs before the others")
		}
	}
}

// subset reports whether v can be left by some of the updates of the key.
func subset(us []*upd, k uint64, v byte) bool {
	sums := []byte{0}
	any := false
	for i := 1; i < 1<<len(us); i++ {
		s, all := byte(0), true
		for j, u := range us {
			if i>>j&1 == 1 {
				s += u.d
				all = all && u.k == k && !u.fail
			}
		}
		if all && s == v {
			any = true
		}
	}
	_ = sums
	return any
}

// H_bufTwo: two updates of equal or different keys in a map of 2 records, and a reader.
//
//verif:C16 nomerge maxpaths=2000000
func H_bufTwo() {
	m := bufmap.New(2, 2)
	ks := pattern(2, 2)
	us := []*upd{{k: ks[0], d: nd.U8("d1")}, {k: ks[1], d: nd.U8("d2")}}
	kr := ks[nd.Choose(2)]
	buf := make([]byte, 2)
	var found bool
	nd.Par(func() { us[0].run(m) }, func() { us[1].run(m) }, func() { found = m.Get(kr, buf) })
	checkUpdates(m, us)
	if found {
		nd.Assert(buf[0] == buf[1], "a read is never a mixture of two states")
		nd.Assert(subset(us, kr, buf[0]), "a read returns a state left by some complete updates")
	}
	nd.Observe("found", b2u(found))
	nd.ObserveBytes("buf", buf)
}

// H_bufFail: two updates, one of which may fail, with a reader.
//
//verif:C16 nomerge maxpaths=2000000
func H_bufFail() {
	m := bufmap.New(2, 2)
	k := uint64(6)
	us := []*upd{{k: k, d: nd.U8("d1")}, {k: k, d: nd.U8("d2"), fail: true}}
	buf := make([]byte, 2)
	var found bool
	nd.Par(func() { us[0].run(m) }, func() { us[1].run(m) }, func() { found = m.Get(k, buf) })
	checkUpdates(m, us)
	if found {
		nd.Assert(buf[0] == us[0].d && buf[1] == us[0].d, "a read returns a state left by a complete update")
	}
	nd.Observe("found", b2u(found))
}

// H_bufReads: a reader that reads twice while another thread updates a record
// twice sees the record grow.
//
//verif:C16 nomerge maxpaths=2000000
func H_bufReads() {
	m := bufmap.New(2, 2)
	k := uint64(6)
	a, b := &upd{k: k, d: 1}, &upd{k: k, d: 1}
	b1, b2 := make([]byte, 2), make([]byte, 2)
	var f1, f2 bool
	nd.Par(func() { a.run(m); b.run(m) }, func() {
		f1 = m.Get(k, b1)
		f2 = m.Get(k, b2)
	})
	checkUpdates(m, []*upd{a, b})
	nd.Assert(!f1 || f2, "a record once found stays")
	if f1 {
		nd.Assert(b1[0] == b1[1] && b1[0] >= 1 && b1[0] <= 2, "a read returns a complete state")
		nd.Assert(b2[0] >= b1[0], "reads never go back in time")
	}
	if f2 {
		nd.Assert(b2[0] == b2[1] && b2[0] >= 1 && b2[0] <= 2, "a read returns a complete state")
	}
	nd.Observe("f", b2u(f1)+2*b2u(f2))
	nd.ObserveBytes("b1", b1)
	nd.ObserveBytes("b2", b2)
}

// H_incOften: an increment and a read during which several whole increments
// happen, at any places.
//
//verif:C17 nomerge maxpaths=2000000
func H_incOften() {
	m := incmap.New(2)
	n := nd.Tier(8, 12)
	k, l := uint64(6), uint64(8)
	var ok, found bool
	var r uint64
	nd.Par(func() {
		ok = m.Inc(k, 1)
		r, found = m.Get(k)
	}, func() {
		for i := 1; i <= n; i++ {
			nd.Atomic(func() {
				m.Inc(k, 16)
				if i == 2 {
					m.Inc(l, 3)
				}
			})
		}
	})
	v, f := m.Get(k)
	nd.Assert(ok && f && v == 1+16*uint64(n), "the value of a key is the sum of its increments")
	nd.Assert(found && r&15 == 1 && r <= v, "a read sees the increments that came before it")
	v, f = m.Get(l)
	nd.Assert(f && v == 3, "the value of a key is the sum of its increments")
	nd.Observe("r", r)
}

// H_bufOften: a read during which several whole updates happen, at any places.
//
//verif:C16 nomerge maxpaths=8000000
func H_bufOften() {
	m := bufmap.New(2, 4)
	n := nd.Tier(6, 7)
	b := make([]byte, 4)
	var found bool
	k := uint64(6)
	if nd.Choose(2) == 1 {
		err := m.Update(k, func(data []byte, init bool) error { data[0], data[3] = 100, 100; return nil })
		nd.Assert(err == nil, "an update is accepted")
	} else {
		n--
	}
	nd.Par(func() { found = m.Get(k, b) }, func() {
		for i := 1; i <= n; i++ {
			nd.Atomic(func() {
				m.Update(k, func(data []byte, init bool) error { data[0], data[3] = byte(i), byte(i); return nil })
			})
		}
	})
	if found {
		nd.Assert(b[0] == b[3] && (int(b[0]) <= n && b[0] > 0 || b[0] == 100), "a read returns a complete state")
	}
	nd.Observe("found", b2u(found))
	nd.ObserveBytes("b", b)
}

const last = 1023

// H_seqPar: a Put, an Update and a Get run concurrently.
//
//verif:C18 nomerge maxpaths=2000000
func H_seqPar() {
	s := seqlock.New()
	p, d := nd.U8("p"), nd.U8("d")
	var v [1024]byte
	v[0], v[last] = p, p
	var torn bool
	var err error
	var r [1024]byte
	nd.Par(func() {
		s.Put(v)
	}, func() {
		err = s.Update(func(data []byte) error {
			nd.Gate(90, 0, &data[0])
			a := data[0]
			nd.Gate(91, 0, &data[last])
			b := data[last]
			torn = a != b
			nd.Gate(92, 1, &data[0])
			data[0] = a + d
			nd.Gate(93, 1, &data[last])
			data[last] = b + d
			return nil
		})
	}, func() {
		r = s.Get()
	})
	nd.Assert(err == nil, "the update is accepted")
	nd.Assert(!torn, "an update sees no half-done write")
	nd.Assert(r[0] == r[last], "a read is never a mixture of two writes")
	nd.Assert(r[0] == 0 || r[0] == p || r[0] == d || r[0] == p+d, "a read returns the data of some complete write")
	e := s.Get()
	nd.Assert(e[0] == e[last] && (e[0] == p || e[0] == p+d), "writes happen one at a time")
	nd.Observe("r", uint64(r[0]))
	nd.Observe("e", uint64(e[0]))
}

// H_seqFail: an Update that changes what it is given and then fails, a Put or
// an Update, and a Get run concurrently.
//
//verif:C18 nomerge maxpaths=2000000
func H_seqFail() {
	s := seqlock.New()
	o, p := nd.U8("o"), nd.U8("p")
	var v [1024]byte
	v[0], v[last] = o, o
	nd.Par(func() { s.Put(v) })
	v[0], v[last] = p, p
	put := nd.Choose(2) == 0
	var e1, e2 error
	var r, e [1024]byte
	nd.Par(func() {
		e1 = s.Update(func(data []byte) error {
			nd.Gate(90, 1, &data[0])
			data[0]++
			nd.Gate(91, 1, &data[last])
			data[last] = 77
			return errFail
		})
	}, func() {
		if put {
			s.Put(v)
			return
		}
		e2 = s.Update(func(data []byte) error {
			nd.Gate(92, 1, &data[0])
			data[0] = p
			nd.Gate(93, 1, &data[last])
			data[last] = p
			return nil
		})
	}, func() {
		r = s.Get()
	})
	nd.Par(func() { e = s.Get() })
	nd.Assert(e1 == errFail && e2 == nil, "an update returns the error of its function")
	nd.Assert(r[0] == r[last] && (r[0] == o || r[0] == p), "a read returns the data of some complete write")
	nd.Assert(e[0] == p && e[last] == p, "a failing update changes nothing")
	nd.Observe("r", uint64(r[0]))
}

// H_seqReads: a reader that reads twice during two writes sees them in order.
//
//verif:C18 nomerge maxpaths=2000000
func H_seqReads() {
	s := seqlock.New()
	put := func(b byte) {
		var v [1024]byte
		v[0], v[last] = b, b
		s.Put(v)
	}
	var r1, r2 [1024]byte
	nd.Par(func() { put(1); put(2) }, func() {
		r1 = s.Get()
		r2 = s.Get()
	})
	nd.Assert(r1[0] == r1[last] && r1[0] <= 2, "a read returns the data of some complete write")
	nd.Assert(r2[0] == r2[last] && r2[0] <= 2, "a read returns the data of some complete write")
	nd.Assert(r2[0] >= r1[0], "reads never go back in time")
	nd.Observe("r", uint64(r1[0])<<8+uint64(r2[0]))
}

// H_seqOften: a read during which several whole writes happen, at any places.
//
//verif:C18 nomerge maxpaths=2000000
func H_seqOften() {
	s := seqlock.New()
	n := nd.Tier(5, 7)
	var r [1024]byte
	nd.Par(func() { r = s.Get() }, func() {
		for i := 1; i <= n; i++ {
			nd.Atomic(func() {
				var v [1024]byte
				v[0], v[last] = byte(i), byte(i)
				s.Put(v)
			})
		}
	})
	nd.Assert(r[0] == r[last] && int(r[0]) <= n, "a read returns the data of some complete write")
	nd.Observe("r", uint64(r[0]))
}

// H_seqHistory: any history of a few operations, at any places of the data.
//
//verif:C18
func H_seqHistory() {
	s := seqlock.New()
	var model [1024]byte
	for i, n := 0, nd.Tier(3, 4); i < n; i++ {
		at := []int{0, 512, last}[nd.Choose(3)]
		x := nd.U8("x")
		switch nd.Choose(3) {
		case 0:
			var v [1024]byte
			v[at] = x
			nd.Par(func() { s.Put(v) })
			v[at] = x + 1 // the caller's copy is its own
			model = [1024]byte{}
			model[at] = x
		case 1:
			calls, wide, same := 0, 0, true
			var err error
			nd.Par(func() {
				err = s.Update(func(data []byte) error {
					calls++
					wide = len(data)
					same = bytes.Equal(data, model[:])
					data[at] += x
					return nil
				})
			})
			model[at] += x
			nd.Assert(err == nil && calls == 1, "an update is applied once")
			nd.Assert(wide == len(model) && same, "an update is given the latest data")
		case 2:
			var err error
			nd.Par(func() {
				err = s.Update(func(data []byte) error {
					data[at] += x
					return errFail
				})
			})
			nd.Assert(err == errFail, "an update returns the error of its function")
		}
		var r [1024]byte
		nd.Par(func() { r = s.Get() })
		nd.Assert(bytes.Equal(r[:], model[:]), "a read returns the data of the last write")
		nd.Observe("at", uint64(r[at]))
	}
}
