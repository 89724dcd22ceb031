// Package hashes holds the harnesses over internal/hash/fnv.
package hashes

import (
	"encoding/binary"

	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const (
	offset = 0xcbf29ce484222325
	prime  = 0x100000001b3
)

// ref is the definition of FNV-1 and FNV-1a.
func ref(h uint64, data []byte, a bool) uint64 {
	for _, c := range data {
		if a {
			h = (h ^ uint64(c)) * prime
		} else {
			h = h * prime ^ uint64(c)
		}
	}
	return h
}

type stream interface {
	Write([]byte) (int, error)
	WriteString(string) (int, error)
	WriteByte(byte) error
	WriteUint64(uint64)
	Sum64() uint64
	Sum([]byte) []byte
	Reset()
	Size() int
	BlockSize() int
}

// at is a running hash in an arbitrary state.
func at(a bool, h uint64) stream {
	if a {
		s := fnv.Fnv64a(h)
		return &s
	}
	s := fnv.Fnv64(h)
	return &s
}

// H_step decides one write of every kind from every state of the running hash.
//
//verif:C25
func H_step() {
	a := nd.Choose(2) == 1
	h := nd.U64("state")
	s := at(a, h)
	nd.Assert(s.Sum64() == h, "the value is the state")
	var want uint64
	switch nd.Choose(4) {
	case 0:
		data := nd.Bytes("data", nd.Choose(nd.Tier(9, 17)))
		n, err := s.Write(data)
		nd.Assert(n == len(data) && err == nil, "Write accepts everything")
		want = ref(h, data, a)
	case 1:
		data := nd.Bytes("data", nd.Choose(nd.Tier(9, 17)))
		n, err := s.WriteString(string(data))
		nd.Assert(n == len(data) && err == nil, "WriteString accepts everything")
		want = ref(h, data, a)
	case 2:
		b := nd.U8("byte")
		nd.Assert(s.WriteByte(b) == nil, "WriteByte accepts everything")
		want = ref(h, []byte{b}, a)
	case 3:
		x := nd.U64("x")
		s.WriteUint64(x)
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], x)
		want = ref(h, b[:], a)
	}
	nd.Observe("hash", s.Sum64())
	nd.Assert(s.Sum64() == want, "the running hash absorbs exactly the bytes written")

	pre := nd.Bytes("prefix", nd.Choose(3))
	out := s.Sum(append([]byte(nil), pre...))
	nd.Assert(len(out) == len(pre)+8, "Sum appends eight bytes")
	for i := range pre {
		nd.Assert(out[i] == pre[i], "Sum keeps the buffer")
	}
	nd.Assert(binary.BigEndian.Uint64(out[len(pre):]) == want, "Sum is the value in big endian order")
	nd.Assert(s.Sum64() == want, "Sum does not change the hash")
	nd.Assert(s.Size() == 8 && s.BlockSize() == 1, "the dimensions are those of a 64-bit byte hash")
	s.Reset()
	nd.Assert(s.Sum64() == offset, "Reset returns to the offset basis")
}

// H_whole decides that the one-shot functions and a stream split anywhere give
// the standard value of the bytes.
//
//verif:C25
func H_whole() {
	n := nd.Choose(nd.Tier(65, 200))
	data := nd.Bytes("data", n)
	keep := append([]byte(nil), data...)
	w, wa := ref(offset, data, false), ref(offset, data, true)
	nd.Observe("fnv1", fnv.Sum64(data))
	nd.Observe("fnv1a", fnv.Sum64a(data))
	nd.Assert(fnv.Sum64(data) == w, "Sum64 is FNV-1")
	nd.Assert(fnv.Sum64a(data) == wa, "Sum64a is FNV-1a")
	nd.Assert(fnv.String64(string(data)) == w, "String64 is FNV-1")
	nd.Assert(fnv.String64a(string(data)) == wa, "String64a is FNV-1a")
	k := nd.Choose(n + 1)
	s, sa := fnv.New64(), fnv.New64a()
	s.Write(data[:k])
	sa.WriteString(string(data[:k]))
	s.WriteString(string(data[k:]))
	sa.Write(data[k:])
	nd.Assert(s.Sum64() == w && sa.Sum64() == wa, "splitting the input makes no difference")
	for i := range keep {
		nd.Assert(data[i] == keep[i], "hashing does not change the input")
	}
}

// H_long decides the same for long inputs, of any bytes.
//
//verif:C25
func H_long() {
	n := []int{255, 256, 257, 1030, 4099, 70001}[nd.Choose(nd.Tier(5, 6))]
	data := nd.Bytes("data", n)
	w, wa := ref(offset, data, false), ref(offset, data, true)
	nd.Observe("fnv1", fnv.Sum64(data))
	nd.Assert(fnv.Sum64(data) == w, "Sum64 is FNV-1")
	nd.Assert(fnv.Sum64a(data) == wa, "Sum64a is FNV-1a")
	nd.Assert(fnv.String64(string(data)) == w, "String64 is FNV-1")
	nd.Assert(fnv.String64a(string(data)) == wa, "String64a is FNV-1a")
	h := nd.U64("state")
	s, sa := at(false, h), at(true, h)
	t, ta := at(false, h), at(true, h)
	s.Write(data)
	t.WriteString(string(data))
	sa.WriteString(string(data))
	ta.Write(data)
	nd.Assert(s.Sum64() == ref(h, data, false) && t.Sum64() == s.Sum64(), "the running hash absorbs exactly the bytes written")
	nd.Assert(sa.Sum64() == ref(h, data, true) && ta.Sum64() == sa.Sum64(), "the running hash absorbs exactly the bytes written")
}
