// Package bitb holds the harnesses over internal/bitbucket.
package bitb

import (
	"encoding/binary"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const hdr = 10

// arb is a bucket array in an arbitrary state: every content of its bytes.
func arb(n int, w uint8, spare int) (bitbucket.BitBucket, []byte) {
	data := nd.Bytes("data", (n*int(w)+7)/8+spare)
	buf := make([]byte, hdr+len(data))
	buf[0] = bitbucket.Version
	buf[1] = w
	binary.LittleEndian.PutUint64(buf[2:hdr], uint64(n))
	copy(buf[hdr:], data)
	b, err := bitbucket.WithBytes(buf)
	nd.Assert(err == nil, "a well formed buffer is accepted")
	return b, buf
}

func max8(w uint8) uint8 { return uint8(1<<w - 1) }

// H_step decides one Set or IncN of any bucket by any value in any state:
// widths 1..8, every bucket count up to the bound.
//
//verif:C19
func H_step() {
	w := uint8(1 + nd.Choose(8))
	n := 1 + nd.Choose(nd.Tier(9, 18))
	b, buf := arb(n, w, 1)
	before := make([]uint8, n)
	for k := range before {
		before[k] = b.Get(k)
	}
	spare := buf[len(buf)-1]
	i := nd.Int("i", 0, n-1)
	v := nd.U8("v")
	max := max8(w)
	want := v
	if nd.Choose(2) == 0 {
		b.Set(i, v)
	} else {
		b.IncN(i, v)
		sum := uint16(before[i]) + uint16(v)
		if sum > uint16(max) {
			sum = uint16(max)
		}
		want = uint8(sum)
	}
	if want > max {
		want = max
	}
	for k := range before {
		got := b.Get(k)
		nd.Observe("bucket", uint64(got))
		if k == i {
			nd.Assert(got == want, "the bucket holds the capped value")
		} else {
			nd.Assert(got == before[k], "other buckets keep their value")
		}
		nd.Assert(got <= max, "values fit the width")
	}
	nd.Assert(buf[len(buf)-1] == spare, "bytes past the buckets are untouched")
	nd.Assert(buf[0] == bitbucket.Version && buf[1] == w && binary.LittleEndian.Uint64(buf[2:]) == uint64(n), "the header is untouched")
}

// H_new decides that a new or reset array reads zero everywhere and that two
// updates of different buckets do not interfere.
//
//verif:C19
func H_new() {
	w := uint8(1 + nd.Choose(8))
	n := 1 + nd.Choose(nd.Tier(9, 17))
	b := bitbucket.New(n, w)
	nd.Assert(b.Count() == n && b.Width() == w && b.Max() == max8(w), "the dimensions are those asked for")
	for k := 0; k < n; k++ {
		nd.Assert(b.Get(k) == 0, "a new array is zero")
	}
	i, j := nd.Int("i", 0, n-1), nd.Int("j", 0, n-1)
	x, y := nd.U8("x"), nd.U8("y")
	nd.Assume(i != j && x <= max8(w) && y <= max8(w))
	b.Set(i, x)
	b.IncN(j, y)
	nd.Assert(b.Get(i) == x && b.Get(j) == y, "two buckets are independent")
	c := 0
	for k := 0; k < n; k++ {
		if b.Get(k) == x {
			c++
		}
	}
	nd.Observe("count", uint64(c))
	nd.Assert(b.CountN(x) == c, "CountN counts the buckets with the value")
	b.Reset()
	for k := 0; k < n; k++ {
		nd.Assert(b.Get(k) == 0, "a reset array is zero")
	}
	nd.Assert(b.Count() == n && b.Width() == w, "reset keeps the dimensions")
}

// H_toowide decides that buckets wider than eight bits are refused.
//
//verif:C19
func H_toowide() {
	n, w := nd.Choose(3), nd.U8("w")
	nd.Assume(w > 8)
	refused := false
	func() {
		defer func() { refused = recover() != nil }()
		bitbucket.New(n, w)
	}()
	nd.Assert(refused, "buckets wider than eight bits are refused")
	nd.Observe("w", uint64(w))
}

// H_big decides one Set or IncN in arrays of many buckets, of any content:
// the bucket takes its value and any other bucket keeps its own.
//
//verif:C19
func H_big() {
	w := uint8(1 + nd.Choose(8))
	n := []int{300, 200003, 8193, 65537, 1<<24 + 5}[nd.Choose(nd.Tier(2, 5))]
	buf := nd.BigBytes("buf", hdr+(n*int(w)+7)/8)
	buf[0] = bitbucket.Version
	buf[1] = w
	binary.LittleEndian.PutUint64(buf[2:hdr], uint64(n))
	b, err := bitbucket.WithBytes(buf)
	nd.Assert(err == nil && b.Count() == n && b.Width() == w, "a well formed buffer is accepted")
	i, j := nd.Int("i", 0, n-1), nd.Int("j", 0, n-1)
	nd.Assume(i != j)
	was, other := b.Get(i), b.Get(j)
	v := nd.U8("v")
	want := uint16(v)
	if nd.Choose(2) == 0 {
		b.Set(i, v)
	} else {
		b.IncN(i, v)
		want += uint16(was)
	}
	if want > uint16(max8(w)) {
		want = uint16(max8(w))
	}
	nd.Observe("bucket", uint64(b.Get(i)))
	nd.Assert(uint16(b.Get(i)) == want, "the bucket holds the capped value")
	nd.Assert(b.Get(j) == other, "other buckets keep their value")
	nd.Assert(buf[0] == bitbucket.Version && buf[1] == w && binary.LittleEndian.Uint64(buf[2:hdr]) == uint64(n), "the header is untouched")
}
