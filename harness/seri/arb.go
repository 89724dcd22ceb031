package seri

import (
	"bytes"
	"encoding/binary"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// window is data inside a larger buffer whose other bytes must stay alone.
func window(data []byte) (win, all []byte) {
	all = make([]byte, len(data)+8)
	for i := range all {
		all[i] = 0x5a
	}
	copy(all[4:], data)
	return all[4 : 4+len(data)], all
}

func intact(all []byte, n int) {
	for i := 0; i < 4; i++ {
		nd.Assert(all[i] == 0x5a && all[4+n+i] == 0x5a, "nothing outside the given bytes is written")
	}
}

// classify forks over the header fields of a serialised bit bucket so that the
// small dimensions are followed one by one and all impossible ones together.
func classify(b []byte) {
	if len(b) < hdr || b[0] != bitbucket.Version {
		return
	}
	if b[1] >= 1 && b[1] <= 8 {
		b[1] = byte(nd.Concrete(int(b[1])))
	}
	c := binary.LittleEndian.Uint64(b[2:])
	// around the size of the data and of the read buffers of the library
	lim := uint64(8*(len(b)-hdr) + 9)
	if c <= lim {
		binary.LittleEndian.PutUint64(b[2:], uint64(nd.Concrete(int(c))))
	} else {
		nd.Assume(c > 8192)
	}
}

// H_bucket decides that any bytes decode to an error or to a bit bucket whose
// buckets all work.
//
//verif:C21
func H_bucket() {
	n := nd.Choose(nd.Tier(14, 18))
	data := nd.Bytes("data", n)
	classify(data)
	win, all := window(data)
	var b bitbucket.BitBucket
	var err error
	if nd.Choose(2) == 0 {
		b, err = bitbucket.WithBytes(win)
	} else {
		var k int64
		k, err = b.ReadFrom(bytes.NewReader(win))
		nd.Assert(k >= 0 && k <= int64(n), "the count read is within the stream")
		nd.Assert(err != nil || k == int64(n), "a stream accepted is read to its end")
	}
	if err != nil {
		nd.Observe("refused", uint64(n))
		return
	}
	c, w := nd.Concrete(b.Count()), nd.Concrete(int(b.Width()))
	nd.Observe("buckets", uint64(c))
	nd.Assert(c >= 0 && w >= 1 && w <= 8 && hdr+(c*w+7)/8 <= n, "the buckets lie within the bytes")
	nd.Assert(data[0] == bitbucket.Version && int(data[1]) == w && binary.LittleEndian.Uint64(data[2:]) == uint64(c), "the dimensions are those given")
	nd.Assert(b.Len() == bitbucket.Len(c, uint8(w)) && b.CountN(0) <= c, "the summary is consistent")
	if c > 0 {
		i, v := nd.Int("i", 0, c-1), nd.U8("v")
		old := b.Get(i)
		b.IncN(i, v)
		nd.Assert(b.Get(i) >= old, "every bucket works")
		b.Set(i, v)
		nd.Assert(b.Get(i) == v || b.Get(i) == b.Max(), "every bucket works")
	}
	var out bytes.Buffer
	k, err := b.WriteTo(&out)
	nd.Assert(err == nil && int(k) == b.Len(), "it can be written")
	b.Reset()
	nd.Assert(b.CountN(0) == c, "it can be reset")
	intact(all, n)
}

// H_bloom decides the same for bloom filters.
//
//verif:C21 maxconc=900 maxpaths=3000000
func H_bloom() {
	n := nd.Choose(nd.Tier(15, 17))
	data := nd.Bytes("data", n)
	if n > 1 {
		if nd.Tier(0, 1) == 0 {
			ks := []uint8{0, 1, 2, 3, 255}
			k := ks[nd.Choose(len(ks))]
			nd.Assume(data[1] == k)
			data[1] = k
		} else {
			data[1] = byte(nd.Concrete(int(data[1])))
		}
	}
	if n > 2 {
		classify(data[2:])
	}
	win, all := window(data)
	var b bloom.Bloom
	var err error
	if nd.Choose(2) == 0 {
		b, err = bloom.WithBytes(win)
	} else {
		var k int64
		k, err = b.ReadFrom(bytes.NewReader(win))
		nd.Assert(k >= 0 && k <= int64(n), "the count read is within the stream")
		nd.Assert(err != nil || k == int64(n), "a stream accepted is read to its end")
	}
	if err != nil {
		nd.Observe("refused", uint64(n))
		return
	}
	m := nd.Concrete(int(binary.LittleEndian.Uint64(data[4:])))
	nd.Observe("bits", uint64(m))
	nd.Assert(m >= 1 && 2+hdr+(m+7)/8 <= n && b.Len() == 2+hdr+(m+7)/8, "the filter lies within the bytes")
	item := []byte("item")
	b.Has(item)
	b.Add(item)
	nd.Assert(b.Has(item), "it can be used")
	var out bytes.Buffer
	k, err := b.WriteTo(&out)
	nd.Assert(err == nil && int(k) == b.Len(), "it can be written")
	b.Count()
	b.ErrorRate()
	b.Reset()
	nd.Assert(data[1] == 0 || !b.Has(item), "it can be reset")
	intact(all, n)
}

// H_hll decides the same for cardinality counters; estimates on arbitrary
// registers are decided in H_hlluse.
//
//verif:C21 maxconc=900 maxpaths=3000000
func H_hll() {
	ns := []int{24, 0, 1, 2, 11, 12, 13, 23, 25, 36, 60, 35, 37}
	n := ns[nd.Choose(nd.Tier(9, len(ns)))]
	data := nd.Bytes("data", n)
	if n > 2 {
		if data[1] >= 4 && data[1] <= 18 {
			data[1] = byte(nd.Concrete(int(data[1])))
			if n >= 2+hdr {
				// of the register counts only those next to the right one, small
				// and impossible ones are followed; H_bucket takes them all
				c, m := binary.LittleEndian.Uint64(data[4:]), uint64(1)<<data[1]
				nd.Assume(c <= 3 || c == m || c+1 == m || c == m+1 || c > uint64(8*n))
			}
		}
		classify(data[2:])
	}
	win, all := window(data)
	var c hll.Counter
	var err error
	if nd.Choose(2) == 0 {
		c, err = hll.WithBytes(win)
	} else {
		var k int64
		k, err = c.ReadFrom(bytes.NewReader(win))
		nd.Assert(k >= 0 && k <= int64(n), "the count read is within the stream")
		nd.Assert(err != nil || k == int64(n), "a stream accepted is read to its end")
	}
	if err != nil {
		nd.Observe("refused", uint64(n))
		return
	}
	p := nd.Concrete(int(data[1]))
	nd.Observe("precision", uint64(p))
	nd.Assert(p >= 4 && p <= 18 && hll.Len(uint8(p)) <= n && c.Len() == hll.Len(uint8(p)), "the counter lies within the bytes")
	c.Add([]byte("item"))
	var out bytes.Buffer
	k, err := c.WriteTo(&out)
	nd.Assert(err == nil && int(k) == c.Len(), "it can be written")
	c.LinearCount()
	c.Reset()
	nd.Assert(c.Count() == 0 && c.LinearCount() == 0, "it can be reset")
	intact(all, n)
}

// H_hlluse decides that the estimates of a decoded counter return on register
// contents no counter would build: any two register values in any proportion.
//
//verif:C21
func H_hlluse() {
	img := make([]byte, 2+hdr+12)
	img[0], img[1] = hll.Version, 4
	copy(img[2:], []byte{bitbucket.Version, 6, 16})
	b, err := bitbucket.WithBytes(img[2:])
	nd.Assert(err == nil, "the registers are adopted")
	x, y := uint8(nd.Concrete(nd.Int("x", 0, 63))), uint8([]int{0, 1, 5, 59, 60, 61, 62, 63}[nd.Choose(8)])
	k := nd.Choose(nd.Tier(3, 9)) * nd.Tier(8, 2)
	for i := 0; i < 16; i++ {
		if i < k {
			b.Set(i, x)
		} else {
			b.Set(i, y)
		}
	}
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "any register content is adopted")
	c.Count()
	c.HarmonicCount()
	c.PoissonCount()
	if k == 16 && x == 0 || k == 0 && y == 0 {
		nd.Assert(c.Count() == 0, "an empty counter estimates zero")
	}
}
