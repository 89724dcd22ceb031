package seri

import (
	"bytes"
	"encoding/binary"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// alike decides that two summaries serialise to the same bytes of the length
// they announce.
func alike(a, b obj, n int) {
	var x, y bytes.Buffer
	k, err := a.WriteTo(&x)
	nd.Assert(err == nil && int(k) == n && x.Len() == n && a.Len() == n, "a summary has the length of its own bytes")
	k, err = b.WriteTo(&y)
	nd.Assert(err == nil && int(k) == n && y.Len() == n && b.Len() == n, "a copy has the length of the original")
	same(x.Bytes(), y.Bytes(), "the copy is the original")
}

// behind puts bytes behind an image, which are none of its business.
func behind(img []byte) ([]byte, func()) {
	t := nd.Choose(3)
	b := append(append([]byte(nil), img...), []byte{0xa5, 0xff}[:t]...)
	return b, func() {
		for i := len(img); i < len(b); i++ {
			nd.Assert(b[i] == []byte{0xa5, 0xff}[i-len(img)], "bytes past the summary are untouched")
		}
	}
}

// H_counters decides that a counter adopted from its bytes and one read into
// a counter that was in use give the same estimates and go on alike.
//
//verif:C20
func H_counters() {
	p := uint8([]int{4, 5, 6, 7, 8}[nd.Choose(nd.Tier(3, 5))])
	m := 1 << p
	o := hll.New(p)
	if nd.Choose(2) == 1 {
		// past the range of linear counting
		for i := 0; i < 8*m; i++ {
			var b [12]byte
			binary.BigEndian.PutUint64(b[4:], uint64(i)*0x9e3779b97f4a7c15)
			o.Add(b[:])
		}
	}
	o.Add([]byte("first"))
	var img bytes.Buffer
	_, err := o.WriteTo(&img)
	nd.Assert(err == nil, "a counter can be written")
	buf, rest := behind(img.Bytes())
	a, err := hll.WithBytes(buf)
	nd.Assert(err == nil, "a counter can be adopted")
	c := hll.New(uint8([]int{4, 5, 13}[nd.Choose(3)]))
	c.Add([]byte("earlier"))
	_, err = c.ReadFrom(&reader{data: append([]byte(nil), img.Bytes()...), mode: nd.Choose(modes)})
	nd.Assert(err == nil, "a stream holding exactly a summary is read")
	alike(&a, &c, img.Len())
	nd.Observe("count", uint64(o.Count()))
	nd.Assert(a.Count() == o.Count() && c.Count() == o.Count() && a.HarmonicCount() == c.HarmonicCount() && a.PoissonCount() == c.PoissonCount(), "a copy estimates what the original does")
	v := nd.Item("item")
	a.Add(v)
	c.Add(v)
	o.Add(v)
	alike(&a, &c, img.Len())
	alike(&o, &c, img.Len())
	rest()
	a.Reset()
	c.Reset()
	alike(&a, &c, img.Len())
	rest()
}

// H_filters decides the same for bloom filters.
//
//verif:C20
func H_filters() {
	n, k := []int{1, 8, 13, 64, 100}[nd.Choose(nd.Tier(4, 5))], uint8([]int{1, 2, 5}[nd.Choose(nd.Tier(2, 3))])
	img := image([]byte{bloom.Version, k}, n, 1)
	buf, rest := behind(img)
	a, err := bloom.WithBytes(buf)
	nd.Assert(err == nil, "a filter can be adopted")
	c := bloom.NewBits([]int{1, 13, 200}[nd.Choose(3)], uint8(1+nd.Choose(2)*6))
	c.Add([]byte("earlier"))
	_, err = c.ReadFrom(&reader{data: append([]byte(nil), img...), mode: nd.Choose(modes)})
	nd.Assert(err == nil, "a stream holding exactly a summary is read")
	alike(&a, &c, len(img))
	x, y := []byte("other"), []byte{0, 1}
	nd.Assert(a.Has(x) == c.Has(x), "a copy holds what the original does")
	a.Add(y)
	c.Add(y)
	nd.Assert(a.Has(x) == c.Has(x) && a.Has(y) && c.Has(y), "a copy holds what the original does")
	alike(&a, &c, len(img))
	rest()
	a.Reset()
	c.Reset()
	alike(&a, &c, len(img))
	nd.Observe("len", uint64(a.Len()))
	nd.Assert(a.Count() == 0 && c.Count() == 0, "a reset filter is empty")
	rest()
}

// H_buckets decides the same for bit buckets.
//
//verif:C20
func H_buckets() {
	n, w := 1+nd.Choose(nd.Tier(5, 12)), uint8(1+nd.Choose(8))
	img := image(nil, n, w)
	buf, rest := behind(img)
	a, err := bitbucket.WithBytes(buf)
	nd.Assert(err == nil, "a bit bucket can be adopted")
	c := bitbucket.New(1+nd.Choose(2)*30, uint8(1+nd.Choose(2)*6))
	c.Set(0, 1)
	_, err = c.ReadFrom(bytes.NewReader(append([]byte(nil), img...)))
	nd.Assert(err == nil, "a stream holding exactly a summary is read")
	alike(&a, &c, len(img))
	i, v := nd.Int("i", 0, n-1), nd.U8("v")
	inc := nd.Choose(2) == 0
	for _, b := range []*bitbucket.BitBucket{&a, &c} {
		if inc {
			b.IncN(i, v)
		} else {
			b.Set(i, v)
		}
	}
	nd.Observe("got", uint64(a.Get(i)))
	nd.Assert(a.Get(i) == c.Get(i) && a.Max() == c.Max() && a.Width() == c.Width() && a.Count() == c.Count(), "a copy goes on as the original does")
	alike(&a, &c, len(img))
	rest()
	a.Reset()
	c.Reset()
	alike(&a, &c, len(img))
	rest()
}
