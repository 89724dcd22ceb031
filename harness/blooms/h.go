// Package blooms holds the harnesses over internal/summary/bloom.
package blooms

import (
	"bytes"
	"encoding/binary"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const hdr = 12

// arb is a filter of m bits and k hashes with arbitrary bits set, and its bytes.
func arb(m int, k uint8) (bloom.Bloom, []byte) {
	bits := nd.Bytes("bits", (m+7)/8)
	buf := make([]byte, hdr+len(bits))
	buf[0], buf[1] = bloom.Version, k
	buf[2], buf[3] = bitbucket.Version, 1
	binary.LittleEndian.PutUint64(buf[4:], uint64(m))
	copy(buf[hdr:], bits)
	b, err := bloom.WithBytes(buf)
	nd.Assert(err == nil, "a well formed filter is accepted")
	return b, buf
}

func dims() (int, uint8) {
	ms := []int{1, 2, 3, 7, 8, 9, 13, 16, 17, 24, 31}
	ks := []uint8{1, 2, 3, 4}
	return ms[nd.Choose(nd.Tier(8, len(ms)))], ks[nd.Choose(nd.Tier(3, len(ks)))]
}

// H_add decides from any prior content that an item is present after it was
// added, that nothing present before is forgotten and no bit is cleared.
//
//verif:C22 absrem
func H_add() {
	m, k := dims()
	b, buf := arb(m, k)
	before := append([]byte(nil), buf...)
	a := nd.Bytes("a", nd.Choose(nd.Tier(3, 4)))
	o := nd.Bytes("other", nd.Choose(3))
	had := b.Has(o)
	b.Add(a)
	nd.Assert(b.Has(a), "an added item is present")
	nd.Assert(!had || b.Has(o), "an item present stays present")
	for i := range before {
		nd.Assert(buf[i]&before[i] == before[i], "no bit is cleared")
	}
	for i := 0; i < hdr; i++ {
		nd.Assert(buf[i] == before[i], "the dimensions stay")
	}
	b.Add(a)
	b.Add(o)
	nd.Observe("has", 1)
	nd.Assert(b.Has(a) && b.Has(o), "items stay present whatever is added")
}

// H_longitem decides that an item of any length is present after it was added
// and stays so.
//
//verif:C22 absrem
func H_longitem() {
	m := []int{9, 16, 31}[nd.Choose(nd.Tier(2, 3))]
	b := bloom.NewBits(m, []uint8{1, 4}[nd.Choose(2)])
	n := []int{9, 33, 64, 65, 129, 257, 1024, 1030, 4096, 5000, 70000}[nd.Choose(nd.Tier(10, 11))]
	item := make([]byte, n)
	for i := range item {
		item[i] = byte(i*i + 3)
	}
	item[n-1] = nd.U8("byte")
	nd.Assert(!b.Has(item), "an empty filter holds nothing")
	b.Add(item)
	nd.Assert(b.Has(item), "an added item is present")
	b.Add([]byte{3})
	nd.Assert(b.Has(item), "an item present stays present")
	nd.Observe("has", 1)
}

// H_life decides the same for a new filter through additions, serialisation
// and reset.
//
//verif:C22 absrem
func H_life() {
	m, k := dims()
	b := bloom.NewBits(m, k)
	a, o := nd.Bytes("a", nd.Choose(3)), nd.Bytes("other", 1+nd.Choose(2))
	nd.Assert(!b.Has(a), "an empty filter holds nothing")
	keep := append([]byte(nil), a...)
	b.Add(a)
	b.Add(o)
	for i := range keep {
		nd.Assert(a[i] == keep[i], "adding does not change the item")
	}
	var out bytes.Buffer
	_, err := b.WriteTo(&out)
	nd.Assert(err == nil, "a filter can be written")
	img := append([]byte(nil), out.Bytes()...)
	var c bloom.Bloom
	_, err = c.ReadFrom(&out)
	nd.Assert(err == nil && c.Has(a) && c.Has(o), "items stay present in a filter read back")
	d, err := bloom.WithBytes(img)
	nd.Assert(err == nil && d.Has(a) && d.Has(o), "items stay present in a filter adopted")
	c.Add(nd.Bytes("third", 1))
	nd.Assert(c.Has(a) && c.Has(o), "items stay present whatever is added later")
	b.Reset()
	nd.Assert(!b.Has(a) && !b.Has(o), "a reset filter holds nothing")
	b.Add(o)
	nd.Assert(b.Has(o), "a reset filter can be used")
	nd.Observe("done", 1)
}

// H_sized decides for filters sized from a capacity and error rate that items
// are found and the advertised length is right.
//
//verif:C22 C20 absrem
func H_sized() {
	ns := []int{1, 2, 5, 10, 33}
	ps := []float64{0.5, 0.1, 0.01, 0.9, 0.001, 0.0000000001}
	n, p := ns[nd.Choose(nd.Tier(3, 5))], ps[nd.Choose(4)]
	b := bloom.New(n, p)
	nd.Assert(b.Len() == bloom.Len(n, p), "the advertised length is the length of the filter")
	var out bytes.Buffer
	k, err := b.WriteTo(&out)
	nd.Assert(err == nil && int(k) == b.Len() && out.Len() == b.Len(), "the advertised length is the serialised length")
	nd.Observe("len", uint64(k))
	a := nd.Bytes("a", 1)
	nd.Assert(!b.Has(a), "an empty filter holds nothing")
	b.Add([]byte("first"))
	b.Add(a)
	nd.Assert(b.Has(a) && b.Has([]byte("first")), "added items are present")
}

// H_big decides the step for large filters and many hash functions.
//
//verif:C22
func H_big() {
	m := []int{65536, 1<<20 + 7, 1000, 3 << 22}[nd.Choose(nd.Tier(2, 4))]
	k := []uint8{7, 255, 30, 1}[nd.Choose(nd.Tier(3, 4))]
	buf := nd.BigBytes("buf", hdr+(m+7)/8)
	buf[0], buf[1] = bloom.Version, k
	buf[2], buf[3] = bitbucket.Version, 1
	binary.LittleEndian.PutUint64(buf[4:hdr], uint64(m))
	b, err := bloom.WithBytes(buf)
	nd.Assert(err == nil, "a well formed filter is accepted")
	a := [][]byte{[]byte("first"), {}, bytes.Repeat([]byte("long "), 60)}[nd.Choose(3)]
	o := []byte("other")
	had := b.Has(o)
	j := nd.Int("j", 0, (m+7)/8-1)
	was := buf[hdr+j]
	b.Add(a)
	nd.Observe("byte", uint64(buf[hdr+j]))
	nd.Assert(b.Has(a), "an added item is present")
	nd.Assert(!had || b.Has(o), "an item present stays present")
	nd.Assert(buf[hdr+j]&was == was, "no bit is cleared")
	b.Add(o)
	nd.Assert(b.Has(a) && b.Has(o), "items stay present whatever is added")
}
