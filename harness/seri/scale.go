package seri

import (
	"bytes"
	"encoding/binary"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// large is the serialised form of a large summary in an arbitrary state, the
// summary made from it by adoption, and an unrelated one to read into.
func large() (img []byte, o, other obj, length int) {
	var outer []byte
	var n int
	w := uint8(1)
	kind := nd.Choose(3)
	switch kind {
	case 0:
		n = []int{300, 4099, 70001, 600000}[nd.Choose(nd.Tier(3, 4))]
		w = []uint8{1, 5, 8}[nd.Choose(3)]
	case 1:
		n = []int{300, 4099, 70001, 600000}[nd.Choose(nd.Tier(3, 4))]
		outer = []byte{bloom.Version, uint8([]int{1, 17, 200}[nd.Choose(3)])}
	case 2:
		p := []uint8{11, 14, 16, 18}[nd.Choose(nd.Tier(3, 4))]
		n, w = 1<<p, 6
		outer = []byte{hll.Version, p}
	}
	var h [hdr]byte
	h[0], h[1] = bitbucket.Version, w
	binary.LittleEndian.PutUint64(h[2:], uint64(n))
	size := len(outer) + hdr + (n*int(w)+7)/8
	img = nd.BigBytes("img", size)
	copy(img, outer)
	copy(img[len(outer):], h[:])
	var err error
	switch kind {
	case 0:
		var b bitbucket.BitBucket
		b, err = bitbucket.WithBytes(img)
		d := bitbucket.New(3, 5)
		o, other, length = &b, &d, bitbucket.Len(n, w)
	case 1:
		var b bloom.Bloom
		b, err = bloom.WithBytes(img)
		d := bloom.NewBits(13, 2)
		e := bloom.NewBits(n, outer[1])
		o, other, length = &b, &d, e.Len()
	case 2:
		var c hll.Counter
		c, err = hll.WithBytes(img)
		d := hll.New(5)
		o, other, length = &c, &d, hll.Len(outer[1])
	}
	nd.Assert(err == nil, "a summary can be adopted from its own bytes")
	return img, o, other, length
}

// H_large decides that a large summary survives a stream.
//
//verif:C20 maxsteps=200000000 maxalloc=16777216
func H_large() {
	img, o, other, length := large()
	nd.Assert(o.Len() == len(img) && length == len(img), "the advertised length is the serialised length")
	var buf bytes.Buffer
	n, err := o.WriteTo(&buf)
	nd.Assert(err == nil && n == int64(len(img)) && buf.Len() == len(img), "WriteTo reports the bytes it wrote")
	nd.Assert(bytes.Equal(buf.Bytes(), img), "the bytes written are those adopted")
	mode := []int{0, 2, 3}[nd.Choose(3)]
	if nd.Choose(2) == 1 {
		k := []int{1, 11, len(img) / 2, len(img) - 1}[nd.Choose(4)]
		_, err := other.ReadFrom(&reader{data: img[:k], mode: mode})
		nd.Assert(err != nil, "a truncated stream is refused")
		return
	}
	n, err = other.ReadFrom(&reader{data: append([]byte(nil), img...), mode: mode})
	nd.Assert(err == nil, "a stream holding exactly a summary is read")
	nd.Assert(n == int64(len(img)), "ReadFrom reports the bytes it read")
	nd.Assert(other.Len() == len(img), "the length is that of the original")
	var again bytes.Buffer
	n, err = other.WriteTo(&again)
	nd.Assert(err == nil && n == int64(len(img)) && again.Len() == len(img), "the copy can be written")
	nd.Assert(bytes.Equal(again.Bytes(), img), "the copy is the original")
}
