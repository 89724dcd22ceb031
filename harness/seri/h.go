// Package seri holds the harnesses over the serialised forms of bit buckets,
// bloom filters and cardinality counters.
package seri

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/zzverif/nd"
)

const hdr = 10

// reader is a conforming io.Reader in one of the forms the interface allows.
type reader struct {
	data  []byte
	mode  int
	empty bool
	fail  error // what ends the data instead of io.EOF
}

const modes = 4

func (r *reader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.mode == 3 && !r.empty { // nothing yet, no error
		r.empty = true
		return 0, nil
	}
	r.empty = false
	end := io.EOF
	if r.fail != nil {
		end = r.fail
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := len(p)
	if r.mode == 1 { // a byte at a time
		n = 1
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.mode == 2 && len(r.data) == 0 { // the last bytes come with the end
		return n, end
	}
	return n, nil
}

// short accepts only the first n bytes.
type short struct {
	n    int
	got  int
	fail error
}

func (s *short) Write(p []byte) (int, error) {
	n := len(p)
	if n > s.n {
		n = s.n
	}
	s.n -= n
	s.got += n
	if n < len(p) {
		return n, s.fail
	}
	return n, nil
}

// obj is what the three summaries have in common.
type obj interface {
	WriteTo(io.Writer) (int64, error)
	ReadFrom(io.Reader) (int64, error)
	Len() int
}

// image is the serialised form of a summary with n w-bit buckets of arbitrary
// content behind the given outer header.
func image(outer []byte, n int, w uint8) []byte {
	data := nd.Bytes("data", (n*int(w)+7)/8)
	b := append([]byte(nil), outer...)
	var h [hdr]byte
	h[0], h[1] = bitbucket.Version, w
	binary.LittleEndian.PutUint64(h[2:], uint64(n))
	b = append(b, h[:]...)
	return append(b, data...)
}

// pick chooses a summary type and dimensions, and returns the serialised form
// of one in an arbitrary state, the summary made from it by adoption, and an
// unrelated one of the same type to read into.
func pick() (img []byte, o, other obj, length int) {
	switch nd.Choose(3) {
	case 0:
		n, w := nd.Choose(nd.Tier(6, 20)), uint8(1+nd.Choose(8))
		img = image(nil, n, w)
		b, err := bitbucket.WithBytes(img)
		nd.Assert(err == nil, "a bit bucket can be adopted from its own bytes")
		d := bitbucket.New(3, 5)
		d.Set(1, 17)
		return img, &b, &d, bitbucket.Len(n, w)
	case 1:
		n, k := 1+nd.Choose(nd.Tier(18, 70)), uint8(nd.Choose(3))
		img = image([]byte{bloom.Version, k}, n, 1)
		b, err := bloom.WithBytes(img)
		nd.Assert(err == nil, "a bloom filter can be adopted from its own bytes")
		d := bloom.NewBits(13, 2)
		d.Add([]byte{1})
		e := bloom.NewBits(n, k)
		return img, &b, &d, e.Len()
	}
	p := uint8(4 + nd.Choose(nd.Tier(3, 5)))
	img = image([]byte{hll.Version, p}, 1<<p, 6)
	c, err := hll.WithBytes(img)
	nd.Assert(err == nil, "a counter can be adopted from its own bytes")
	d := hll.New(5)
	d.Add([]byte{1})
	return img, &c, &d, hll.Len(p)
}

func same(a, b []byte, msg string) {
	nd.Assert(len(a) == len(b), msg)
	for i := range a {
		nd.Assert(a[i] == b[i], msg)
	}
}

// H_round decides that a summary in any state written to a stream and read
// back through any conforming reader is the same summary.
//
//verif:C20
func H_round() {
	img, o, other, length := pick()
	nd.Assert(o.Len() == len(img) && length == len(img), "the advertised length is the serialised length")
	var buf bytes.Buffer
	n, err := o.WriteTo(&buf)
	nd.Assert(err == nil && n == int64(len(img)) && buf.Len() == len(img), "WriteTo reports the bytes it wrote")
	same(buf.Bytes(), img, "the bytes written are those adopted")
	r := &reader{data: append([]byte(nil), img...), mode: nd.Choose(modes)}
	n, err = other.ReadFrom(r)
	nd.Assert(err == nil, "a stream holding exactly a summary is read")
	nd.Assert(n == int64(len(img)), "ReadFrom reports the bytes it read")
	nd.Assert(other.Len() == len(img), "the length is that of the original")
	var again bytes.Buffer
	n, err = other.WriteTo(&again)
	nd.Assert(err == nil && n == int64(len(img)), "the copy can be written")
	nd.ObserveBytes("again", again.Bytes())
	same(again.Bytes(), img, "the copy is the original")
	same(buf.Bytes(), img, "reading a copy leaves the original alone")
}

// H_refuse decides that trailing data, truncation and a foreign version are
// refused whatever the reader and state.
//
//verif:C20
func H_refuse() {
	img, _, other, _ := pick()
	mode := nd.Choose(modes)
	switch nd.Choose(3) {
	case 0:
		data := append(append([]byte(nil), img...), nd.Bytes("extra", 1+nd.Choose(2))...)
		_, err := other.ReadFrom(&reader{data: data, mode: mode})
		nd.Assert(err != nil, "trailing data is refused")
	case 1:
		k := nd.Choose(len(img))
		_, err := other.ReadFrom(&reader{data: append([]byte(nil), img[:k]...), mode: mode})
		nd.Assert(err != nil, "a truncated stream is refused")
		nd.Assert(err != io.EOF, "a truncated stream is not a normal end")
	case 2:
		v := nd.U8("version")
		nd.Assume(v != img[0])
		data := append([]byte(nil), img...)
		data[0] = v
		_, err := other.ReadFrom(&reader{data: data, mode: mode})
		nd.Assert(err != nil, "a foreign version is refused")
		switch other.(type) {
		case *bitbucket.BitBucket:
			_, err = bitbucket.WithBytes(data)
		case *bloom.Bloom:
			_, err = bloom.WithBytes(data)
		case *hll.Counter:
			_, err = hll.WithBytes(data)
		}
		nd.Assert(err != nil, "a foreign version is refused")
	}
}

// H_writefail decides that a failing writer's error and count are reported.
//
//verif:C20
func H_writefail() {
	img, o, _, _ := pick()
	s := &short{n: nd.Choose(len(img) + 1), fail: errors.New("full")}
	n, err := o.WriteTo(s)
	nd.Assert(n == int64(s.got), "the count is that of the bytes accepted")
	nd.Assert((err != nil) == (s.got < len(img)), "an error is reported exactly if the writer failed")
	nd.Assert(err == nil || err == s.fail, "the error is the writer's")
}

// H_readfail decides that an error of the reader is reported wherever in the
// stream it strikes.
//
//verif:C20
func H_readfail() {
	img, _, other, _ := pick()
	at := nd.Choose(len(img) + 1)
	r := &reader{data: append([]byte(nil), img[:at]...), mode: nd.Choose(modes), fail: errors.New("broken")}
	n, err := other.ReadFrom(r)
	nd.Assert(err != nil, "an error of the reader is reported")
	nd.Assert(n >= 0 && n <= int64(at), "no more bytes are counted than were read")
	nd.Assert(err == r.fail || at == len(img), "the error is the reader's")
}

// H_adopt decides that adoption keeps the state of every bucket, and that
// later writes go to the adopted bytes and nowhere else.
//
//verif:C20
func H_adopt() {
	n, w := 1+nd.Choose(nd.Tier(9, 20)), uint8(1+nd.Choose(8))
	img := image(nil, n, w)
	back := append(append([]byte(nil), img...), 0xa5)
	b, err := bitbucket.WithBytes(back)
	nd.Assert(err == nil && b.Count() == n && b.Width() == w, "the dimensions are kept")
	var c bitbucket.BitBucket
	_, err = c.ReadFrom(bytes.NewReader(img))
	nd.Assert(err == nil && c.Count() == n && c.Width() == w && c.Max() == b.Max(), "the dimensions are kept")
	for i := 0; i < n; i++ {
		nd.Assert(b.Get(i) == c.Get(i), "adopting and reading give the same buckets")
	}
	i, v := nd.Int("i", 0, n-1), nd.U8("v")
	b.Set(i, v)
	d, err := bitbucket.WithBytes(back)
	nd.Assert(err == nil, "the adopted bytes stay well formed")
	for k := 0; k < n; k++ {
		nd.Assert(d.Get(k) == b.Get(k), "writes go to the adopted bytes")
		nd.Assert(k == i || c.Get(k) == b.Get(k), "a copy read from a stream does not share them")
	}
	nd.Assert(back[len(back)-1] == 0xa5, "bytes past the summary are untouched")
}
