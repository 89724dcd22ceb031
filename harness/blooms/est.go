package blooms

import (
	"encoding/binary"
	"math"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// near checks the estimates of a filter of m bits with x of them set.
func near(b bloom.Bloom, m, x int, k uint8) float64 {
	n := b.Count()
	nd.Observe("count", uint64(n))
	if x == m {
		nd.Assert(n > int64(m)/int64(k), "a full filter has more items than any other")
	} else {
		v := -math.Log(1-float64(x)/float64(m)) * float64(m) / float64(k)
		nd.Assert(float64(n) >= v*(1-1e-9) && float64(n) < v*(1+1e-9)+1, "the estimated number of items follows from the number of bits set")
	}
	nd.Assert(n >= 0 && (n == 0) == (x == 0), "the estimated number of items is zero for an empty filter and else positive")
	r := b.ErrorRate()
	nd.Assert(r >= 0 && r <= 1, "the error rate is a probability")
	nd.Assert((x == 0) == (r == 0), "only an empty filter makes no errors")
	return r
}

// H_estimates decides the estimates for filters of any content.
//
//verif:C32 maxpaths=2000000 concfloat
func H_estimates() {
	m := []int{1, 2, 7, 8, 9, 11, 13}[nd.Choose(nd.Tier(5, 7))]
	k := []uint8{1, 3, 8, 255}[nd.Choose(nd.Tier(3, 4))]
	b, buf := arb(m, k)
	grown(b, buf, m, k)
}

// H_wide decides the same for wider filters where all but eight bits are
// known, which bits those are being arbitrary.
//
//verif:C32 maxpaths=2000000 concfloat
func H_wide() {
	m := []int{16, 23, 64, 129, 1000}[nd.Choose(nd.Tier(3, 5))]
	k := []uint8{1, 5, 255}[nd.Choose(nd.Tier(2, 3))]
	buf := make([]byte, hdr+(m+7)/8)
	buf[0], buf[1] = bloom.Version, k
	buf[2], buf[3] = bitbucket.Version, 1
	binary.LittleEndian.PutUint64(buf[4:], uint64(m))
	full := nd.Choose(3)
	for i := hdr; i < len(buf); i++ {
		buf[i] = []byte{0, 0x55, 0xff}[full]
	}
	buf[hdr+nd.Choose(2)*(m/8-1)] = nd.U8("bits")
	b, err := bloom.WithBytes(buf)
	nd.Assert(err == nil, "a well formed filter is accepted")
	grown(b, buf, m, k)
}

func grown(b bloom.Bloom, buf []byte, m int, k uint8) {
	count := func() int {
		bits, err := bitbucket.WithBytes(buf[2:])
		nd.Assert(err == nil && bits.Count() == m, "the bits are there")
		x := 0
		for i := 0; i < m; i++ {
			x += int(bits.Get(i))
		}
		return nd.Concrete(x)
	}
	x := count()
	r := near(b, m, x, k)
	b.Add([]byte{7})
	x2 := count()
	r2 := near(b, m, x2, k)
	nd.Assert(r2 >= r, "adding items never lowers the error rate")
	nd.Assert(x2 == x || r2 > r || r2 > 0.9999, "every bit set raises the error rate")
}

// H_fill decides the same while a filter fills up.
//
//verif:C32 maxsteps=40000000
func H_fill() {
	m := []int{100, 2001}[nd.Choose(2)]
	k := []uint8{1, 4, 200}[nd.Choose(3)]
	b := bloom.NewBits(m, k)
	r, px := 0.0, 0
	n := nd.Tier(40, 150)
	for i := 0; i < n; i++ {
		if i%10 == 0 {
			c := b
			x := 0
			var out sink
			_, err := c.WriteTo(&out)
			nd.Assert(err == nil, "a filter can be written")
			bits, err := bitbucket.WithBytes(out.b[2:])
			nd.Assert(err == nil, "the bits are there")
			for j := 0; j < m; j++ {
				x += int(bits.Get(j))
			}
			r2 := near(b, m, x, k)
			nd.Assert(r2 > r || i == 0 || r2 > 0.9999 || x == px, "every bit set raises the error rate")
			r, px = r2, x
		}
		b.Add([]byte{byte(i), byte(i >> 8), 'x'})
	}
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// H_roomy decides that a filter made for n items at a rate has the room for
// them: once they are in, the rate it can be expected to have exceeds the one
// asked for by no more than rounding the number of hashes up can cause.
//
//verif:C32 concfloat maxpaths=200000
func H_roomy() {
	p := []float64{0.5, 0.1, 0.01, 0.9, 0.05, 0.001, 1e-6, 1e-20}[nd.Choose(nd.Tier(4, 8))]
	n := nd.Concrete(int(nd.U8("n"))) + 1
	if nd.Choose(4) == 0 {
		n *= 83
	}
	b := bloom.New(n, p)
	var out sink
	_, err := b.WriteTo(&out)
	nd.Assert(err == nil && len(out.b) == bloom.Len(n, p) && b.Len() == len(out.b), "the length of a filter is the one announced for its size")
	k := float64(out.b[1])
	bits, err := bitbucket.WithBytes(out.b[2:])
	nd.Assert(err == nil, "the bits are there")
	m := float64(bits.Count())
	r := math.Pow(1-math.Exp(-k*float64(n)/m), k)
	nd.Observe("bits", uint64(m))
	nd.Assert(r <= p*1.126, "a filter has room for the items it was made for")
	nd.Assert(m <= -float64(n)*math.Log(p)/(math.Ln2*math.Ln2)*(1+1e-12)+1, "a filter has no more bits than it needs")
}
