// Package sum64 holds the harnesses over internal/summary/stat64.
package sum64

import (
	"math"

	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// H_batch decides, bit for bit and from any state, that a batch update equals
// the single updates, and that neither touches bytes past the summary.
//
//verif:C26
func H_batch() {
	n := nd.Choose(nd.Tier(8, 40))
	buf := nd.Bytes("state", 40)
	buf2 := append([]byte(nil), buf...)
	tail := append([]byte(nil), buf[32:]...)
	vs := make([]float64, n)
	x := 0.1
	plain := nd.Choose(2) == 0
	for i := range vs {
		if plain { // numbers whose sum depends on the order
			x = 3.9 * x * (1 - x)
			vs[i] = x
		} else {
			vs[i] = nd.F64("v")
		}
	}
	if plain {
		copy(buf, make([]byte, 32))
		copy(buf2, buf)
	}
	one, all := stat64.WithBytes(buf), stat64.WithBytes(buf2)
	for _, v := range vs {
		one.Update(v)
	}
	all.UpdateMulti(vs)
	nd.Observe("count", all.Count())
	for i := range buf[:32] {
		nd.Assert(buf[i] == buf2[i], "a batch equals its updates one by one")
	}
	for i := range tail {
		nd.Assert(buf[32+i] == tail[i] && buf2[32+i] == tail[i], "bytes past the summary are untouched")
	}
	nd.Assert(one.Count() == all.Count(), "counts agree")
	nd.Assert(nd.SameF(one.Sum(), all.Sum()) && nd.SameF(one.Mean(), all.Mean()), "sums and means agree")
}

// H_batchlong decides the same for long batches.
//
//verif:C26
func H_batchlong() {
	n := []int{63, 64, 65, 129, 300, 1100}[nd.Choose(nd.Tier(5, 6))]
	buf := nd.Bytes("state", 36)
	buf2 := append([]byte(nil), buf...)
	vs := make([]float64, n)
	x := 0.1
	plain := nd.Choose(2) == 0
	for i := range vs {
		if plain { // numbers whose sum depends on the order
			x = 3.9 * x * (1 - x)
			vs[i] = x
		} else {
			vs[i] = nd.F64("v")
		}
	}
	if plain {
		copy(buf, make([]byte, 32))
		copy(buf2, buf)
	}
	one, all := stat64.WithBytes(buf), stat64.WithBytes(buf2)
	for _, v := range vs {
		one.Update(v)
	}
	all.UpdateMulti(vs)
	nd.Observe("count", all.Count())
	for i := range buf {
		nd.Assert(buf[i] == buf2[i], "a batch equals its updates one by one")
	}
}

// H_count decides that an update from any state counts one and adds the value
// to the sum.
//
//verif:C26 C03
func H_count() {
	buf := nd.Bytes("state", 32)
	s := stat64.WithBytes(buf)
	c, sum := s.Count(), s.Sum()
	v := nd.F64("v")
	if nd.Choose(2) == 0 {
		s.Update(v)
	} else {
		s.UpdateMulti([]float64{v})
	}
	nd.Observe("count", s.Count())
	nd.Assert(s.Count() == c+1, "an update counts one observation")
	nd.Assert(nd.SameF(s.Sum(), sum+v), "an update adds the value to the sum")
}

// H_reset decides that a summary reset from any state equals a new one.
//
//verif:C26
func H_reset() {
	buf := nd.Bytes("state", 36)
	tail := append([]byte(nil), buf[32:]...)
	s := stat64.WithBytes(buf)
	if nd.Choose(2) == 0 {
		nd.Assert(s.Reset() == nil, "reset succeeds")
	} else {
		nd.Assert(stat64.Reset(buf) == nil, "reset succeeds")
	}
	f := stat64.New()
	nd.Assert(len(f) == 32 && stat64.Len() == 32 && s.Len() == 32, "a summary takes 32 bytes")
	for i := range f {
		nd.Assert(f[i] == 0 && buf[i] == f[i], "a reset summary is a new one")
	}
	for i := range tail {
		nd.Assert(buf[32+i] == tail[i], "bytes past the summary are untouched")
	}
	nd.Assert(s.Count() == 0 && s.Sum() == 0 && s.Mean() == 0 && math.IsNaN(s.Variance()), "an empty summary has no variance")
	// the shared zero value must survive use of a reset summary
	v := nd.F64("v")
	s.Update(v)
	g := stat64.New()
	g.UpdateMulti([]float64{1})
	g.Reset()
	for i := range g {
		nd.Assert(g[i] == 0, "reset stays zero after other summaries were used")
	}
}

// H_def decides over the reals that the statistics of n values match their
// definitions.
//
//verif:C26 C03 reals
func H_def() {
	n := 1 + nd.Choose(nd.Tier(10, 20))
	s := stat64.New()
	sum := 0.0
	vs := make([]float64, n)
	for i := range vs {
		vs[i] = nd.F64("v")
		sum += vs[i]
	}
	if nd.Choose(2) == 0 {
		s.UpdateMulti(vs)
	} else {
		for _, v := range vs {
			s.Update(v)
		}
	}
	mean := sum / float64(n)
	ss := 0.0
	for _, v := range vs {
		ss += (v - mean) * (v - mean)
	}
	nd.ObserveF("sum", s.Sum())
	nd.Assert(s.Count() == uint64(n), "the count is the number of values")
	nd.Assert(nd.Close(s.Sum(), sum), "the sum is their total")
	nd.Assert(nd.Close(s.Mean(), mean), "the mean is sum/count")
	if n < 2 {
		nd.Assert(math.IsNaN(s.Variance()), "the variance of fewer than two values is undefined")
	} else {
		nd.Assert(nd.Close(s.Variance(), ss/float64(n-1)), "the variance is the sample variance")
	}
}

// H_long decides the same over the reals for longer series of three different
// values.
//
//verif:C26 C03 reals
func H_long() {
	n := []int{10, 25, 60, 1000}[nd.Choose(nd.Tier(3, 4))]
	s := stat64.New()
	d := []float64{nd.F64("a"), nd.F64("b"), nd.F64("c")}
	k := []int{0, 0, 0}
	for i := 0; i < n; i++ {
		j := i * i % 5 % 3
		s.Update(d[j])
		k[j]++
	}
	sum, q := 0.0, 0.0
	for j, v := range d {
		sum += v * float64(k[j])
		q += v * v * float64(k[j])
	}
	nd.ObserveF("sum", s.Sum())
	nd.Assert(s.Count() == uint64(n), "the count is the number of values")
	nd.Assert(nd.Close(s.Sum(), sum), "the sum is their total")
	nd.Assert(nd.Close(s.Mean(), sum/float64(n)), "the mean is sum/count")
	nd.Assert(nd.Close(s.Variance(), (q-sum*sum/float64(n))/float64(n-1)), "the variance is the sample variance")
}
