// Package quality holds the harnesses over internal/stats.
package quality

import (
	"math"

	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/zzverif/nd"
)

// H_meanvar decides sum, mean and sample variance of any list over the reals.
//
//verif:C27 reals
func H_meanvar() {
	n := nd.Choose(nd.Tier(7, 13))
	vs := make([]float64, n)
	for i := range vs {
		vs[i] = nd.F64("v")
	}
	keep := append([]float64(nil), vs...)
	sum := 0.0
	for _, v := range vs {
		sum += v
	}
	m, va := stats.Meanvar(vs)
	s := stats.Sum(vs)
	nd.ObserveF("sum", s)
	nd.Assert(nd.Close(s, sum), "the sum is the total")
	if n == 0 {
		nd.Assert(math.IsNaN(m), "the mean of nothing is undefined")
	} else {
		nd.Assert(nd.Close(m*float64(n), sum), "the mean is sum/n")
	}
	if n < 2 {
		nd.Assert(math.IsNaN(va), "the variance of fewer than two values is undefined")
	} else {
		mean := sum / float64(n)
		ss := 0.0
		for _, v := range vs {
			ss += (v - mean) * (v - mean)
		}
		nd.Assert(nd.Close(va*float64(n-1), ss), "the variance is the sample variance")
	}
	for i := range keep {
		nd.Assert(vs[i] == keep[i], "the list is not changed")
	}
}

// H_see decides the standard error of the estimate over the reals.
//
//verif:C27 reals
func H_see() {
	n := 3 + nd.Choose(nd.Tier(4, 9))
	vs := make([]float64, n)
	e := nd.F64("e")
	ss := 0.0
	for i := range vs {
		vs[i] = nd.F64("v")
		ss += (vs[i] - e) * (vs[i] - e)
	}
	g := stats.See(vs, e)
	nd.ObserveF("see", g)
	nd.Assert(g >= 0, "the error is not negative")
	nd.Assert(nd.Close(g*g*float64(n-2), ss), "the error is the root of the mean squared difference with n-2 degrees of freedom")
}

// H_long decides the same for long lists of three different values.
//
//verif:C27 reals
func H_long() {
	n := []int{33, 64, 129, 500}[nd.Choose(nd.Tier(3, 4))]
	d := []float64{nd.F64("a"), nd.F64("b"), nd.F64("c")}
	e := nd.F64("e")
	k := []float64{0, 0, 0}
	vs := make([]float64, n)
	for i := range vs {
		j := i * i % 5 % 3
		if i == n-1 {
			j = 2
		}
		vs[i] = d[j]
		k[j]++
	}
	sum, q, se := 0.0, 0.0, 0.0
	for j, v := range d {
		sum += v * k[j]
		q += v * v * k[j]
		se += (v - e) * (v - e) * k[j]
	}
	m, va := stats.Meanvar(vs)
	s := stats.Sum(vs)
	g := stats.See(vs, e)
	nd.ObserveF("sum", s)
	nd.Assert(nd.Close(s, sum), "the sum is the total")
	nd.Assert(nd.Close(m*float64(n), sum), "the mean is sum/n")
	nd.Assert(nd.Close(va*float64(n-1), q-sum*sum/float64(n)), "the variance is the sample variance")
	nd.Assert(g >= 0 && nd.Close(g*g*float64(n-2), se), "the error is the root of the mean squared difference with n-2 degrees of freedom")
}
