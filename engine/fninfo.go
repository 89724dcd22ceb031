package main

import (
	"golang.org/x/tools/go/ssa"
)

// fnInfo holds per-function analyses: register numbers, immediate
// post-dominators (ignoring paths that can only panic) and liveness.
type fnInfo struct {
	fn    *ssa.Function
	idx   map[ssa.Value]int
	n     int
	nphi  []int
	ipdom []*ssa.BasicBlock // nil: joins only at the exit
	live  [][]uint64        // live registers just after the phis of a block
	fails map[ssa.Instruction]int
	name  string

	liveMemo map[ssa.Instruction][]uint64
}

func newFnInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, idx: map[ssa.Value]int{}, fails: map[ssa.Instruction]int{}, name: fn.String()}
	add := func(v ssa.Value) { fi.idx[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	fi.nphi = make([]int, len(fn.Blocks))
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				fi.nphi[b.Index]++
			}
		}
	}
	fi.postdom()
	fi.liveness()
	return fi
}

func (fi *fnInfo) postdom() {
	bs := fi.fn.Blocks
	n := len(bs)
	exit := n
	// blocks that can reach a return
	good := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for i, b := range bs {
			if good[i] {
				continue
			}
			ok := false
			if len(b.Instrs) > 0 {
				if _, r := b.Instrs[len(b.Instrs)-1].(*ssa.Return); r {
					ok = true
				}
			}
			for _, s := range b.Succs {
				ok = ok || good[s.Index]
			}
			if ok {
				good[i] = true
				ch = true
			}
		}
	}
	// iterative set-based post-dominators
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	succs := func(i int) []int {
		var r []int
		b := bs[i]
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				return []int{exit}
			}
		}
		for _, s := range b.Succs {
			if good[s.Index] {
				r = append(r, s.Index)
			}
		}
		return r
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !good[i] {
				continue
			}
			nw := append([]uint64(nil), full...)
			for _, s := range succs(i) {
				for k := range nw {
					nw[k] &= pd[s][k]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for k := range nw {
				if nw[k] != pd[i][k] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	count := func(i int) int {
		c := 0
		for k := 0; k <= n; k++ {
			if pd[i][k/64]>>(k%64)&1 == 1 {
				c++
			}
		}
		return c
	}
	fi.ipdom = make([]*ssa.BasicBlock, n)
	for i := range bs {
		if !good[i] {
			continue
		}
		best, bc := -1, -1
		for k := 0; k < n; k++ {
			if k != i && pd[i][k/64]>>(k%64)&1 == 1 {
				if c := count(k); c > bc {
					best, bc = k, c
				}
			}
		}
		if best >= 0 {
			fi.ipdom[i] = bs[best]
		}
	}
}

func (fi *fnInfo) liveness() {
	bs := fi.fn.Blocks
	words := (fi.n + 63) / 64
	fi.live = make([][]uint64, len(bs))
	use := make([][]uint64, len(bs))
	def := make([][]uint64, len(bs))
	set := func(s []uint64, v ssa.Value) {
		if i, ok := fi.idx[v]; ok {
			s[i/64] |= 1 << (i % 64)
		}
	}
	var rands [12]*ssa.Value
	for i, b := range bs {
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		fi.live[i] = make([]uint64, words)
		for k := len(b.Instrs) - 1; k >= fi.nphi[i]; k-- {
			in := b.Instrs[k]
			if v, ok := in.(ssa.Value); ok {
				j := fi.idx[v]
				def[i][j/64] |= 1 << (j % 64)
				use[i][j/64] &^= 1 << (j % 64)
			}
			for _, op := range in.Operands(rands[:0]) {
				if *op != nil {
					set(use[i], *op)
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for i := len(bs) - 1; i >= 0; i-- {
			b := bs[i]
			out := make([]uint64, words)
			for _, s := range b.Succs {
				in := append([]uint64(nil), fi.live[s.Index]...)
				for k := 0; k < fi.nphi[s.Index]; k++ {
					j := fi.idx[s.Instrs[k].(*ssa.Phi)]
					in[j/64] &^= 1 << (j % 64)
				}
				for k := range out {
					out[k] |= in[k]
				}
			}
			for _, s := range b.Succs {
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for k := 0; k < fi.nphi[s.Index]; k++ {
						set(out, s.Instrs[k].(*ssa.Phi).Edges[pi])
					}
				}
			}
			for k := range out {
				nv := use[i][k] | (out[k] &^ def[i][k])
				if nv != fi.live[i][k] {
					fi.live[i][k] = nv
					ch = true
				}
			}
		}
	}
}
