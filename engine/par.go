package main

import (
	"fmt"
	"os"
	"sort"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Concurrency. nd.Par runs functions as threads under a cooperative scheduler:
// a thread can be preempted only at the gates that the instrumenter put into
// the source before every access to shared memory (instr.go), and at the
// gates inside the replacements of sync and sync/atomic. The same instrumented
// source is compiled for replays, which follow the recorded schedule exactly.
//
// Every sequentially consistent interleaving of gate-to-gate steps is explored
// up to equivalence: sleep sets drop schedules that only commute independent
// steps; a gate none of whose accesses ever conflicts with another thread is
// not a scheduling point; and a thread that comes back to the same local state
// having changed nothing waits until something it has read is written.

type gateSets struct {
	hot  map[int]bool // sites that are scheduling points
	wild map[int]bool // hot sites whose declared accesses are not all they do
}

func (g *gateSets) clone() *gateSets {
	n := &gateSets{map[int]bool{}, map[int]bool{}}
	if g != nil {
		for k := range g.hot {
			n.hot[k] = true
		}
		for k := range g.wild {
			n.wild[k] = true
		}
	}
	return n
}

const shimSites = 100 // sites below are in the shims and always hot
const atomicSite = 99 // the start of an nd.Atomic section

type cellKey = unsafe.Pointer

type pending struct {
	site  int
	cells map[cellKey]bool // declared cells; true if written
	wild  bool
	hot   bool
	short bool // visited too often to be a scheduling point
	block int  // 0 none, 1 exclusive, 2 shared, 3 until zero
	cell  *Value
}

type snapshot struct {
	frames []*frame
	envs   [][]Value
	blocks []ssa.Instruction
	muts   int
	allocs int
	reads  int
	writes int
}

type thread struct {
	id      int
	fn      *Closure
	resume  chan struct{}
	started bool
	done    bool
	kill    bool
	pv      interface{}
	frame   *frame
	depth   int
	pend    pending
	cur     pending // the gate passed last
	gates   int
	snaps   map[int][]snapshot
	seen    map[int]map[cellKey]bool
	muts    []int // allocation numbers of the cells it changed
	reads   []cellKey
	stalled map[cellKey]bool
	locks   []heldLock
	atomic  int // inside nd.Atomic: no scheduling points
}

type cellRec struct {
	thread, site int
	loose, write bool
	locks        []heldLock
}

// heldLock is a mutex that a thread holds. Accesses that always happen under
// a common mutex need no scheduling points: those of the mutex suffice.
type heldLock struct {
	c      cellKey
	shared bool
}

func sameLocks(a, b []heldLock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func excluded(a, b []heldLock) bool {
	for _, x := range a {
		for _, y := range b {
			if x.c == y.c && !(x.shared && y.shared) {
				return true
			}
		}
	}
	return false
}

// lockStore notes a change of the state of a mutex: -1 when held, else the
// number of readers.
func (p *Par) lockStore(q *Value, v Value) {
	t := p.cur
	o, ok1 := (*q).(*Term)
	n, ok2 := v.(*Term)
	if !ok1 || !ok2 || !o.isConst() || !n.isConst() {
		return
	}
	a, b := int32(o.x), int32(n.x)
	c := cellKey(q)
	ls := append([]heldLock(nil), t.locks...)
	if b == -1 || b > a && a >= 0 {
		ls = append(ls, heldLock{c, b != -1})
	} else {
		for i := range ls {
			if ls[i].c == c {
				ls = append(ls[:i], ls[i+1:]...)
				break
			}
		}
	}
	t.locks = ls
}

type threadKill struct{}

// Par is the state of one nd.Par region.
type Par struct {
	w         *W
	sets      *gateSets
	ths       []*thread
	cur       *thread
	back      chan struct{}
	sleep     map[int]bool
	log       [][2]int
	accs      map[cellKey][]cellRec
	cap       int
	siteCap   int
	bound     int // preemptions allowed; 0: any number
	preempted int
	last      *thread
	writing   map[*MapV]*thread // maps being written
	born      map[cellKey]int   // allocation numbers of cells made inside the region
	nborn     int
	wlog      []cellWrite
}

type cellWrite struct {
	thread int
	c      cellKey
}

// allocated numbers new cells, so that a thread writing to memory it has only
// just made does not count as changing its state.
func (p *Par) allocated(a []Value) {
	p.nborn++
	if len(a) <= 64 {
		for i := range a {
			p.born[cellKey(&a[i])] = p.nborn
		}
	}
}

func (p *Par) touch(t *Term) {}

func (p *Par) onStore(w *W, q *Value, v Value) {
	if t := p.cur; t != nil && t.cur.site > 0 && t.cur.site < 10 {
		p.lockStore(q, v)
	}
	changed := !same(*q, v)
	w.setCell(q, w.copyVal(v))
	p.access(cellKey(q), true, changed)
}

func (p *Par) onLoad(w *W, q *Value) Value {
	p.access(cellKey(q), false, false)
	return *q
}

func (p *Par) loadAgg(w *W, q *Value) Value {
	var f func(q *Value)
	f = func(q *Value) {
		switch v := (*q).(type) {
		case Struct:
			for i := range v {
				f(&v[i])
			}
		case Array:
			for i := range v {
				f(&v[i])
			}
		default:
			p.access(cellKey(q), false, false)
		}
	}
	f(q)
	return w.copyVal(*q)
}

// access records what the running thread did to a cell and looks for
// conflicts that the choice of scheduling points does not yet account for.
func (p *Par) access(c cellKey, write, changed bool) {
	t := p.cur
	if t == nil {
		return
	}
	if fr := p.w.curFrame; fr != nil && fr.fn.Pkg != nil {
		// the insides of the standard library's own synchronisation
		switch fr.fn.Pkg.Pkg.Path() {
		case "sync", "internal/sync", "sync/atomic", "internal/runtime/atomic":
			return
		}
	}
	if write {
		p.wlog = append(p.wlog, cellWrite{t.id, c})
		if changed {
			t.muts = append(t.muts, p.born[c])
		}
		for _, o := range p.ths {
			if o != t && o.stalled != nil && o.stalled[c] {
				o.stalled = nil
			}
		}
	} else {
		t.reads = append(t.reads, c)
	}
	if t.cur.short {
		return
	}
	wr, decl := t.cur.cells[c]
	loose := !(t.cur.hot && (t.cur.wild || decl && (wr || !write)))
	rs := p.accs[c]
	for i := range rs {
		r := &rs[i]
		if r.thread == t.id && r.site == t.cur.site && r.loose == loose && r.write == write && sameLocks(r.locks, t.locks) {
			return
		}
	}
	me := cellRec{t.id, t.cur.site, loose, write, t.locks}
	for _, r := range rs {
		if r.thread != t.id && (r.write || write) && (r.loose || loose) && !excluded(r.locks, t.locks) {
			p.escalate(r, me)
		}
	}
	p.accs[c] = append(rs, me)
}

// escalate makes the gates of two conflicting accesses scheduling points and
// starts the harness again.
func (p *Par) escalate(rs ...cellRec) {
	if os.Getenv("ENGDEBUG") == "par" {
		st := ""
		for f := p.w.curFrame; f != nil; f = f.caller {
			st += " < " + f.fn.String()
		}
		fmt.Fprintln(os.Stderr, "escalate", rs, st)
	}
	j := p.w.job
	j.mu.Lock()
	n := j.gates.clone()
	for _, r := range rs {
		if !r.loose {
			continue
		}
		if n.hot[r.site] || r.site > 0 && r.site < shimSites {
			n.wild[r.site] = true
		}
		n.hot[r.site] = true
	}
	j.gates = n
	j.restart = true
	j.mu.Unlock()
	j.halted.Store(true)
	panic(pathEnd{"restart"})
}

func (p *Par) depends(a, b *pending) bool {
	if a.wild || b.wild {
		return true
	}
	if len(b.cells) < len(a.cells) {
		a, b = b, a
	}
	for c, w := range a.cells {
		if w2, ok := b.cells[c]; ok && (w || w2) {
			return true
		}
	}
	return false
}

func (p *Par) enabled(t *thread) bool {
	if t.done || t.stalled != nil {
		return false
	}
	if t.pend.block == 0 {
		return true
	}
	x, ok := (*t.pend.cell).(*Term)
	if !ok || !x.isConst() {
		panic(unsupported{"symbolic lock state"})
	}
	v := int32(x.x)
	switch t.pend.block {
	case 1:
		return v == 0
	case 2:
		return v >= 0
	}
	return v == 0
}

func cellsOf(m map[cellKey]bool, v Value, write bool) {
	var leaf func(q *Value)
	leaf = func(q *Value) {
		switch x := (*q).(type) {
		case Struct:
			for i := range x {
				leaf(&x[i])
			}
		case Array:
			for i := range x {
				leaf(&x[i])
			}
		default:
			m[cellKey(q)] = m[cellKey(q)] || write
		}
	}
	switch x := v.(type) {
	case Iface:
		cellsOf(m, x.v, write)
	case *MapV:
		if x != nil {
			m[cellKey(x)] = m[cellKey(x)] || write
		}
	case *Value:
		if x != nil {
			leaf(x)
		}
	case MuxPtr:
		for _, q := range x.ptrs {
			leaf(q)
		}
	case Slice:
		for i := range x.a {
			leaf(&x.a[i])
		}
	}
}

// gate is passed by the running thread.
func (p *Par) gate(fr *frame, site int, mask uint64, ptrs []Value, block int, cell *Value) {
	t := p.cur
	w := p.w
	n := pending{site: site, cells: map[cellKey]bool{}, block: block, cell: cell}
	for i, x := range ptrs {
		cellsOf(n.cells, x, mask>>uint(i)&1 == 1)
	}
	if cell != nil {
		n.cells[cellKey(cell)] = true
	}
	n.hot = site > 0 && site < shimSites || p.sets.hot[site]
	n.wild = p.sets.wild[site]
	inside := t.atomic > 0
	if inside && block != 0 {
		save := t.pend
		t.pend = n
		inside = p.enabled(t)
		t.pend = save
		n.wild = true // the rest of the section, if it waits here
	}
	if site == atomicSite {
		n.wild = true
	} else if inside {
		// the gate where the section began stands for all of its accesses
		n.hot = false
	}
	if p.siteCap > 0 && n.hot && site >= shimSites {
		// a loop over data: preempt only at its first few elements
		for c := range n.cells {
			m := t.seen[site]
			if m == nil {
				m = map[cellKey]bool{}
				t.seen[site] = m
			}
			if !m[c] {
				if len(m) >= p.siteCap {
					n.hot, n.short = false, true
				} else {
					m[c] = true
				}
			}
			break
		}
	}
	if n.hot || p.siteCap == 0 {
		t.gates++
		if t.gates > p.cap {
			p.tooMany()
		}
	}
	if n.hot {
		t.pend = n
		if block == 0 {
			p.checkStall(t, fr, site)
		}
		t.frame, t.depth = w.curFrame, w.depth
		p.back <- struct{}{}
		<-t.resume
		if t.kill {
			panic(threadKill{})
		}
		w.curFrame, w.depth = t.frame, t.depth
	}
	p.log[len(p.log)-1][1]++
	if t.atomic > 0 {
		n.hot, n.wild = true, true
	}
	t.cur = n
	for i, x := range ptrs {
		// what the runtime checks of maps
		if it, ok := x.(Iface); ok {
			if m, ok := it.v.(*MapV); ok && m != nil {
				if o := p.writing[m]; o != nil && o != t {
					w.goPanicStr("fatal error: concurrent map access")
				}
				if mask>>uint(i)&1 == 1 {
					p.writing[m] = t
				}
			}
		}
	}
}

// spawn adds a thread for a go statement of the running one.
func (p *Par) spawn(f *Closure) {
	if len(p.ths) >= 12 {
		panic(unsupported{"more than 12 threads"})
	}
	p.add(f)
}

func (p *Par) add(f *Closure) *thread {
	t := &thread{id: len(p.ths), fn: f, resume: make(chan struct{}), snaps: map[int][]snapshot{}, seen: map[int]map[cellKey]bool{}}
	t.pend = pending{site: -1, hot: p.sets.hot[-1], wild: p.sets.wild[-1]}
	p.ths = append(p.ths, t)
	return t
}

// tooMany ends a path that passes too many gates. The first time it starts the
// harness again with fewer scheduling points in loops over data.
func (p *Par) tooMany() {
	j := p.w.job
	j.mu.Lock()
	if j.siteCap == 0 {
		j.siteCap = 3
		j.restart = true
		j.mu.Unlock()
		j.halted.Store(true)
		panic(pathEnd{"restart"})
	}
	j.res.Incomplete[fmt.Sprintf("gate bound of %d per thread", p.cap)]++
	j.mu.Unlock()
	panic(pathEnd{"gate bound"})
}

// checkStall compares the local state of the thread with earlier visits of
// the same gate.
func (p *Par) checkStall(t *thread, fr *frame, site int) {
	w := p.w
	var sn snapshot
	sn.writes = len(p.wlog)
	sn.muts, sn.reads, sn.allocs = len(t.muts), len(t.reads), p.nborn
	for f := fr; f != nil; f = f.caller {
		sn.frames = append(sn.frames, f)
		sn.blocks = append(sn.blocks, f.at)
		sn.envs = append(sn.envs, append([]Value(nil), f.env...))
	}
	for _, o := range t.snaps[site] {
		eq := len(o.envs) == len(sn.envs)
		for _, b := range t.muts[o.muts:] {
			eq = eq && b > o.allocs
		}
		if !eq {
			continue
		}
		for i := range o.envs {
			// the frames of shims and other callees are new on every call
			if o.blocks[i] != sn.blocks[i] || o.frames[i].fn != sn.frames[i].fn || !w.sameLive(sn.frames[i].fi, sn.blocks[i], o.envs[i], sn.envs[i]) {
				eq = false
				break
			}
		}
		if eq {
			// nothing it read on the way has been written since?
			rd := map[cellKey]bool{}
			for _, c := range t.reads[o.reads:] {
				rd[c] = true
			}
			for _, x := range p.wlog[o.writes:] {
				eq = eq && (x.thread == t.id || !rd[x.c])
			}
			if eq {
				t.stalled = rd
				return
			}
		}
	}
	t.snaps[site] = append(t.snaps[site], sn)
}

// sameLive compares the registers live at an instruction.
func (w *W) sameLive(fi *fnInfo, at ssa.Instruction, a, b []Value) bool {
	if at == nil {
		return false
	}
	live := fi.liveAt(at)
	for i := range a {
		if live[i/64]>>(i%64)&1 == 1 && !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// liveAt is the set of registers used after an instruction that is being
// executed, its own result excepted.
func (fi *fnInfo) liveAt(at ssa.Instruction) []uint64 {
	if r, ok := fi.liveMemo[at]; ok {
		return r
	}
	b := at.Block()
	words := (fi.n + 63) / 64
	s := make([]uint64, words)
	set := func(v ssa.Value) {
		if i, ok := fi.idx[v]; ok {
			s[i/64] |= 1 << (i % 64)
		}
	}
	for _, nb := range b.Succs {
		for k := range s {
			s[k] |= fi.live[nb.Index][k]
		}
	}
	for _, nb := range b.Succs {
		for pi, pb := range nb.Preds {
			if pb != b {
				continue
			}
			for k := 0; k < fi.nphi[nb.Index]; k++ {
				set(nb.Instrs[k].(*ssa.Phi).Edges[pi])
			}
		}
	}
	var rands [12]*ssa.Value
	for k := len(b.Instrs) - 1; k >= 0; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			if j, ok := fi.idx[v]; ok {
				s[j/64] &^= 1 << (j % 64)
			}
		}
		if in == at { // its operands have been read
			break
		}
		for _, op := range in.Operands(rands[:0]) {
			if *op != nil {
				set(*op)
			}
		}
	}
	if fi.liveMemo == nil {
		fi.liveMemo = map[ssa.Instruction][]uint64{}
	}
	fi.liveMemo[at] = s
	return s
}

func (w *W) runPar(fr *frame, fs []Value) {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"par"})
	}
	if w.par != nil {
		panic(unsupported{"nested nd.Par"})
	}
	j := w.job
	j.mu.Lock()
	sets := j.gates.clone()
	siteCap, bound := j.siteCap, j.bound
	j.usedPar = true
	j.mu.Unlock()
	p := &Par{w: w, sets: sets, back: make(chan struct{}), sleep: map[int]bool{}, accs: map[cellKey][]cellRec{}, born: map[cellKey]int{}, writing: map[*MapV]*thread{}, cap: j.maxGates, siteCap: siteCap, bound: bound}
	if p.cap == 0 {
		p.cap = 400
	}
	for _, f := range fs {
		p.add(f.(*Closure))
	}
	w.inputs = append(w.inputs, inputRec{kind: "sched", label: "schedule", sched: func(map[*Term]uint64) interface{} { return p.log }})
	w.par = p
	depth := w.depth
	defer func() {
		// unwind whatever is left of the threads
		for _, t := range p.ths {
			if t.started && !t.done {
				t.kill = true
				t.resume <- struct{}{}
				<-p.back
			}
		}
		w.par = nil
		w.depth = depth
	}()
	for {
		var cands []*thread
		left := 0
		for i, t := range p.ths {
			// threads started by others may be left unfinished
			if !t.done && i < len(fs) {
				left++
			}
			if p.enabled(t) {
				cands = append(cands, t)
			}
		}
		if left == 0 {
			break
		}
		if len(cands) == 0 {
			what := ""
			for _, t := range p.ths {
				if !t.done {
					what += fmt.Sprintf(" thread %d", t.id)
					if t.stalled != nil {
						what += " spins"
					} else {
						what += " waits for a lock"
					}
					w.curFrame = t.frame
				}
			}
			panic(blocked{"no thread can make progress:" + what})
		}
		var t *thread
		// a step that conflicts with nothing needs no choice
		for _, c := range cands {
			if !c.pend.hot {
				t = c
				break
			}
		}
		if t == nil {
			var free []*thread
			if p.bound > 0 {
				// a first look with few preemptions
				for _, c := range cands {
					if c == p.last {
						free = append([]*thread{c}, free...)
					} else {
						free = append(free, c)
					}
				}
				if free[0] == p.last && p.preempted >= p.bound {
					free = free[:1]
				}
				k := 0
				if len(free) > 1 {
					k = w.choose(len(free))
				}
				if k > 0 && free[0] == p.last {
					p.preempted++
				}
				p.last = free[k]
				p.step(free[k])
				if pv := free[k].pv; pv != nil {
					panic(pv)
				}
				continue
			}
			for _, c := range cands {
				if !p.sleep[c.id] {
					free = append(free, c)
				}
			}
			if len(free) == 0 {
				j.parStat("schedules equivalent to another")
				panic(pathEnd{"redundant"})
			}
			k := 0
			if len(free) > 1 {
				k = w.choose(len(free))
			}
			for _, c := range free[:k] {
				p.sleep[c.id] = true
			}
			t = free[k]
			for id := range p.sleep {
				if p.depends(&p.ths[id].pend, &t.pend) {
					delete(p.sleep, id)
				}
			}
		}
		p.step(t)
		if t.pv != nil {
			pv := t.pv
			panic(pv)
		}
	}
	if len(p.ths) < 2 {
	} else if p.bound > 0 {
		j.parStat(fmt.Sprintf("first look: schedules with at most %d preemptions", p.bound))
	} else {
		j.parStat("complete schedules")
	}
	w.curFrame = fr
}

// step runs a thread to its next scheduling point.
func (p *Par) step(t *thread) {
	w := p.w
	cf, depth := w.curFrame, w.depth
	p.cur = t
	p.log = append(p.log, [2]int{t.id, 0})
	if !t.started {
		t.started = true
		t.cur = t.pend
		w.curFrame, w.depth = nil, 0
		go func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(threadKill); !ok {
						t.pv = x
					}
				}
				t.done = true
				p.back <- struct{}{}
			}()
			w.callClosure(nil, t.fn, nil, nil)
		}()
	} else {
		t.resume <- struct{}{}
	}
	<-p.back
	p.cur = nil
	if t.pv == nil {
		w.curFrame, w.depth = cf, depth
	}
}

func (j *Job) parStat(k string) {
	j.mu.Lock()
	if j.res.Par == nil {
		j.res.Par = map[string]int{}
	}
	j.res.Par[k]++
	j.mu.Unlock()
}

func (j *Job) hotSites() []int {
	var r []int
	if j.gates != nil {
		for k := range j.gates.hot {
			r = append(r, k)
		}
	}
	sort.Ints(r)
	return r
}
