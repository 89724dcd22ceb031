package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds what all workers share.
type Engine struct {
	stop        *atomic.Bool
	gated       map[string]string // instrumented files
	gateDir     string
	natRuns     int
	prog        *ssa.Program
	repo        string
	verif       string
	module      string
	rtErrType   types.Type
	errStrType  types.Type
	wrapErrType types.Type
	errIface    *types.Interface
	thorough    bool
	deadline    time.Time
	prop        string
	nat         *Native

	mu       sync.Mutex
	notes    map[string]int
	methMemo map[string]*ssa.Function
	ptypes   map[string]*types.Package
	spkgs    map[string]*ssa.Package

	slots    chan struct{}
	pending  *atomic.Int64 // jobs not yet started
	known    map[string]bool
	knownHit map[string]string
}

// Job is one harness function to explore.
type Job struct {
	name      string
	pkg       string
	fn        *ssa.Function
	props     []string
	reals     bool
	absRem    bool
	concFloat bool // integers are concrete before they become floats
	noMerge   bool
	branchMs  int
	assertMs  int
	maxConc   int
	maxSteps  int
	maxAlloc  int
	maxPaths  int
	maxTime   int // seconds
	samples   int
	tier      string
	doc       string
	eng       *Engine
	maxGates  int // per thread of nd.Par
	bound     int // preemptions allowed in this pass, 0 for any number
	usedPar   bool
	siteCap   int // cells of one gate at which a thread can be preempted
	gates     *gateSets
	restart   bool

	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]*dec
	active  int
	idle    []*W
	all     []*W
	started time.Time
	halted  atomic.Bool
	res     JobResult
}

type siteStat struct {
	Msg       string `json:"assertion"`
	Where     string `json:"where"`
	Reached   int    `json:"reached"`
	Proved    int    `json:"discharged"`
	Trivial   int    `json:"trivially_true"`
	Undecided int    `json:"undecided"`
	Spurious  int    `json:"unconfirmed_models"`
	Known     int    `json:"known_finding_models"`
}

type JobResult struct {
	Paths       int
	Completed   int
	EndWhy      map[string]int
	Branches    int
	Merges      int
	Steps       int64
	Sites       map[string]*siteStat
	Incomplete  map[string]int
	Unsupported map[string]int
	Funcs       map[string]bool
	Solver      SolverStats
	Seconds     float64
	Violation   *Violation
	KnownHits   map[string]string
	Conf        ConfStats
	Spurious    []string
	Samples     []*Case
	Par         map[string]int
	Restarts    int
}

type ConfStats struct {
	Run, OK, Skipped int
	Mismatch         []string
}

type Violation struct {
	Kind   string
	Msg    string
	Where  string
	Replay string
	Native string
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	e.notes[s]++
	e.mu.Unlock()
}

func (e *Engine) inRepo(path string) bool {
	return path == e.module || strings.HasPrefix(path, e.module+"/") && !strings.HasPrefix(path, e.module+"/internal/zzverif")
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (e *Engine) methodNamed(t types.Type, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	key := t.String() + "." + name
	if f, ok := e.methMemo[key]; ok {
		return f
	}
	var f *ssa.Function
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = e.prog.MethodValue(ms.At(i))
		}
	}
	e.methMemo[key] = f
	return f
}

func (e *Engine) typeOf(pkg, name string) types.Type {
	p := e.ptypes[pkg]
	if p == nil {
		panic(unsupported{"package " + pkg + " not loaded"})
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		panic(unsupported{"type " + pkg + "." + name})
	}
	return o.Type()
}

const gobin = "/opt/veriftools/go1.24.13/bin"

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, kv := range env {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GO111MODULE", "GOWORK", "GOROOT", "GOSUMDB", "GOEXPERIMENT", "GODEBUG", "CGO_ENABLED":
			continue
		}
		out = append(out, kv)
	}
	has := func(k string) bool {
		for _, kv := range out {
			if strings.HasPrefix(kv, k+"=") {
				return true
			}
		}
		return false
	}
	if !has("HOME") {
		out = append(out, "HOME=/root")
	}
	if !has("GOCACHE") {
		out = append(out, "GOCACHE=/root/.cache/go-build")
	}
	if !has("GOMODCACHE") && !has("GOPATH") {
		out = append(out, "GOMODCACHE=/root/go/pkg/mod")
	}
	return append(out, "PATH="+findGo()+":/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOFLAGS=-mod=mod", "GOWORK=off", "CGO_ENABLED=0")
}

func findGo() string {
	if _, err := os.Stat(gobin + "/go"); err == nil {
		return gobin
	}
	return "/usr/local/go/bin"
}

// overlay maps harness packages into the repository's module.
func (e *Engine) overlayFiles(pkgs []string) map[string]string {
	ov := map[string]string{}
	for f, g := range e.gated {
		ov[f] = g
	}
	if len(e.gated) > 0 {
		pkgs = append([]string{"psync", "patomic", "psignal"}, pkgs...)
	}
	for _, p := range append([]string{"nd"}, pkgs...) {
		fs, _ := filepath.Glob(filepath.Join(e.verif, "harness", p, "*.go"))
		for _, f := range fs {
			ov[filepath.Join(e.repo, "internal/zzverif", p, filepath.Base(f))] = f
		}
	}
	return ov
}

func (e *Engine) load(pkgs []string) ([]*packages.Package, error) {
	ov := map[string][]byte{}
	for dst, src := range e.overlayFiles(pkgs) {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	os.Setenv("PATH", findGo()+":"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     e.repo,
		Env:     goEnv(),
		Overlay: ov,
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, e.module+"/internal/zzverif/"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			errs = append(errs, x.Error())
		}
		if p.Types != nil {
			e.ptypes[p.PkgPath] = p.Types
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	for _, p := range prog.AllPackages() {
		e.spkgs[p.Pkg.Path()] = p
	}
	if r := e.ptypes["runtime"]; r != nil {
		e.rtErrType = r.Scope().Lookup("plainError").Type()
		if o := r.Scope().Lookup("errorString"); o != nil {
			e.rtErrType = o.Type()
		}
	}
	if r := e.ptypes["errors"]; r != nil {
		e.errStrType = types.NewPointer(r.Scope().Lookup("errorString").Type())
	}
	if r := e.ptypes["fmt"]; r != nil {
		e.wrapErrType = types.NewPointer(r.Scope().Lookup("wrapError").Type())
	}
	e.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if e.errStrType == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	return ps, nil
}

// findJobs reads the //verif: directives of the harness functions.
func (e *Engine) findJobs(ps []*packages.Package) []*Job {
	var jobs []*Job
	for _, p := range ps {
		sp := e.spkgs[p.PkgPath]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				var opts []string
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:") {
						opts = append(opts, strings.Fields(c.Text[len("//verif:"):])...)
					}
				}
				if opts == nil {
					continue
				}
				j := &Job{name: fd.Name.Name, pkg: p.Name, fn: sp.Func(fd.Name.Name), doc: strings.TrimSpace(fd.Doc.Text())}
				j.branchMs, j.assertMs, j.maxConc, j.maxSteps, j.maxPaths, j.maxTime, j.samples = 2000, 20000, 300, 3_000_000, 200000, 600, 12
				for _, o := range opts {
					k, v, _ := strings.Cut(o, "=")
					n, _ := strconv.Atoi(v)
					switch k {
					case "reals":
						j.reals = true
					case "nomerge":
						j.noMerge = true
					case "absrem":
						j.absRem = true
					case "concfloat":
						j.concFloat = true
					case "branchms":
						j.branchMs = n
					case "assertms":
						j.assertMs = n
					case "maxconc":
						j.maxConc = n
					case "maxsteps":
						j.maxSteps = n
					case "maxalloc":
						j.maxAlloc = n
					case "maxpaths":
						j.maxPaths = n
					case "maxtime":
						j.maxTime = n
					case "gates":
						j.maxGates = n
					case "samples":
						j.samples = n
					case "tier":
						j.tier = v
					default:
						if len(k) == 3 && k[0] == 'C' {
							j.props = append(j.props, k)
						} else {
							panic("unknown option " + o + " of " + j.name)
						}
					}
				}
				j.cond = sync.NewCond(&j.mu)
				j.res = newResult()
				jobs = append(jobs, j)
			}
		}
	}
	return jobs
}

func newResult() JobResult {
	return JobResult{EndWhy: map[string]int{}, Sites: map[string]*siteStat{}, Incomplete: map[string]int{}, Unsupported: map[string]int{}, Funcs: map[string]bool{}, KnownHits: map[string]string{}}
}

func newW(id int, e *Engine, j *Job) *W {
	c := NewCtx()
	w := &W{id: id, eng: e, job: j, c: c, reals: j.reals,
		siteDepth: map[ssa.Instruction]int{}, facts: map[*Term]bool{}, rngs: map[*Term]rng{}, rmemo: map[*Term]rng{}, reads: map[*Term][]*Term{},
		tokens: map[*Term]*floatTok{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		fns: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, used: map[*ssa.Function]bool{},
		meths: map[methKey]*ssa.Function{}, extra: map[string]Value{}}
	w.s = NewSolver(c, solverBin())
	w.s.absRem = j.absRem
	return w
}

func solverBin() string {
	if b := os.Getenv("VERIF_Z3"); b != "" {
		return b
	}
	return "z3-new"
}

// runJob explores one harness with as many workers as there are free slots.
func (e *Engine) runJob(j *Job) {
	j.started = time.Now()
	j.bound = 1
	for again := true; again; {
		j.active = 1
		j.queue = [][]*dec{nil}
		e.spawn(j)
		j.mu.Lock()
		for j.active > 0 {
			j.cond.Wait()
		}
		// new scheduling points were found: start over
		again = j.restart && !e.stop.Load()
		if again {
			j.restart = false
			j.halted.Store(false)
			j.res = newResult()
			j.res.Restarts = len(j.hotSites())
			if j.siteCap > 0 {
				j.res.Incomplete[fmt.Sprintf("scheduling points in loops over data: the first %d elements", j.siteCap)]++
			}
		}
		// one pass each with few preemptions, which finds most bugs early, and
		// then the exhaustive one
		if !again && j.usedPar && j.bound > 0 && !j.halted.Load() && !e.stop.Load() {
			j.bound++
			if j.bound > 2 {
				j.bound = 0
			}
			again = true
		}
		j.mu.Unlock()
	}
	for _, w := range j.all {
		j.collect(w)
		w.s.Close()
	}
	j.all, j.idle = nil, nil
	j.res.Seconds = time.Since(j.started).Seconds()
	runtime.GC()
}

func (j *Job) collect(w *W) {
	for f := range w.used {
		j.res.Funcs[f.String()] = true
	}
	s := &j.res.Solver
	s.Queries += w.s.stats.Queries
	s.Sat += w.s.stats.Sat
	s.Unsat += w.s.stats.Unsat
	s.Unknown += w.s.stats.Unknown
	s.TimeSec += w.s.stats.TimeSec
	s.Restarts += w.s.stats.Restarts
	s.Fallback += w.s.stats.Fallback
	s.Errors += w.s.stats.Errors
	j.res.Branches += w.branchN
	j.res.Merges += w.mergeN
}

// spawn starts a worker on the first queued prefix; the caller has counted it
// in j.active.
func (e *Engine) spawn(j *Job) {
	go func() {
		e.slots <- struct{}{}
		defer func() { <-e.slots }()
		j.mu.Lock()
		if j.started.IsZero() {
			j.started = time.Now()
		}
		var pre []*dec
		ok := len(j.queue) > 0
		if ok {
			pre = j.queue[0]
			j.queue = j.queue[1:]
		}
		var w *W
		if n := len(j.idle); n > 0 {
			w = j.idle[n-1]
			j.idle = j.idle[:n-1]
		}
		id := len(j.all)
		j.mu.Unlock()
		if ok {
			if w == nil {
				w = newW(id, e, j)
				j.mu.Lock()
				j.all = append(j.all, w)
				j.mu.Unlock()
			}
			w.explore(pre)
			j.mu.Lock()
			j.idle = append(j.idle, w)
			j.mu.Unlock()
		}
		j.mu.Lock()
		j.active--
		j.cond.Broadcast()
		j.mu.Unlock()
	}()
}

func (w *W) reset() {
	w.rollback(0)
	w.pos = 0
	w.clearRanges()
	for k := range w.facts {
		delete(w.facts, k)
	}
	w.inputs = w.inputs[:0]
	w.obs = w.obs[:0]
	w.items = w.items[:0]
	for k := range w.tokens {
		delete(w.tokens, k)
	}
	for k := range w.siteDepth {
		delete(w.siteDepth, k)
	}
	w.nvar, w.steps, w.since, w.depth, w.mergeDepth = 0, 0, 0, 0, 0
	w.sigPump, w.shut, w.served = nil, false, 0
	w.guards = w.guards[:0]
	w.fresh, w.freshKeep = w.fresh[:0], w.freshKeep[:0]
	w.curMerge, w.curFrame, w.par = nil, nil, nil
	w.reals = w.job.reals
	w.stepLimit = w.job.maxSteps
	w.permanent = 0
	w.incompl = nil
	w.nchoice = 0
}

func (w *W) overBudget() string {
	j := w.job
	e := w.eng
	switch {
	case e.stop.Load():
		return "stopped after a violation"
	case j.halted.Load():
		return "halted"
	case time.Now().After(e.deadline):
		return "time budget of the check"
	case time.Since(j.started) > time.Duration(j.maxTime)*time.Second:
		return "time budget of the harness"
	}
	j.mu.Lock()
	n := j.res.Paths
	j.mu.Unlock()
	if n >= j.maxPaths {
		return "path budget"
	}
	return ""
}

// explore runs every path below a prefix of decisions.
func (w *W) explore(prefix []*dec) {
	w.trail = prefix
	if len(w.s.levels) > 1 {
		w.s.Pop(len(w.s.levels) - 1)
	}
	for {
		w.onePath()
		if why := w.overBudget(); why != "" {
			left := false
			for _, d := range w.trail {
				if len(d.alts) > 0 {
					left = true
				}
			}
			if left || len(w.job.queue) > 0 {
				w.job.mu.Lock()
				w.job.res.Incomplete[why]++
				w.job.queue = nil
				w.job.mu.Unlock()
			}
			break
		}
		if !w.backtrack() {
			break
		}
		// share work with idle slots
		if len(w.eng.slots) < cap(w.eng.slots) && w.eng.pending.Load() == 0 {
			if p := w.donate(); p != nil {
				j := w.job
				j.mu.Lock()
				j.queue = append(j.queue, p)
				j.active++
				j.mu.Unlock()
				w.eng.spawn(j)
			}
		}
	}
	w.reset()
	w.trail = nil
}

func (w *W) onePath() {
	w.reset()
	why := ""
	complete := false
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch x := x.(type) {
			case pathEnd:
				why = x.why
				if why == "hang" {
					w.candidate("hang", "the call does not return", w.where(w.curFrame), nil, "")
				}
			case *goPanic:
				why = "panic"
				if os.Getenv("ENGSTACK") != "" {
					fmt.Fprintf(os.Stderr, "panic %s\n%s", x.text, w.stack())
				}
				w.candidate("panic", x.text, x.where, nil, "")
			case blocked:
				why = "blocked"
				w.candidate("hang", "blocked forever: "+x.what, w.where(w.curFrame), nil, "")
			case unsupported:
				why = "unsupported"
				key := x.what + " at " + w.where(w.curFrame)
				w.job.mu.Lock()
				w.job.res.Unsupported[key]++
				first := w.job.res.Unsupported[key] == 1
				w.job.mu.Unlock()
				if first && dbg != "" {
					fmt.Fprintf(os.Stderr, "unsupported %s\n%s", x.what, w.stack())
				}
			case misaligned:
				why = "misaligned"
				w.job.mu.Lock()
				w.job.res.Unsupported["internal: re-execution differs: "+x.what]++
				w.job.mu.Unlock()
				// the trail beyond this point is meaningless
				w.truncate()
			default:
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				w.job.mu.Lock()
				key := fmt.Sprintf("internal: %v at %s", x, w.where(w.curFrame))
				w.job.res.Unsupported[key]++
				first := w.job.res.Unsupported[key] == 1
				w.job.mu.Unlock()
				if first && dbg != "" {
					fmt.Fprintf(os.Stderr, "%s\n%s\n%s", key, buf[:n], w.stack())
				}
				why = "internal"
			}
		}()
		w.callFn(nil, w.job.fn, nil, nil)
		complete = true
	}()
	// anything after the point reached is stale
	if w.pos < len(w.trail) {
		w.truncate()
	}
	j := w.job
	j.mu.Lock()
	j.res.Paths++
	j.res.Steps += int64(w.steps)
	if complete {
		j.res.Completed++
	} else {
		j.res.EndWhy[why]++
	}
	for _, s := range w.incompl {
		j.res.Incomplete[s]++
	}
	n := j.res.Completed
	want := complete && j.samples > 0 && sampleThis(n, j.samples, j.res.Conf.Run)
	j.mu.Unlock()
	if want && !w.eng.stop.Load() {
		w.conform()
	}
}

// sampleThis picks completed paths roughly geometrically: all of the first
// few, then ever more rarely.
func sampleThis(n, limit, done int) bool {
	if done >= limit {
		return false
	}
	if n <= limit/2 {
		return true
	}
	return n%(1+n/8) == 0
}

func (w *W) truncate() {
	for len(w.trail) > w.pos {
		d := w.trail[len(w.trail)-1]
		if d.pushed && d.ready {
			w.s.Pop(1)
		}
		w.trail = w.trail[:len(w.trail)-1]
	}
}

// assertions ------------------------------------------------------------------------

func (w *W) site(msg string) *siteStat {
	where := ""
	if f := w.curFrame; f != nil && f.at != nil && f.at.Pos().IsValid() {
		p := w.eng.prog.Fset.Position(f.at.Pos())
		where = fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	}
	key := where + " " + msg
	st := w.job.res.Sites[key]
	if st == nil {
		st = &siteStat{Msg: msg, Where: where}
		w.job.res.Sites[key] = st
	}
	return st
}

func (w *W) stat(msg string, f func(*siteStat)) {
	w.job.mu.Lock()
	f(w.site(msg))
	w.job.mu.Unlock()
}

func (w *W) assert(t *Term, known, msg string) {
	if w.mergeDepth > 0 {
		panic(mergeAbort{"assert"})
	}
	if w.par != nil {
		w.par.touch(t)
	}
	d, fresh := w.next('a')
	if !fresh {
		if d.pushed {
			w.take(d, t)
		} else {
			w.fact(t, true)
		}
		return
	}
	w.stat(msg, func(s *siteStat) { s.Reached++ })
	if v, ok := w.known(t); ok && v {
		w.stat(msg, func(s *siteStat) { s.Trivial++; s.Proved++ })
		return
	}
	w.outOfTime()
	neg := w.c.Not(t)
	hard := 0
	w.stat(msg, func(s *siteStat) { hard = s.Undecided })
	r := Unknown
	if hard < 4 {
		r = w.s.Check(neg, w.job.assertMs)
		if r == Unknown && !w.eng.stop.Load() {
			r = w.fallback(neg, nil)
		}
	} else { // a site that proved hard gets a short try only
		r = w.s.Check(neg, min(2000, w.job.assertMs))
	}
	switch r {
	case Unsat:
		w.stat(msg, func(s *siteStat) { s.Proved++ })
		w.fact(t, true)
		return
	case Sat:
		w.candidate("assert", msg, w.where(w.curFrame), neg, known)
	default:
		w.stat(msg, func(s *siteStat) { s.Undecided++ })
		if os.Getenv("ENGDUMP") != "" {
			w.dump(neg, msg)
		}
	}
	// continue under the assumption that it holds
	d.pushed = true
	w.s.Push()
	w.s.Assert(t)
	d.ready = true
	w.fact(t, true)
	if w.check(w.c.True) == Unsat {
		panic(pathEnd{"assume"})
	}
}

func (w *W) dump(neg *Term, msg string) {
	f, err := os.CreateTemp(os.Getenv("ENGDUMP"), sanitize(msg)+"_*.smt2")
	if err != nil {
		return
	}
	defer f.Close()
	f.WriteString(w.s.Script(neg, nil))
}

// outOfTime ends the path once the budget of the check or harness is used up.
func (w *W) outOfTime() {
	if w.eng.stop.Load() {
		panic(pathEnd{"stopped"})
	}
	if time.Now().After(w.eng.deadline) || time.Since(w.job.started) > time.Duration(w.job.maxTime)*time.Second {
		w.job.mu.Lock()
		w.job.res.Incomplete["time budget within a path"]++
		w.job.mu.Unlock()
		panic(pathEnd{"time budget"})
	}
}

// fallback decides a hard query with other solvers and tactics.
func (w *W) fallback(neg *Term, vars []*Term) Result {
	ms := w.job.assertMs
	for _, k := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--fp-exp"}, {"z3", "-in", "-smt2"}} {
		if w.eng.stop.Load() || time.Now().After(w.eng.deadline) {
			return Unknown
		}
		r, _ := w.s.OneShot(k[0], k[1:], neg, vars, ms)
		if r != Unknown {
			return r
		}
	}
	return Unknown
}

// collectSelects finds the reads of an input array inside terms.
func collectSelects(roots []*Term, base map[*Term]bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var st []*Term
	st = append(st, roots...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		if t.op == OSelect {
			out = append(out, t)
		}
		st = append(st, t.a[0], t.a[1], t.a[2])
	}
	return out
}

// model solves for the inputs of the current path; extra may strengthen it.
func (w *W) model(extra *Term) (Result, *Case) {
	return w.modelFor(extra, nil)
}

func (w *W) modelFor(extra *Term, obs []obsRec) (Result, *Case) {
	var vars []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if !t.isConst() && !seen[t] && t.sort.K != SArr {
			seen[t] = true
			vars = append(vars, t)
		}
	}
	bases := map[*Term]bool{}
	for _, in := range w.inputs {
		for _, t := range in.terms {
			if in.kind == "big" {
				bases[t] = true
			} else {
				add(t)
			}
		}
	}
	for _, o := range obs {
		for _, t := range o.v {
			add(t)
		}
	}
	type rd struct{ base, idx, val *Term }
	var reads []rd
	if len(bases) > 0 {
		var roots []*Term
		for _, l := range w.s.levels {
			roots = append(roots, l...)
		}
		if extra != nil {
			roots = append(roots, extra)
		}
		for _, o := range obs {
			roots = append(roots, o.v...)
		}
		for _, s := range collectSelects(roots, bases) {
			for b := range bases {
				v := w.c.Select(b, s.a[1])
				add(s.a[1])
				add(v)
				reads = append(reads, rd{b, s.a[1], v})
			}
		}
	}
	r, m := Unknown, map[*Term]uint64(nil)
	if !w.s.usedAbs {
		r, m = w.s.CheckModel(extra, vars, w.job.assertMs)
	}
	if r == Unknown {
		for _, k := range [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--fp-exp"}} {
			r, m = w.s.OneShot(k[0], k[1:], extra, vars, w.job.assertMs)
			if r != Unknown {
				break
			}
		}
	}
	if r != Sat {
		return r, nil
	}
	val := func(t *Term) uint64 {
		if t.isConst() {
			if t.sort.K == SReal {
				f, _ := t.rat.Float64()
				return f64bits(f)
			}
			return t.x
		}
		return m[t]
	}
	cs := &Case{Harness: w.job.name}
	for _, in := range w.inputs {
		ci := CaseInput{Kind: in.kind, Label: in.label}
		switch in.kind {
		case "bytes":
			b := make([]byte, len(in.terms))
			for i, t := range in.terms {
				b[i] = byte(val(t))
			}
			ci.Hex = fmt.Sprintf("%x", b)
			ci.Text = strconv.QuoteToASCII(string(b))
		case "item":
			ci.Kind = "bytes"
			b := itemBytes(val(in.terms[0]))
			ci.Hex = fmt.Sprintf("%x", b)
			ci.Text = strconv.QuoteToASCII(string(b))
		case "big":
			ci.N = in.conc
			ci.At = map[string]uint64{}
			for _, r := range reads {
				if r.base == in.terms[0] {
					ci.At[strconv.FormatUint(val(r.idx), 10)] = val(r.val)
				}
			}
		case "sched":
			b, _ := json.Marshal(in.sched(m))
			ci.Sched = b
		default:
			ci.V = strconv.FormatUint(val(in.terms[0]), 10)
			if in.kind == "f" {
				ci.Text = fmt.Sprint(f64from(val(in.terms[0])))
			}
		}
		cs.Inputs = append(cs.Inputs, ci)
	}
	for _, o := range obs {
		co := CaseObs{Label: o.label, Kind: o.kind}
		for _, t := range o.v {
			v := val(t)
			if t.sort.K == SBool {
				co.V = append(co.V, v)
				continue
			}
			if o.kind == "f" && t.sort.K == SReal {
				co.Approx = true
			}
			co.V = append(co.V, v)
		}
		cs.Expect = append(cs.Expect, co)
	}
	return Sat, cs
}

// candidate handles a possible violation on the current path: the model is
// replayed on the real code, and only a reproduced failure is reported.
func (w *W) candidate(kind, msg, where string, neg *Term, known string) {
	if w.eng.stop.Load() {
		return
	}
	tries := 3
	extra := neg
	if kind != "assert" {
		w.stat(kind+": "+msg, func(s *siteStat) { s.Reached++ })
	}
	st := func(f func(*siteStat)) {
		if kind == "assert" {
			w.stat(msg, f)
		} else {
			w.stat(kind+": "+msg, f)
		}
	}
	var over bool
	st(func(s *siteStat) { over = s.Spurious > 12 || s.Known > 3 })
	if over {
		st(func(s *siteStat) { s.Undecided++ })
		return
	}
	for i := 0; i < tries; i++ {
		r, cs := w.modelFor(extra, nil)
		if r == Unsat {
			if i == 0 && kind == "assert" {
				st(func(s *siteStat) { s.Proved++ })
			}
			return
		}
		if cs == nil {
			st(func(s *siteStat) { s.Undecided++ })
			return
		}
		cs.Kind, cs.Msg, cs.Where = kind, msg, where
		out := w.eng.nat.Run(w.job.pkg, cs, w.usesMapOrder())
		if dbg != "" {
			b, _ := json.Marshal(cs)
			fmt.Fprintf(os.Stderr, "candidate %s %q at %s: native %s %q\n  %s\n", kind, msg, where, out.Status, out.Msg, b)
			if os.Getenv("ENGSTACK") != "" {
				fmt.Fprint(os.Stderr, w.stack())
			}
		}
		if out.failed() {
			if out.Known != "" && w.eng.known[out.Known] {
				st(func(s *siteStat) { s.Known++ })
				w.job.mu.Lock()
				w.job.res.KnownHits[out.Known] = out.Msg
				w.job.mu.Unlock()
				return
			}
			w.report(kind, msg, where, cs, out)
			return
		}
		// not reproduced: ask for a different model
		st(func(s *siteStat) { s.Spurious++ })
		w.job.mu.Lock()
		if len(w.job.res.Spurious) < 10 {
			w.job.res.Spurious = append(w.job.res.Spurious, fmt.Sprintf("%s %s at %s: native run says %s", kind, msg, where, out.Status))
		}
		w.job.mu.Unlock()
		diff := w.differs(cs)
		if diff == nil {
			return
		}
		if extra == nil {
			extra = diff
		} else {
			extra = w.c.And(extra, diff)
		}
	}
}

func (w *W) usesMapOrder() bool {
	return w.nchoice > 0
}

// differs excludes the scalar inputs of a model.
func (w *W) differs(cs *Case) *Term {
	r := w.c.False
	for i, in := range w.inputs {
		if in.kind == "u" && !in.terms[0].isConst() {
			v, _ := strconv.ParseUint(cs.Inputs[i].V, 10, 64)
			r = w.c.Or(r, w.c.Not(w.c.Eq(in.terms[0], w.c.BV(in.terms[0].width(), v))))
		}
		if in.kind == "item" {
			b, _ := hex.DecodeString(cs.Inputs[i].Hex)
			h := uint64(fnvOffset)
			for _, c := range b {
				h = h*fnvPrime ^ uint64(c)
			}
			r = w.c.Or(r, w.c.Not(w.c.Eq(in.terms[0], w.c.BV(64, h))))
		}
		if in.kind == "bytes" {
			for k, t := range in.terms {
				if !t.isConst() {
					v, _ := strconv.ParseUint(cs.Inputs[i].Hex[2*k:2*k+2], 16, 8)
					r = w.c.Or(r, w.c.Not(w.c.Eq(t, w.c.BV(8, v))))
				}
			}
		}
		if in.kind == "f" && in.terms[0].sort.K == SReal {
			v, _ := strconv.ParseUint(cs.Inputs[i].V, 10, 64)
			r = w.c.Or(r, w.c.Not(w.c.Eq(in.terms[0], w.realConst(f64from(v)))))
		} else if in.kind == "f" {
			v, _ := strconv.ParseUint(cs.Inputs[i].V, 10, 64)
			r = w.c.Or(r, w.c.Not(w.c.Eq(in.terms[0], w.c.BV(64, v))))
		}
	}
	if r == w.c.False {
		return nil
	}
	return r
}

func (w *W) report(kind, msg, where string, cs *Case, out Outcome) {
	e := w.eng
	j := w.job
	j.mu.Lock()
	defer j.mu.Unlock()
	if j.res.Violation != nil {
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Where: where, Native: out.Status + ": " + out.Msg}
	v.Replay = e.writeReplay(j, cs, out)
	j.res.Violation = v
	e.stop.Store(true)
}

// conform replays a completed path natively and compares what it observed.
func (w *W) conform() {
	r, cs := w.modelFor(nil, w.obs)
	if r != Sat {
		w.job.mu.Lock()
		w.job.res.Conf.Skipped++
		w.job.mu.Unlock()
		return
	}
	exp := cs.Expect
	w.job.mu.Lock()
	if len(w.job.res.Samples) < 3 {
		w.job.res.Samples = append(w.job.res.Samples, cs)
	}
	w.job.mu.Unlock()
	out := w.eng.nat.Run(w.job.pkg, cs, false)
	ok, why := compareObs(exp, out)
	if !ok && w.usesMapOrder() {
		for i := 0; i < 40 && !ok; i++ {
			out = w.eng.nat.Run(w.job.pkg, cs, false)
			ok, why = compareObs(exp, out)
		}
	}
	if out.failed() && w.job.reals {
		// the property was decided over the reals; rounding in this run proves nothing
		w.job.mu.Lock()
		w.job.res.Conf.Skipped++
		w.job.mu.Unlock()
		return
	}
	if out.failed() && !(out.Known != "" && w.eng.known[out.Known]) {
		cs.Kind, cs.Msg = out.Status, out.Msg
		w.report("native "+out.Status, out.Msg, "", cs, out)
		return
	}
	w.job.mu.Lock()
	defer w.job.mu.Unlock()
	w.job.res.Conf.Run++
	if ok {
		w.job.res.Conf.OK++
		return
	}
	b, _ := json.Marshal(cs)
	if len(w.job.res.Conf.Mismatch) < 5 {
		w.job.res.Conf.Mismatch = append(w.job.res.Conf.Mismatch, why+" for "+string(b))
	}
	if dbg != "" {
		fmt.Fprintf(os.Stderr, "CONFORMANCE %s: %s\n  %s\n", w.job.name, why, b)
	}
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type fnPtr = *ssa.Function
type pkgPtr = *types.Package
type spkgPtr = *ssa.Package
