package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries  int
	Unsat    int
	Sat      int
	Unknown  int
	TimeSec  float64
	Restarts int
	Fallback int
	Errors   int
}

// Solver drives one z3 process incrementally. The asserted stack is mirrored
// so that a fresh process (or a one-shot query) can be built from it.
type Solver struct {
	c       *Ctx
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	levels  [][]*Term
	stats   SolverStats
	emitted map[*Term]bool
	ufs     map[string]bool
	log     *os.File
	real    bool
	dead    bool
	// absRem makes the incremental solver see x%m (x wide and symbolic, m
	// constant) as an unknown function of x below m. One-shot problems, which
	// decide candidates and yield models, always carry the exact operation.
	absRem  bool
	usedAbs bool
}

func NewSolver(c *Ctx, bin string) *Solver {
	s := &Solver{c: c, bin: bin, levels: [][]*Term{nil}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.emitted = map[*Term]bool{}
	s.ufs = map[string]bool{}
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:6000")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.stats.Restarts++
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
	lv := s.levels
	s.levels = [][]*Term{nil}
	for i, l := range lv {
		if i > 0 {
			s.Push()
		}
		for _, t := range l {
			s.Assert(t)
		}
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		s.log.WriteString(x)
	}
	s.in.WriteString(x)
}

func bvLit(w uint16, v uint64) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (t *Term) constStr() string {
	switch t.sort.K {
	case SBool:
		if t.x == 1 {
			return "true"
		}
		return "false"
	case SBV:
		return bvLit(t.sort.W, t.x)
	case SF64:
		if math.IsNaN(t.f64()) {
			return "(_ NaN 11 53)"
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.x)
	case SF32:
		if t.f32() != t.f32() {
			return "(_ NaN 8 24)"
		}
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.x)
	case SReal:
		n, d := t.rat.Num(), t.rat.Denom()
		ns := new(big.Int).Abs(n).String() + ".0"
		if n.Sign() < 0 {
			ns = "(- " + ns + ")"
		}
		if d.IsInt64() && d.Int64() == 1 {
			return ns
		}
		return "(/ " + ns + " " + d.String() + ".0)"
	}
	panic("const")
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return t.constStr()
	case OVar:
		return t.name
	}
	return "t" + strconv.Itoa(int(t.id))
}

type emitter struct {
	emitted map[*Term]bool
	ufs     map[string]bool
	send    func(string)
	absRem  bool
	usedAbs *bool
}

func (e *emitter) emit(root *Term) {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if t.op == OConst || e.emitted[t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 {
			k := t.a[f.i]
			f.i++
			if k != nil && k.op != OConst && !e.emitted[k] {
				st = append(st, fr{k, 0})
			}
			continue
		}
		e.emitted[t] = true
		st = st[:len(st)-1]
		if t.op == OVar {
			e.send(fmt.Sprintf("(declare-const %s %s)\n", t.name, t.sort))
			continue
		}
		if t.op == OUF && !e.ufs[t.name] {
			e.ufs[t.name] = true
			var as []string
			for _, k := range t.a[:t.x] {
				as = append(as, k.sort.String())
			}
			e.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", t.name, strings.Join(as, " "), t.sort))
		}
		if e.absRem && wideRem(t) {
			*e.usedAbs = true
			f := fmt.Sprintf("absrem_%d_%d", t.sort.W, t.a[1].x)
			if !e.ufs[f] {
				e.ufs[f] = true
				e.send(fmt.Sprintf("(declare-fun %s (%s) %s)\n", f, t.sort, t.sort))
			}
			e.send(fmt.Sprintf("(define-fun t%d () %s (let ((r (%s %s))) (ite (bvult r %s) r %s)))\n",
				t.id, t.sort, f, t.a[0].ref(), t.a[1].ref(), bvLit(t.sort.W, 0)))
			continue
		}
		e.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, t.sort, t.body()))
	}
}

func (t *Term) body() string {
	r := func(i int) string { return t.a[i].ref() }
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.x>>8, t.x&255, r(0))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort.W)-t.a[0].width(), r(0))
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", t.sort, r(0))
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		return fmt.Sprintf("(%s RNE %s %s)", n, r(0), r(1))
	case OFSqrt:
		return fmt.Sprintf("(fp.sqrt RNE %s)", r(0))
	case OFRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", [...]string{"RTP", "RTN", "RTZ"}[t.x], r(0))
	case OFFromBits, OSToF, OUToF, OFToF:
		e, m := 11, 53
		if t.sort.K == SF32 {
			e, m = 8, 24
		}
		switch t.op {
		case OFFromBits:
			return fmt.Sprintf("((_ to_fp %d %d) %s)", e, m, r(0))
		case OUToF:
			return fmt.Sprintf("((_ to_fp_unsigned %d %d) RNE %s)", e, m, r(0))
		}
		return fmt.Sprintf("((_ to_fp %d %d) RNE %s)", e, m, r(0))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, r(0))
	case OFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.sort.W, r(0))
	case ORFromU:
		return fmt.Sprintf("(to_real (bv2nat %s))", r(0))
	case OUF:
		s := "(" + t.name
		for i := 0; i < int(t.x); i++ {
			s += " " + r(i)
		}
		return s + ")"
	}
	n, ok := smtName[t.op]
	if !ok {
		panic(fmt.Sprintf("no smt name for op %d", t.op))
	}
	s := "(" + n
	for _, k := range t.a {
		if k != nil {
			s += " " + k.ref()
		}
	}
	return s + ")"
}

func wideRem(t *Term) bool {
	return t.op == OURem && t.a[1].isConst() && t.a[1].x != 0 && !t.a[0].isConst() && t.a[0].hi >= 1<<20
}

func (s *Solver) emit(t *Term) {
	e := emitter{s.emitted, s.ufs, s.send, s.absRem, &s.usedAbs}
	e.emit(t)
}

func (s *Solver) Push() {
	s.levels = append(s.levels, nil)
	s.send("(push 1)\n")
}
func (s *Solver) Pop(n int) {
	if n == 0 {
		return
	}
	s.levels = s.levels[:len(s.levels)-n]
	s.send(fmt.Sprintf("(pop %d)\n", n))
}
func (s *Solver) Assert(t *Term) {
	if t == s.c.True {
		return
	}
	s.levels[len(s.levels)-1] = append(s.levels[len(s.levels)-1], t)
	s.emit(t)
	s.send("(assert " + t.ref() + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check asks whether the asserted stack plus extra is satisfiable.
func (s *Solver) Check(extra *Term, timeoutMs int) Result {
	if extra == s.c.False {
		return Unsat
	}
	s.stats.Queries++
	t0 := time.Now()
	defer func() { s.stats.TimeSec += time.Since(t0).Seconds() }()
	if s.dead {
		s.restart()
	}
	if extra != nil && extra != s.c.True {
		s.emit(extra)
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	if extra != nil && extra != s.c.True {
		s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res := s.readResult(timeoutMs)
	if s.dead {
		s.stats.Unknown++
		return Unknown
	}
	if extra != nil && extra != s.c.True {
		s.send("(pop 1)\n")
	}
	s.count(res)
	return res
}

func (s *Solver) count(r Result) {
	switch r {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
}

func (s *Solver) readResult(timeoutMs int) Result {
	killed := make(chan bool, 1)
	tm := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*3/2+3*time.Second, func() {
		killed <- true
		s.cmd.Process.Kill()
	})
	defer tm.Stop()
	for {
		l, err := s.readLine()
		if err != nil {
			s.dead = true
			return Unknown
		}
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown" || l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			s.stats.Errors++
			fmt.Fprintln(os.Stderr, "SOLVER", l)
			// the answer that follows is not trustworthy
			s.dead = true
			return Unknown
		}
	}
}

// CheckModel is Check that, when satisfiable, returns the values of vars.
func (s *Solver) CheckModel(extra *Term, vars []*Term, timeoutMs int) (Result, map[*Term]uint64) {
	s.stats.Queries++
	t0 := time.Now()
	defer func() { s.stats.TimeSec += time.Since(t0).Seconds() }()
	if s.dead {
		s.restart()
	}
	if extra != nil {
		s.emit(extra)
	}
	for _, v := range vars {
		s.emit(v)
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	s.send("(push 1)\n")
	if extra != nil {
		s.send("(assert " + extra.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	res := s.readResult(timeoutMs)
	s.count(res)
	var m map[*Term]uint64
	if s.dead {
		return Unknown, nil
	}
	if res == Sat {
		m = s.getValues(vars)
		if m == nil {
			res = Unknown
		}
	}
	if !s.dead {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) getValues(vars []*Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	for i := 0; i < len(vars); i += 50 {
		ch := vars[i:min(i+50, len(vars))]
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range ch {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.send(sb.String())
		s.in.Flush()
		tx, err := s.readSexp()
		if err != nil || strings.HasPrefix(tx, "(error") {
			s.dead = true
			return nil
		}
		vals := parseValues(tx)
		if len(vals) != len(ch) {
			return nil
		}
		for j, v := range ch {
			x, ok := parseConst(vals[j], v.sort)
			if !ok {
				return nil
			}
			m[v] = x
		}
	}
	return m
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if !started && (b == '\n' || b == ' ') {
			continue
		}
		started = true
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

type sexp struct {
	atom string
	kids []sexp
}

func parseSexp(s string) sexp {
	pos := 0
	var p func() sexp
	p = func() sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
			pos++
		}
		if pos < len(s) && s[pos] == '(' {
			pos++
			e := sexp{}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n' || s[pos] == '\t') {
					pos++
				}
				if pos >= len(s) || s[pos] == ')' {
					pos++
					return e
				}
				e.kids = append(e.kids, p())
			}
		}
		st := pos
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' && s[pos] != '\n' {
			pos++
		}
		return sexp{atom: s[st:pos]}
	}
	return p()
}

func parseValues(tx string) []sexp {
	e := parseSexp(tx)
	var out []sexp
	for _, k := range e.kids {
		if len(k.kids) == 2 {
			out = append(out, k.kids[1])
		}
	}
	return out
}

func parseBits(a string) (uint64, int, bool) {
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, 4 * (len(a) - 2), err == nil
	}
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, len(a) - 2, err == nil
	}
	return 0, 0, false
}

// parseConst returns the payload of a model value: bits for BV/float, 0/1 for
// Bool, float64 bits of the nearest double for Real.
func parseConst(e sexp, s Sort) (uint64, bool) {
	switch s.K {
	case SBool:
		if e.atom == "true" {
			return 1, true
		}
		return 0, e.atom == "false"
	case SBV:
		v, _, ok := parseBits(e.atom)
		return v, ok
	case SF64, SF32:
		ew, mw := uint(11), uint(52)
		if s.K == SF32 {
			ew, mw = 8, 23
		}
		if len(e.kids) == 4 && e.kids[0].atom == "fp" {
			a, _, o1 := parseBits(e.kids[1].atom)
			b, _, o2 := parseBits(e.kids[2].atom)
			c, _, o3 := parseBits(e.kids[3].atom)
			return a<<(ew+mw) | b<<mw | c, o1 && o2 && o3
		}
		if len(e.kids) == 4 && e.kids[0].atom == "_" {
			switch e.kids[1].atom {
			case "NaN":
				return (1<<ew-1)<<mw | 1<<(mw-1), true
			case "+oo":
				return (1<<ew - 1) << mw, true
			case "-oo":
				return 1<<(ew+mw) | (1<<ew-1)<<mw, true
			case "+zero":
				return 0, true
			case "-zero":
				return 1 << (ew + mw), true
			}
		}
		return 0, false
	case SReal:
		r, ok := parseRat(e)
		if !ok {
			return 0, false
		}
		f, _ := r.Float64()
		return math.Float64bits(f), true
	}
	return 0, false
}

func parseRat(e sexp) (*big.Rat, bool) {
	if e.atom != "" {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		return r, ok
	}
	if len(e.kids) == 2 && e.kids[0].atom == "-" {
		r, ok := parseRat(e.kids[1])
		if !ok {
			return nil, false
		}
		return new(big.Rat).Neg(r), true
	}
	if len(e.kids) == 3 && e.kids[0].atom == "/" {
		a, o1 := parseRat(e.kids[1])
		b, o2 := parseRat(e.kids[2])
		if !o1 || !o2 || b.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(a, b), true
	}
	return nil, false
}

// OneShot runs the asserted stack plus extra in a fresh non-incremental
// process (which lets z3 pick its bit-blasting tactic).
func (s *Solver) OneShot(bin string, args []string, extra *Term, vars []*Term, timeoutMs int) (Result, map[*Term]uint64) {
	s.stats.Queries++
	s.stats.Fallback++
	t0 := time.Now()
	defer func() { s.stats.TimeSec += time.Since(t0).Seconds() }()
	script := s.Script(extra, vars)
	if strings.Contains(bin, "cvc5") {
		script = "(set-logic ALL)\n(set-option :produce-models true)\n" + script
	}
	cmd := exec.Command(bin, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdin = strings.NewReader(script)
	var out strings.Builder
	cmd.Stdout = &out
	if err := cmd.Start(); err != nil {
		return Unknown, nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMs) * time.Millisecond):
		cmd.Process.Kill()
		<-done
		s.count(Unknown)
		return Unknown, nil
	}
	o := strings.TrimSpace(out.String())
	nl := strings.IndexByte(o, '\n')
	first, rest := o, ""
	if nl >= 0 {
		first, rest = strings.TrimSpace(o[:nl]), o[nl+1:]
	}
	switch first {
	case "unsat":
		s.count(Unsat)
		return Unsat, nil
	case "sat":
		s.count(Sat)
		if len(vars) == 0 {
			return Sat, nil
		}
		vals := parseValues(rest)
		if len(vals) != len(vars) {
			return Unknown, nil
		}
		m := map[*Term]uint64{}
		for i, v := range vars {
			x, ok := parseConst(vals[i], v.sort)
			if !ok {
				return Unknown, nil
			}
			m[v] = x
		}
		return Sat, m
	}
	if strings.HasPrefix(first, "(error") {
		s.stats.Errors++
		fmt.Fprintln(os.Stderr, "SOLVER", first)
	}
	s.count(Unknown)
	return Unknown, nil
}

// Script renders the asserted stack plus extra as a stand-alone problem.
func (s *Solver) Script(extra *Term, vars []*Term) string {
	var sb strings.Builder
	e := emitter{map[*Term]bool{}, map[string]bool{}, func(x string) { sb.WriteString(x) }, false, nil}
	for _, l := range s.levels {
		for _, t := range l {
			e.emit(t)
			sb.WriteString("(assert " + t.ref() + ")\n")
		}
	}
	if extra != nil {
		e.emit(extra)
		sb.WriteString("(assert " + extra.ref() + ")\n")
	}
	for _, v := range vars {
		e.emit(v)
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}
