package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifengine check|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

var dirRe = regexp.MustCompile(`(?m)^//verif:(.*)$`)

// harnessesFor finds the packages with harnesses of the property.
func harnessesFor(verif, prop string) (pkgs []string, names map[string][]string) {
	names = map[string][]string{}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", "*", "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		p := filepath.Base(filepath.Dir(f))
		hit := false
		for _, m := range dirRe.FindAllSubmatch(b, -1) {
			for _, o := range strings.Fields(string(m[1])) {
				if o == prop {
					hit = true
				}
			}
		}
		if hit {
			if _, ok := names[p]; !ok {
				pkgs = append(pkgs, p)
				names[p] = nil
			}
		}
	}
	fnRe := regexp.MustCompile(`(?m)^func (H_[A-Za-z0-9_]+)\(\)`)
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", p, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, m := range fnRe.FindAllSubmatch(b, -1) {
				names[p] = append(names[p], string(m[1]))
			}
		}
	}
	sort.Strings(pkgs)
	return
}

func newEngine(prop string, thorough bool) *Engine {
	e := &Engine{repo: repoDir(), verif: verifDir(), module: "github.com/iand/starbow", prop: prop, thorough: thorough,
		notes: map[string]int{}, methMemo: map[string]fnPtr{}, ptypes: map[string]pkgPtr{}, spkgs: map[string]spkgPtr{},
		known: map[string]bool{}, knownHit: map[string]string{}}
	e.slots = make(chan struct{}, 8)
	e.stop, e.pending = new(atomic.Bool), new(atomic.Int64)
	return e
}

// known-findings.txt lines: "known: property=<id> key=<key> <text>" and
// "fixed: property=<id> <commit> <text>".
func (e *Engine) readKnown() map[string]string {
	r := map[string]string{}
	f, err := os.Open(filepath.Join(e.verif, "known-findings.txt"))
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	re := regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == e.prop {
			r[m[2]] = m[3]
			e.known[m[2]] = true
		}
	}
	return r
}

type group struct {
	pkgs  []string
	gated bool
}

// splitGated groups the harness packages by whether they need instrumented
// sources.
func splitGated(e *Engine, pkgs []string) []group {
	var plain, gated group
	gated.gated = true
	for _, p := range pkgs {
		if gatedDirs(e.verif, p) != nil {
			gated.pkgs = append(gated.pkgs, p)
		} else {
			plain.pkgs = append(plain.pkgs, p)
		}
	}
	var r []group
	if plain.pkgs != nil {
		r = append(r, plain)
	}
	if gated.pkgs != nil {
		r = append(r, gated)
	}
	return r
}

// gate instruments the sources that the harness packages ask for.
func (e *Engine) gate(pkgs []string) error {
	var dirs []string
	seen := map[string]bool{}
	for _, p := range pkgs {
		for _, d := range gatedDirs(e.verif, p) {
			if !seen[d] {
				seen[d] = true
				dirs = append(dirs, d)
			}
		}
	}
	dir, err := os.MkdirTemp("", "verif-gated-")
	if err != nil {
		return err
	}
	e.gateDir = dir
	e.gated, err = e.instrument(dirs, dir)
	return err
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("only", "", "run only this harness")
	verbose := fs.Bool("v", false, "print a summary")
	budget := fs.Int("budget", 0, "seconds")
	if len(args) < 1 {
		return 2
	}
	prop := args[0]
	fs.Parse(args[1:])
	start := time.Now()
	e := newEngine(prop, *tier == "thorough")
	b := *budget
	if b == 0 {
		b = 240
		if e.thorough {
			b = 780
		}
	}
	e.deadline = start.Add(time.Duration(b) * time.Second)
	// nothing may outlive the budget by much, whatever a solver does
	time.AfterFunc(time.Until(e.deadline)+45*time.Second, func() { e.stop.Store(true) })
	knownText := e.readKnown()
	pkgs, names := harnessesFor(e.verif, prop)
	if len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	evf := filepath.Join(e.verif, "evidence", prop+".json")
	os.MkdirAll(filepath.Dir(evf), 0755)
	os.Remove(evf)
	// harnesses with threads run on instrumented sources, a program of its own
	var groups []*Engine
	var jobs []*Job
	for _, g := range splitGated(e, pkgs) {
		ge := e
		if g.gated {
			ge = newEngine(prop, e.thorough)
			ge.deadline, ge.slots, ge.stop, ge.pending, ge.known = e.deadline, e.slots, e.stop, e.pending, e.known
			err := ge.gate(g.pkgs)
			defer os.RemoveAll(ge.gateDir)
			if err != nil {
				e.note("not checked: the instrumented program does not build: " + err.Error())
				continue
			}
		}
		ge.nat = ge.newNative(g.pkgs, names)
		defer ge.nat.Close()
		ps, err := ge.load(g.pkgs)
		if err != nil && g.gated {
			e.note("not checked: the instrumented program does not load: " + err.Error())
			continue
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "load:", err)
			return 2
		}
		groups = append(groups, ge)
		for _, j := range ge.findJobs(ps) {
			if *only != "" && j.name != *only {
				continue
			}
			j.eng = ge
			for _, p := range j.props {
				if p == prop && (j.tier == "" || j.tier == *tier) {
					jobs = append(jobs, j)
				}
			}
		}
	}
	loadS := time.Since(start).Seconds()
	e.pending.Store(int64(len(jobs)))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			e.pending.Add(-1)
			if e.stop.Load() {
				return
			}
			j.eng.runJob(j)
		}()
	}
	wg.Wait()
	for _, g := range groups {
		<-g.nat.ready
		if g.nat.err != nil {
			if g.gated != nil {
				e.note("not checked: the instrumented program does not build: " + g.nat.err.Error())
				continue
			}
			fmt.Fprintln(os.Stderr, g.nat.err)
			return 2
		}
		e.natRuns += int(g.nat.runs.Load())
		if g != e {
			for k, n := range g.notes {
				e.notes[k] += n
			}
		}
	}
	rc := 0
	var viol *Violation
	for _, j := range jobs {
		if j.res.Violation != nil && viol == nil {
			viol = j.res.Violation
		}
		for k := range j.res.KnownHits {
			e.knownHit[k] = knownText[k]
		}
	}
	for _, k := range sortedKeys(e.knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, e.knownHit[k])
	}
	if viol != nil {
		fmt.Printf("violated: %s %q at %s; on the compiled program: %s\n", viol.Kind, viol.Msg, viol.Where, viol.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, viol.Replay)
		rc = 1
	}
	if err := e.evidence(evf, jobs, *tier, time.Since(start).Seconds(), loadS, viol); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	if *verbose || os.Getenv("VERIF_VERBOSE") != "" {
		e.summary(jobs, loadS, time.Since(start).Seconds())
	} else {
		for _, j := range jobs {
			u := len(j.res.Unsupported)
			und := 0
			for _, s := range j.res.Sites {
				und += s.Undecided
			}
			fmt.Printf("%s: %d paths (%d complete), %d queries, %.1fs", j.name, j.res.Paths, j.res.Completed, j.res.Solver.Queries, j.res.Seconds)
			if u+und+len(j.res.Incomplete) > 0 {
				fmt.Printf(", reduced: %d unsupported, %d undecided, %d incomplete", u, und, len(j.res.Incomplete))
			}
			if len(j.res.Conf.Mismatch) > 0 {
				fmt.Printf(", CONFORMANCE MISMATCH")
			}
			fmt.Println()
		}
	}
	return rc
}

func (e *Engine) summary(jobs []*Job, loadS, total float64) {
	fmt.Printf("load %.1fs total %.1fs native runs %d\n", loadS, total, e.natRuns)
	for _, j := range jobs {
		r := &j.res
		fmt.Printf("%s.%s: paths %d complete %d ends %v steps %d branches %d merges %d  %.1fs\n", j.pkg, j.name, r.Paths, r.Completed, r.EndWhy, r.Steps, r.Branches, r.Merges, r.Seconds)
		fmt.Printf("   solver: %d queries %d sat %d unsat %d unknown %.1fs restarts %d fallback %d errors %d\n", r.Solver.Queries, r.Solver.Sat, r.Solver.Unsat, r.Solver.Unknown, r.Solver.TimeSec, r.Solver.Restarts, r.Solver.Fallback, r.Solver.Errors)
		for _, k := range sortedKeys(r.Sites) {
			s := r.Sites[k]
			fmt.Printf("   site %s: reached %d discharged %d (trivial %d) undecided %d spurious %d known %d\n", k, s.Reached, s.Proved, s.Trivial, s.Undecided, s.Spurious, s.Known)
		}
		for k, n := range r.Unsupported {
			fmt.Printf("   UNSUPPORTED %s x%d\n", k, n)
		}
		for k, n := range r.Incomplete {
			fmt.Printf("   INCOMPLETE %s x%d\n", k, n)
		}
		if r.Par != nil {
			fmt.Printf("   schedules: %v, hot sites %v\n", r.Par, j.hotSites())
		}
		fmt.Printf("   conformance: %d run %d ok %d skipped\n", r.Conf.Run, r.Conf.OK, r.Conf.Skipped)
		for _, m := range r.Conf.Mismatch {
			fmt.Printf("   MISMATCH %s\n", m)
		}
		for _, s := range r.Spurious {
			fmt.Printf("   SPURIOUS %s\n", s)
		}
	}
	for _, k := range sortedKeys(e.notes) {
		fmt.Printf("note: %s (x%d)\n", k, e.notes[k])
	}
}

func replayMain(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		b, err = os.ReadFile(filepath.Join(verifDir(), args[0]))
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property string `json:"property"`
		Package  string `json:"package"`
		Harness  string `json:"harness"`
		Case     Case   `json:"case"`
	}
	if err := json.NewDecoder(bytes.NewReader(b)).Decode(&r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e := newEngine(r.Property, r.Case.Thorough)
	_, names := harnessesFor(e.verif, r.Property)
	if gatedDirs(e.verif, r.Package) != nil {
		err := e.gate([]string{r.Package})
		defer os.RemoveAll(e.gateDir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	e.nat = e.newNative([]string{r.Package}, map[string][]string{r.Package: names[r.Package]})
	defer e.nat.Close()
	o := e.nat.Run(r.Package, &r.Case, true)
	fmt.Printf("%s: %s\n", o.Status, o.Msg)
	if o.failed() {
		return 1
	}
	return 0
}

var _ = exec.Command
