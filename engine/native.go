package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Case struct {
	Harness  string      `json:"harness"`
	Thorough bool        `json:"thorough"`
	Inputs   []CaseInput `json:"inputs"`
	Kind     string      `json:"kind,omitempty"`
	Msg      string      `json:"msg,omitempty"`
	Where    string      `json:"where,omitempty"`
	Expect   []CaseObs   `json:"-"`
}

type CaseInput struct {
	Kind  string            `json:"k"`
	Label string            `json:"l"`
	V     string            `json:"v,omitempty"`
	Hex   string            `json:"hex,omitempty"`
	Text  string            `json:"text,omitempty"`
	N     uint64            `json:"n,omitempty"`
	At    map[string]uint64 `json:"at,omitempty"`
	Sched json.RawMessage   `json:"sched,omitempty"`
}

type CaseObs struct {
	Label  string
	Kind   string
	V      []uint64
	Approx bool
}

type Outcome struct {
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Known  string `json:"known"`
	Obs    []struct {
		Label string   `json:"l"`
		Kind  string   `json:"k"`
		V     []string `json:"v"`
	} `json:"obs"`
}

func (o Outcome) failed() bool {
	return o.Status == "assert" || o.Status == "panic" || o.Status == "hang"
}

func f64bits(f float64) uint64 { return math.Float64bits(f) }
func f64from(b uint64) float64 { return math.Float64frombits(b) }

// Native runs harnesses compiled by the ordinary toolchain.
type Native struct {
	e     *Engine
	pkgs  []string
	dir   string
	once  sync.Once
	ready chan struct{}
	err   error
	n     atomic.Int64
	sem   chan struct{}
	runs  atomic.Int64
}

func (e *Engine) newNative(pkgs []string, names map[string][]string) *Native {
	n := &Native{e: e, pkgs: pkgs, ready: make(chan struct{}), sem: make(chan struct{}, 6)}
	dir, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		n.err = err
		close(n.ready)
		return n
	}
	n.dir = dir
	go func() {
		n.err = n.build(names)
		close(n.ready)
	}()
	return n
}

func (n *Native) build(names map[string][]string) error {
	e := n.e
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + e.module + "/internal/zzverif/nd\"\n")
	for _, p := range n.pkgs {
		fmt.Fprintf(&sb, "\t%q\n", e.module+"/internal/zzverif/"+p)
	}
	sb.WriteString(")\n\nfunc main() {\n\tnd.Main(map[string]func(){\n")
	for _, p := range n.pkgs {
		for _, h := range names[p] {
			fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h, p, h)
		}
	}
	sb.WriteString("\t})\n}\n")
	mainSrc := filepath.Join(n.dir, "main.go")
	if err := os.WriteFile(mainSrc, []byte(sb.String()), 0644); err != nil {
		return err
	}
	ov := e.overlayFiles(n.pkgs)
	ov[filepath.Join(e.repo, "internal/zzverif/zzmain/main.go")] = mainSrc
	if err := n.shims(ov); err != nil {
		return err
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, b, 0644); err != nil {
		return err
	}
	cmd := exec.Command(filepath.Join(findGo(), "go"), "build", "-buildvcs=false", "-overlay", ovf, "-o", filepath.Join(n.dir, "run"), "./internal/zzverif/zzmain")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	return nil
}

func (n *Native) shims(ov map[string]string) error { return nil }

func (n *Native) Close() {
	<-n.ready
	if n.dir != "" && strings.Contains(n.dir, "verif-native-") {
		os.RemoveAll(n.dir)
	}
}

// Run replays a case; with repeat, up to 60 times until it fails (map
// iteration order is not under our control).
func (n *Native) Run(pkg string, cs *Case, repeat bool) Outcome {
	<-n.ready
	if n.err != nil {
		return Outcome{Status: "nobuild", Msg: n.err.Error()}
	}
	n.sem <- struct{}{}
	defer func() { <-n.sem }()
	cs.Thorough = n.e.thorough
	id := n.n.Add(1)
	in := filepath.Join(n.dir, fmt.Sprintf("case%d.json", id))
	outf := filepath.Join(n.dir, fmt.Sprintf("out%d.json", id))
	b, _ := json.Marshal(cs)
	os.WriteFile(in, b, 0644)
	defer os.Remove(in)
	defer os.Remove(outf)
	max := 1
	if repeat {
		max = 60
	}
	var o Outcome
	for i := 0; i < max; i++ {
		o = n.exec(in, outf)
		if o.failed() {
			return o
		}
	}
	return o
}

func (n *Native) exec(in, outf string) Outcome {
	n.runs.Add(1)
	return execCase(filepath.Join(n.dir, "run"), n.dir, in, outf)
}

func execCase(bin, dir, in, outf string) Outcome {
	os.Remove(outf)
	scratch, err := os.MkdirTemp(dir, "scratch")
	if err != nil {
		return Outcome{Status: "error", Msg: err.Error()}
	}
	defer os.RemoveAll(scratch)
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 8000000; exec \"$0\"", bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_CASE="+in, "VERIF_OUT="+outf, "GOMAXPROCS=4", "GOTRACEBACK=single")
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	err = cmd.Run()
	if ctx.Err() != nil {
		return Outcome{Status: "hang", Msg: "no result after 20 s"}
	}
	var o Outcome
	if b, rerr := os.ReadFile(outf); rerr == nil && json.Unmarshal(b, &o) == nil && o.Status != "" {
		return o
	}
	line := stderr.String()
	if i := strings.IndexByte(line, '\n'); i > 0 {
		line = line[:i]
	}
	if strings.HasPrefix(line, "panic: ") || strings.HasPrefix(line, "fatal error: ") || strings.HasPrefix(line, "runtime: ") {
		return Outcome{Status: "panic", Msg: line}
	}
	return Outcome{Status: "error", Msg: fmt.Sprint(err, " ", line)}
}

func compareObs(exp []CaseObs, o Outcome) (bool, string) {
	if o.Status != "ok" {
		return false, "native status " + o.Status + " " + o.Msg
	}
	if len(exp) != len(o.Obs) {
		return false, fmt.Sprintf("%d observations, native %d", len(exp), len(o.Obs))
	}
	for i, x := range exp {
		y := o.Obs[i]
		if x.Label != y.Label || len(x.V) != len(y.V) {
			return false, fmt.Sprintf("observation %d: %s/%d, native %s/%d", i, x.Label, len(x.V), y.Label, len(y.V))
		}
		for k := range x.V {
			v, _ := strconv.ParseUint(y.V[k], 10, 64)
			if x.Kind == "f" {
				a, b := f64from(x.V[k]), f64from(v)
				if a == b || a != a && b != b {
					continue
				}
				if x.Approx && math.Abs(a-b) <= 1e-6*math.Max(math.Abs(a), math.Abs(b))+1e-9 {
					continue
				}
				return false, fmt.Sprintf("%s: %v, native %v", x.Label, a, b)
			}
			if v != x.V[k] {
				return false, fmt.Sprintf("%s[%d]: %d, native %d", x.Label, k, x.V[k], v)
			}
		}
	}
	return true, ""
}

func (e *Engine) writeReplay(j *Job, cs *Case, out Outcome) string {
	dir := filepath.Join(e.verif, "evidence", "replays")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s_%s.json", e.prop, j.name))
	m := map[string]interface{}{"property": e.prop, "package": j.pkg, "harness": j.name, "native": out.Status + ": " + out.Msg, "case": cs,
		"rerun": "bin/verifengine replay " + filepath.Join("evidence", "replays", filepath.Base(f))}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(f, b, 0644)
	return filepath.Join("evidence", "replays", filepath.Base(f))
}
