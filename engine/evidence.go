package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func (e *Engine) evidence(file string, jobs []*Job, tier string, wall, loadS float64, viol *Violation) error {
	funcs := map[string]bool{}
	var std int
	var sol SolverStats
	states, steps, traces := 0, int64(0), 0
	undecided, spurious, discharged, reached, trivial := 0, 0, 0, 0, 0
	var hs []interface{}
	var samples []interface{}
	var assumptions []string
	reduced := []string{}
	for _, j := range jobs {
		r := &j.res
		for f := range r.Funcs {
			if strings.Contains(f, e.module) && !strings.Contains(f, "/zzverif/") {
				funcs[strings.ReplaceAll(f, e.module+"/", "")] = true
			} else if !strings.Contains(f, "/zzverif/") {
				std++
			}
		}
		sol.Queries += r.Solver.Queries
		sol.Sat += r.Solver.Sat
		sol.Unsat += r.Solver.Unsat
		sol.Unknown += r.Solver.Unknown
		sol.TimeSec += r.Solver.TimeSec
		sol.Restarts += r.Solver.Restarts
		sol.Fallback += r.Solver.Fallback
		sol.Errors += r.Solver.Errors
		states += r.Paths
		steps += r.Steps
		traces += r.Conf.OK
		var sites []*siteStat
		for _, k := range sortedKeys(r.Sites) {
			s := r.Sites[k]
			sites = append(sites, s)
			undecided += s.Undecided
			spurious += s.Spurious
			discharged += s.Proved
			reached += s.Reached
			trivial += s.Trivial
			if s.Undecided > 0 {
				reduced = append(reduced, fmt.Sprintf("%s: %d undecided queries for %q", j.name, s.Undecided, s.Msg))
			}
		}
		if r.Paths == 0 {
			reduced = append(reduced, j.name+": not run")
		}
		if r.Paths > 0 && r.Completed == 0 && viol == nil {
			reduced = append(reduced, j.name+": no path completed")
		}
		for _, k := range sortedKeys(r.Unsupported) {
			reduced = append(reduced, fmt.Sprintf("%s: not encoded: %s (%d paths)", j.name, k, r.Unsupported[k]))
		}
		for _, k := range sortedKeys(r.Incomplete) {
			reduced = append(reduced, fmt.Sprintf("%s: %s (%d)", j.name, k, r.Incomplete[k]))
		}
		arith := "bit-vectors and IEEE-754 floats"
		if j.reals {
			arith = "bit-vectors; float64 over the exact reals (counterexamples are confirmed in float64)"
		}
		hs = append(hs, map[string]interface{}{
			"harness": j.pkg + "." + j.name, "doc": j.doc, "arithmetic": arith,
			"paths": r.Paths, "completed_paths": r.Completed, "other_path_ends": r.EndWhy, "instructions": r.Steps,
			"forks": r.Branches, "state_merges": r.Merges, "assertions": sites,
			"queries": r.Solver.Queries, "solver_s": round2(r.Solver.TimeSec), "wall_s": round2(r.Seconds),
			"concurrency":    r.Par,
			"native_samples": map[string]int{"run": r.Conf.Run, "agreed": r.Conf.OK, "no_model": r.Conf.Skipped},
			"mismatches":     r.Conf.Mismatch,
			"spurious":       r.Spurious,
		})
		for i, c := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"harness": j.name, "inputs": c.Inputs, "observed": obsText(c.Expect)})
			}
		}
	}
	for _, k := range sortedKeys(e.notes) {
		assumptions = append(assumptions, fmt.Sprintf("%s (%d times)", k, e.notes[k]))
	}
	assumptions = append(assumptions, "bounds are those stated in each harness's doc; nothing is claimed beyond them",
		"the symbolic interpreter of go/ssa and the stubs listed above are trusted up to the native replays counted here",
		"memory is sequentially consistent in concurrent harnesses")
	samp := samples
	if len(samp) == 0 {
		samp = []interface{}{"no completed path was sampled"}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	viols := 0
	if viol != nil {
		viols = 1
	}
	out := map[string]interface{}{
		"property": e.prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round2(wall), "violations": viols,
		"assumptions": assumptions,
		"coverage": map[string]interface{}{
			"states": states, "transitions": steps, "traces_validated_against_impl": traces, "samples": samp,
			"explanation":            "states: symbolic execution paths explored (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically; traces: completed paths whose solver model was run on the compiled code with identical observations",
			"harnesses":              hs,
			"functions_encoded":      sortedSet(funcs),
			"std_functions_encoded":  std,
			"assertions_reached":     reached,
			"assertions_discharged":  discharged,
			"assertions_trivial":     trivial,
			"assertions_undecided":   undecided,
			"unconfirmed_models":     spurious,
			"queries":                sol.Queries,
			"queries_sat":            sol.Sat,
			"queries_unsat":          sol.Unsat,
			"queries_unknown":        sol.Unknown,
			"solver_seconds":         round2(sol.TimeSec),
			"solver_restarts":        sol.Restarts,
			"solver_fallbacks":       sol.Fallback,
			"solver_error_lines":     sol.Errors,
			"native_runs":            e.natRuns,
			"load_seconds":           round2(loadS),
			"reduced_bounds":         reduced,
			"exhaustive":             len(reduced) == 0 && viol == nil,
			"known_findings_matched": sortedKeys(e.knownHit),
		},
	}
	if viol != nil {
		out["coverage"].(map[string]interface{})["violation"] = viol
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(file, append(b, '\n'), 0644)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func obsText(os []CaseObs) []string {
	var r []string
	for _, o := range os {
		switch {
		case o.Kind == "f" && len(o.V) == 1:
			r = append(r, fmt.Sprintf("%s=%v", o.Label, f64from(o.V[0])))
		case o.Kind == "b":
			b := make([]byte, len(o.V))
			for i := range b {
				b[i] = byte(o.V[i])
			}
			r = append(r, fmt.Sprintf("%s=%q", o.Label, b))
		default:
			r = append(r, fmt.Sprintf("%s=%v", o.Label, o.V))
		}
	}
	return r
}
