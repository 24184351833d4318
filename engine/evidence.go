package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type HStats struct {
	Harness       string         `json:"harness"`
	Paths         int            `json:"paths"`
	Pruned        int            `json:"paths_cut_by_assumptions"`
	Forks         int64          `json:"forks"`
	Branches      int64          `json:"symbolic_branches"`
	Instr         int64          `json:"ssa_instructions_executed"`
	Asserts       int64          `json:"assertions_reached"`
	AssertsSMT    int64          `json:"assertions_sent_to_solver"`
	Validated     int            `json:"paths_replayed_natively_and_agreeing"`
	Mismatches    int            `json:"native_mismatches"`
	NotReproduced int            `json:"counterexamples_not_reproduced"`
	Incomplete    int            `json:"paths_incomplete"`
	Unknown       int            `json:"paths_with_solver_unknown"`
	Violations    int            `json:"violations"`
	KnownHits     int            `json:"known_finding_hits"`
	Exhausted     bool           `json:"bound_fully_explored"`
	Why           []string       `json:"reduced_bound_reasons,omitempty"`
	Reached       map[string]int `json:"assertion_sites_reached"`
	WallS         float64        `json:"wall_s"`
	MismatchEx    []string       `json:"mismatch_examples,omitempty"`
}

type Evidence struct {
	prop, tier string
	hs         []*HStats
	samples    []any
	out        map[string]any
	queries    int
	solverS    float64
}

func newEvidence(prop, tier string) *Evidence { return &Evidence{prop: prop, tier: tier} }

func (e *Evidence) harness(h string, c Check, r *Run) *HStats {
	s := &HStats{Harness: h}
	e.hs = append(e.hs, s)
	return s
}

func (s *HStats) mismatch(c Candidate, n nres) {
	s.Mismatches++
	if len(s.MismatchEx) < 4 {
		s.MismatchEx = append(s.MismatchEx, fmt.Sprintf("%s: engine %s %s %q / native %s %s %q", describe(c), c.Kind, c.Label+c.Where, c.Obs, n.Outcome, n.Label, n.Obs))
	}
}

func (s *HStats) finish(r *Run) {
	s.Paths, s.Pruned, s.Forks, s.Branches, s.Instr = r.Paths, r.Assumed, r.Forks, r.Branches, r.Steps
	s.Asserts, s.AssertsSMT = r.Asserts, r.AssertsSMT
	s.Unknown = r.UnknownPaths
	s.Reached = r.Reached
	s.WallS = r.Wall.Seconds()
	s.Exhausted = !r.timeout && r.Unsup == 0 && r.StepOut == 0 && r.UnknownPaths == 0 && s.Mismatches == 0
	if r.timeout {
		s.Why = append(s.Why, fmt.Sprintf("time budget reached with %d unexplored prefixes", len(r.stack)))
	}
	var ks []string
	for k, n := range r.UnsupMsgs {
		ks = append(ks, fmt.Sprintf("%d× %s", n, k))
	}
	sort.Strings(ks)
	if len(ks) > 12 {
		ks = ks[:12]
	}
	s.Why = append(s.Why, ks...)
	if r.UnknownPaths > 0 {
		s.Why = append(s.Why, "solver unknown")
	}
}

func (e *Evidence) addSamples(r *Run, res []nres) {
	n := len(r.Cands)
	for k := 0; k < 3 && n > 0; k++ {
		i := (n * (2*k + 1)) / 6
		c := r.Cands[i]
		e.samples = append(e.samples, map[string]any{"harness": c.Harness, "inputs": describe(c), "outcome": c.Kind, "observed": c.Obs, "native": res[i].Outcome})
	}
}

func (e *Evidence) finish(eng *Engine, ins []*Interp, checks []Check, viol int, wall time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, pruned, val, mism, inc, viols int
	var forks, br, as, smt int64
	ex := true
	for _, h := range e.hs {
		paths += h.Paths
		pruned += h.Pruned
		val += h.Validated
		mism += h.Mismatches
		inc += h.Incomplete
		viols += h.Violations
		forks += h.Forks
		br += h.Branches
		as += h.Asserts
		smt += h.AssertsSMT
		ex = ex && h.Exhausted
	}
	q, sat, unsat, unk, dis := 0, 0, 0, 0, 0
	var st time.Duration
	cross := 0
	fns := map[string]bool{}
	for _, in := range ins {
		q += in.sol.Queries
		sat += in.sol.Sat
		unsat += in.sol.Unsat
		unk += in.sol.Unknown
		dis += in.sol.Disag
		st += in.sol.Time
		if in.sol.cross != nil {
			cross += in.sol.cross.Queries
		}
		for _, f := range in.fns {
			if f.inMod && f.calls > 0 {
				fns[f.name] = true
			}
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	e.queries, e.solverS = q, st.Seconds()
	var bounds, assume []string
	seen := map[string]bool{}
	for _, c := range checks {
		bounds = append(bounds, c.Bounds)
		for _, a := range c.Assume {
			if !seen[a] {
				seen[a] = true
				assume = append(assume, a)
			}
		}
	}
	cov := map[string]any{
		"states":                        paths + pruned,
		"transitions":                   br,
		"traces_validated_against_impl": val,
		"samples":                       e.samples,
		"exhaustive":                    ex && viol == 0,
		"rule":                          "a state is one feasible symbolic path of a harness over the SSA of the current source, ended or cut; a transition is one symbolic branch decided for all inputs of the path; each path's solver model is replayed against the native build and its observations compared",
		"bounds":                        bounds,
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fl),
		"paths_completed":               paths,
		"forks":                         forks,
		"assertions_reached":            as,
		"assertions_sent_to_solver":     smt,
		"solver":                        map[string]any{"name": "z3 4.8.12 (QF_BV)", "queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "time_s": st.Seconds(), "cross_checked_with_cvc5": cross, "cross_disagreements": dis},
		"native_mismatches":             mism,
		"paths_incomplete":              inc,
		"harnesses":                     e.hs,
		"load_s":                        eng.LoadSec,
	}
	e.out = map[string]any{
		"property": e.prop, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": append(assume, commonAssumptions...), "wall_s": wall.Seconds(), "violations": viol,
	}
}

var commonAssumptions = []string{
	"the engine's semantics of go/ssa and its stubs (atomics/locks sequential, os environment as a map, text/template executed by a model over its real parse trees, terminal absent) match Go's; every completed path is replayed natively to check this",
	"inputs outside the stated bounds are not covered",
}

func (e *Evidence) summary() string {
	c := e.out["coverage"].(map[string]any)
	return fmt.Sprintf("paths=%v cut=%v branches=%v asserts=%v (smt %v) queries=%d solver=%.1fs validated=%v mismatches=%v incomplete=%v exhaustive=%v violations=%v wall=%.1fs",
		c["paths_completed"], c["states"].(int)-c["paths_completed"].(int), c["transitions"], c["assertions_reached"], c["assertions_sent_to_solver"], e.queries, e.solverS,
		c["traces_validated_against_impl"], c["native_mismatches"], c["paths_incomplete"], c["exhaustive"], e.out["violations"], e.out["wall_s"])
}

func (e *Evidence) write(f string) error {
	os.MkdirAll(filepath.Dir(f), 0o755)
	b, err := json.MarshalIndent(e.out, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(f, b, 0o644)
}
