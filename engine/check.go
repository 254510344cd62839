package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"golang.org/x/tools/go/types/typeutil"
)

var tcanonHasher = typeutil.MakeHasher()

type ReplayFile struct {
	Property string         `json:"property"`
	Module   string         `json:"module"`
	Harness  string         `json:"harness"`
	Fn       string         `json:"fn"`
	Params   map[string]int `json:"params"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"message"`
	Inputs   []InputVal     `json:"inputs"`
	Native   string         `json:"native_result"`
	HowTo    string         `json:"how_to"`
}

// KnownFinding lines of known_findings.jsonl
type KnownFinding struct {
	Property string `json:"property"`
	Fn       string `json:"fn"`
	Msg      string `json:"message"` // exact first line of the violation
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func knownFindings() []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		var k KnownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Fixed == "" {
			out = append(out, k)
		}
	}
	return out
}

func cmdCheck(f string) int {
	t0 := time.Now()
	c := readCfg(f)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	evdir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(evdir, c.Property+"-cex*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	var results []*RunResult
	var t *Target
	known := knownFindings()
	knownHit := map[string]bool{}
	nviol := 0
	var unrep []string
	var samples []any
	fns := map[string]bool{}
	hard := 780 * time.Second
	if tier == "thorough" {
		hard = 6 * time.Hour
	}
	var skipped []string
	loadS := 0.0
	for i := range c.Runs {
		rc := &c.Runs[i]
		tc := rc.Quick
		if tier == "thorough" {
			if rc.Thorough.Params != nil || rc.Thorough.Time > 0 {
				tc = rc.Thorough
			} else {
				tc.Time *= 10
			}
		}
		if tc.Skip {
			continue
		}
		if time.Since(t0) > hard {
			skipped = append(skipped, rc.Fn)
			continue
		}
		if t == nil || t.module != rc.Module || t.harness != rc.Harness {
			if t != nil {
				for _, n := range encodedFns(t.modp) {
					fns[n] = true
				}
				t.cleanup()
				resetGlobals()
			}
			t = load(rc.Module, rc.Harness)
			loadS += t.loadS + t.initS
		}
		if tc.Time == 0 {
			tc.Time = 60
		}
		for _, p := range variants(rc, tc) {
			b := time.Duration(tc.Time) * time.Second
			if left := hard - time.Since(t0); b > left {
				b = max(left, time.Second)
			}
			r := t.runFn(rc, p, b, tc.Paths)
			results = append(results, r)
			repSites := map[string]bool{}
			for _, v := range r.Viol {
				if repSites[v.Site] {
					continue
				}
				if !t.confirm(rc.Fn, p, v) {
					if v.Kind != "steps" {
						unrep = append(unrep, fmt.Sprintf("%s %v: %s inputs[%s] native: %s", rc.Fn, p, firstLine(v.Msg), fmtInputs(v.Inputs), v.Native))
					}
					continue
				}
				repSites[v.Site] = true
				isKnown := false
				for _, k := range known {
					if k.Property == c.Property && k.Fn == rc.Fn && k.Msg == firstLine(v.Msg) {
						isKnown = true
						if !knownHit[k.What] {
							knownHit[k.What] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, k.What)
						}
					}
				}
				if isKnown {
					continue
				}
				nviol++
				rf := ReplayFile{c.Property, rc.Module, rc.Harness, rc.Fn, p, v.Kind, v.Msg, v.Inputs, v.Native, "cd /verif && bin/gosym replay <this file>"}
				b, _ := json.MarshalIndent(rf, "", " ")
				path := filepath.Join(evdir, fmt.Sprintf("%s-cex%d.json", c.Property, nviol))
				os.WriteFile(path, b, 0o644)
				fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
				fmt.Printf("  harness %s: %s\n  inputs: %s\n", rc.Fn, firstLine(v.Msg), fmtInputs(v.Inputs))
			}
			nv := 6
			if tier == "thorough" {
				nv = 60
			}
			t.validate(rc, p, r, nv)
			for j := 0; j < len(r.samples) && j < 2; j++ {
				samples = append(samples, map[string]any{"harness": rc.Fn, "params": p, "path_model": fmtInputs(r.samples[j].Inputs), "observed": r.samples[j].Obs})
			}
			fmt.Printf("%s %v: paths=%d exhausted=%v assertions=%d (solver %d) queries=%d solver=%.1fs wall=%.1fs cex=%d native=%d/%d%s\n", r.Fn, p, r.Paths, r.Exhaustive, r.Asserts, r.AssertSMT, r.Queries, r.SolverS, r.WallS, len(r.Viol), r.Native, r.Native+r.NativeBad, missing(r))
		}
	}
	if t != nil {
		for _, n := range encodedFns(t.modp) {
			fns[n] = true
		}
		t.cleanup()
	}
	writeEvidence(c, tier, seed, results, fns, samples, unrep, skipped, nviol, time.Since(t0).Seconds(), loadS, sortedKeys(knownHit))
	for _, u := range unrep {
		fmt.Println("UNREPRODUCED counterexample (not reported):", u)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func missing(r *RunResult) string {
	s := ""
	if len(r.Missing) > 0 {
		s += fmt.Sprintf(" MISSING-WITNESS%v", r.Missing)
	}
	if len(r.Unsup) > 0 {
		for k, n := range r.Unsup {
			s += fmt.Sprintf("\n  UNSUPPORTED x%d: %s", n, k)
			break
		}
	}
	if r.Why != "" {
		s += " stopped: " + r.Why
	}
	return s
}

func writeEvidence(c *CheckCfg, tier string, seed int, rs []*RunResult, fns map[string]bool, samples []any, unrep, skipped []string, nviol int, wall, loadS float64, kf []string) {
	var paths, forks, queries, native, steps, asserts, assertSMT, unk int64
	var solverS float64
	exh := true
	for _, r := range rs {
		paths += r.Paths
		forks += r.Forks
		queries += r.Queries
		native += int64(r.Native)
		steps += r.Steps
		asserts += r.Asserts
		assertSMT += r.AssertSMT
		unk += r.Unknown
		solverS += r.SolverS
		exh = exh && r.Exhaustive
	}
	if len(samples) > 12 {
		samples = samples[:12]
	}
	ev := map[string]any{
		"property": c.Property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                          paths + forks,
			"transitions":                     steps,
			"traces_validated_against_impl":   native,
			"samples":                         samples,
			"states_meaning":                  "symbolic states: completed paths plus fork points; transitions: SSA instructions executed symbolically",
			"paths":                           paths,
			"functions_encoded":               sortedKeys(fns),
			"functions_encoded_count":         len(fns),
			"solver":                          solverBin,
			"solver_queries":                  queries,
			"solver_s":                        round3(solverS),
			"assertions_on_paths":             asserts,
			"assertions_decided_by_solver":    assertSMT,
			"unknown_queries":                 unk,
			"all_runs_exhausted_their_bounds": exh,
			"runs":                            rs,
			"unreproduced_counterexamples":    unrep,
			"skipped_runs":                    skipped,
			"known_findings_seen":             kf,
			"outside_the_claim":               c.Outside,
			"load_s":                          round3(loadS),
		},
		"assumptions": c.Assumptions, "wall_s": round3(wall), "violations": nviol,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", c.Property+".json"), b, 0o644)
}

func cmdReplay(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal("%v", err)
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	t := &Target{module: r.Module, harness: r.Harness, overlay: overlayFiles(r.Module, r.Harness), modp: modPath(r.Module)}
	defer t.cleanup()
	v := &Violation{Kind: r.Kind, Msg: r.Msg, Inputs: r.Inputs}
	ok := t.confirm(r.Fn, r.Params, v)
	fmt.Printf("reproduced=%v: %s\n", ok, v.Native)
	if ok {
		return 1
	}
	return 0
}
