package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type knownFinding struct{ prop, key, what string }

var knownRe = regexp.MustCompile(`^known: property=(\S+) key=(\S+) (.*)$`)

func loadKnown(id string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if m := knownRe.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
			out = append(out, knownFinding{m[1], m[2], m[3]})
		}
	}
	return out
}

// noInput marks, on the VIOLATION line, an alarm without a failing input.
const noInput = " no-failing-input-found"

func report(ev env, t0 time.Time, specs []*specFile, results []*harnessResult, runs []*pkgRun, loadErr string) int {
	var viol []violation
	known := loadKnown(ev.id)
	knownHit := map[string]bool{}
	// concrete failures, by harness
	failed := map[string]violation{}
	e2eRan := false
	var e2eOut []map[string]interface{}
	concrete := map[string]map[string]interface{}{}
	evals, distinct := 0, 0
	var notes []string
	for _, p := range runs {
		for _, r := range p.rep.Reports {
			concrete[r.Harness] = map[string]interface{}{"runs": r.Runs, "satisfying_precondition": r.Runs - r.Discarded, "clauses_checked": r.Checked}
			evals += r.Runs
			if r.Failure != nil {
				failed[r.Harness] = violation{
					title: fmt.Sprintf("contract %s fails on the real code: %s", r.Harness, r.Failure.Clause),
					detail: fmt.Sprintf("contract: %s\nclause: %s\narguments (seed %d, iteration %d):\n%s\n%s\nreplay: cd %s && VERIF_SEED=%d VC_ITER=%d bin/govc check %s %s -only %s\n",
						r.Harness, r.Failure.Clause, r.Failure.Seed, r.Failure.Iteration, r.Failure.Args, r.Failure.Stack, verifDir, r.Failure.Seed, r.Failure.Iteration, ev.id, ev.tier, r.Harness),
					input: true,
				}
			}
		}
		for _, r := range p.rep.E2E {
			e2eRan = true
			evals += r.Cases
			distinct += r.Distinct
			m := map[string]interface{}{"oracle": r.Name, "cases": r.Cases, "distinct": r.Distinct, "rule": r.Rule, "samples": r.Samples, "kind": "bounded (concrete executions; never counted as proved)"}
			e2eOut = append(e2eOut, m)
			for _, f := range r.Failures {
				k := r.Name + "/" + f.Key
				hit := false
				for _, kf := range known {
					if kf.key == k {
						if !knownHit[k] {
							fmt.Printf("KNOWN-FINDING: property=%s %s\n", ev.id, kf.what)
						}
						knownHit[k] = true
						hit = true
					}
				}
				if hit {
					continue
				}
				viol = append(viol, violation{
					title:  fmt.Sprintf("%s: %s", r.Name, f.Key),
					detail: fmt.Sprintf("oracle: %s\ncase: %s\n%s\nreplay: cd %s && VERIF_SEED=%d bin/govc check %s %s -only %s\n", r.Name, f.Key, f.Detail, verifDir, ev.seed, ev.id, ev.tier, r.Name),
					input:  true,
				})
			}
		}
		if p.err != nil {
			kind := "did not finish"
			if p.build {
				kind = "does not compile against the current tree"
			}
			viol = append(viol, violation{title: "the executable contracts of " + p.pkg + " " + kind, detail: fmt.Sprintf("%v\n%s", p.err, tail(p.out, 6000))})
		}
	}
	_ = e2eRan
	if loadErr != "" {
		viol = append(viol, violation{title: "the contracts could not be loaded with the current tree", detail: loadErr})
	}
	for _, s := range specs {
		if s.bad != "" {
			viol = append(viol, violation{title: "contract file " + filepath.Base(s.src) + " does not type-check against the current tree: its obligations are not discharged", detail: s.bad})
		}
	}
	obl, dis := 0, 0
	bObl, bDis := 0, 0
	fns, models, stubs, assumes := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	bySolver := map[string]int{}
	var hout []map[string]interface{}
	seenFail := map[string]bool{}
	for _, r := range results {
		n, d := 0, 0
		kinds := map[string]int{}
		var open []string
		var names []string
		for _, o := range r.Obls {
			n++
			kinds[o.Kind]++
			if o.Kind != "safety" {
				names = append(names, o.Name)
			}
			if o.Status == "discharged" {
				d++
				bySolver[o.Solver]++
			} else {
				open = append(open, o.Name)
			}
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		for _, f := range r.Models {
			models[f] = true
		}
		for _, f := range r.Stubs {
			stubs[f] = true
		}
		for _, f := range r.Assumes {
			assumes[f] = true
		}
		hm := map[string]interface{}{"contract": r.H.Name, "obligations": n, "discharged": d, "kinds": kinds, "clauses": names}
		if r.Bounded {
			hm["bounded"] = true
			bObl += n
			bDis += d
		} else {
			obl += n
			dis += d
		}
		if c, ok := concrete[r.H.Name]; ok {
			hm["executed"] = c
		}
		if r.Unsupported != "" {
			hm["undischarged"] = r.Unsupported
		}
		hout = append(hout, hm)
		cf, hasCF := failed[r.H.Name]
		mk := func(title, detail string) {
			if seenFail[r.H.Name] {
				return
			}
			seenFail[r.H.Name] = true
			if hasCF {
				v := cf
				v.title += " (" + title + ")"
				v.detail = title + "\n" + cf.detail + "\n" + detail
				viol = append(viol, v)
			} else {
				viol = append(viol, violation{title: title, detail: detail})
			}
		}
		if r.Unsupported != "" {
			mk("obligations of "+r.H.Name+" cannot be generated: "+r.Unsupported, "")
		}
		if n == 0 && r.Unsupported == "" {
			mk(r.H.Name+" generated no obligations (vacuous)", "")
		}
		if r.Inconsist {
			mk(r.H.Name+": the assumptions are contradictory (vacuous)", "")
		}
		if c, ok := concrete[r.H.Name]; ok && c["runs"].(int) > 300 && c["satisfying_precondition"].(int) == 0 {
			notes = append(notes, r.H.Name+": no generated input satisfied the precondition")
		}
		for _, o := range r.Obls {
			if o.Status != "discharged" {
				mk(fmt.Sprintf("obligation not discharged: %s: %s [%s]", r.H.Name, o.Name, o.Status),
					fmt.Sprintf("contract: %s\nobligation: %s (%s)\nfunction: %s\nstatus: %s after %d ms\nall open obligations: %s\npath condition: %s\ngoal: %s\nsolver: %s\n", r.H.Name, o.Name, o.Kind, o.Fn, o.Status, o.Ms, strings.Join(open, "; "), trunc(o.PC.Short(), 1500), trunc(o.Cond.Short(), 1500), o.Detail))
			}
		}
	}
	for n, v := range failed {
		if !seenFail[n] {
			viol = append(viol, v)
		}
	}
	// failing inputs first
	sort.SliceStable(viol, func(i, j int) bool { return viol[i].input && !viol[j].input })
	for _, kf := range known {
		if !knownHit[kf.key] && ev.only == "" {
			notes = append(notes, "listed finding not observed in this run: "+kf.key)
		}
	}
	if ev.verbose {
		for _, r := range results {
			for _, o := range r.Obls {
				if o.Status != "discharged" || os.Getenv("GOVC_ALL") != "" {
					fmt.Printf("    %s %-10s %-9s %s (%s, %dms) in %s\n", r.H.Name, o.Status, o.Kind, o.Name, o.Solver, o.Ms, o.Fn)
				}
			}
			if r.Inconsist {
				fmt.Println("    INCONSISTENT", r.H.Name)
			}
		}
		for _, p := range runs {
			for _, r := range p.rep.Reports {
				fmt.Printf("    run %-40s %d runs, %d discarded, %d clauses\n", r.Harness, r.Runs, r.Discarded, r.Checked)
			}
			for _, r := range p.rep.E2E {
				fmt.Printf("    e2e %-40s %d cases, %d distinct\n", r.Name, r.Cases, r.Distinct)
			}
		}
		fmt.Printf("obligations %d discharged %d (bounded: %d/%d), solver %.1fs in %d runs, wall %.1fs\n", obl, dis, bDis, bObl, float64(atomic.LoadInt64(&solverTime))/1e9, atomic.LoadInt64(&solverRuns), time.Since(t0).Seconds())
		for _, n := range notes {
			fmt.Println("note:", n)
		}
	}
	// evidence
	trusted := []string{
		"govc (the verification-condition generator in /verif/govc): semantics of go/ssa instructions",
		"golang.org/x/tools/go/ssa translation of /repo's current source",
		"SMT solvers z3 and cvc5",
		"int, int64 and uint64 arithmetic treated as mathematical integers; narrower integers wrap",
		"strings are byte strings (SMT-LIB string theory over code points 0..255)",
		"slices reachable from a contract's inputs start at the origin of their backing array",
		"termination is not proved",
	}
	for m := range models {
		trusted = append(trusted, "assumed contract on dependency: "+m)
	}
	for m := range assumes {
		trusted = append(trusted, "assumption: "+m)
	}
	sort.Strings(trusted[7:])
	var vc []string
	for s := range stubs {
		vc = append(vc, s)
	}
	sort.Strings(vc)
	level := "proof"
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis,
		"checker_cmd":              fmt.Sprintf("bin/govc check %s %s (z3-new, cvc5, z3)", ev.id, ev.tier),
		"trusted_base":             trusted,
		"contracts":                hout,
		"functions_under_contract": sortStrings(fns),
		"callees_by_contract":      vc,
		"solver_seconds":           float64(atomic.LoadInt64(&solverTime)) / 1e9,
		"solver_runs":              atomic.LoadInt64(&solverRuns),
		"discharged_by":            bySolver,
		"bounded_obligations":      bObl, "bounded_discharged": bDis,
		"bounded_oracles": e2eOut,
		"notes":           notes,
	}
	if len(results) == 0 || obl == 0 {
		level = "exploration"
		cov["evaluations"] = evals
		cov["distinct_nontrivial"] = distinct
		cov["rule"] = "see bounded_oracles"
		var ss []interface{}
		for _, m := range e2eOut {
			for _, s := range m["samples"].([]string) {
				ss = append(ss, s)
			}
		}
		cov["samples"] = ss
	}
	evd := map[string]interface{}{
		"property": ev.id, "tier": ev.tier, "seed": ev.seed, "level": level,
		"coverage": cov, "assumptions": trusted, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	if ev.only == "" {
		dir := filepath.Join(verifDir, "evidence")
		_ = os.MkdirAll(dir, 0o755)
		b, _ := json.MarshalIndent(evd, "", " ")
		_ = os.WriteFile(filepath.Join(dir, ev.id+".json"), append(b, '\n'), 0o644)
	}
	if len(viol) == 0 && obl+bObl+evals == 0 {
		fmt.Printf("nothing was checked for property %s\n", ev.id)
		return 2
	}
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d bounded=%d/%d executions=%d wall=%.1fs\n", ev.id, obl, dis, bDis, bObl, evals, time.Since(t0).Seconds())
		return 0
	}
	dir := filepath.Join(verifDir, "replay", ev.id)
	_ = os.MkdirAll(dir, 0o755)
	for i, v := range viol {
		if i >= 12 {
			fmt.Printf("... %d more\n", len(viol)-i)
			break
		}
		f := filepath.Join(dir, fmt.Sprintf("%d.txt", i))
		_ = os.WriteFile(f, []byte(v.title+"\n\n"+v.detail), 0o644)
		fmt.Printf("# %s\n", trunc(strings.ReplaceAll(v.title, "\n", " "), 300))
		suffix := noInput
		if v.input {
			suffix = ""
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", ev.id, f, suffix)
	}
	return 1
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
