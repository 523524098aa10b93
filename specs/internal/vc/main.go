package vc

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"testing"
	"time"
)

// E2E is the context of an executable oracle (a bounded check: it runs the
// real code on generated cases and compares with the property's statement).
type E2E struct {
	*Rand
	Name     string
	Tier     string
	Work     string // scratch directory
	Repo     string
	Data     string // /verif/specs/testdata
	Seed     int64
	Rule     string
	end      time.Time
	cases    int
	distinct map[string]bool
	samples  []string
	failures []e2eFailure
	seen     map[string]int
}

type e2eFailure struct{ Key, Detail string }

// N picks the number of cases for the tier.
func (t *E2E) N(quick, thorough int) int {
	if t.Tier == "thorough" {
		return thorough
	}
	return quick
}

// More reports whether there is time for another case.
func (t *E2E) More() bool { return time.Now().Before(t.end) }

// Case records that a case was run.
func (t *E2E) Case(desc string) {
	t.cases++
	if !t.distinct[desc] {
		t.distinct[desc] = true
		if len(t.samples) < 3 {
			t.samples = append(t.samples, trunc(desc, 700))
		}
	}
}

// Fail records a violation. key names the kind of failure (stable between
// runs); detail holds the failing input.
func (t *E2E) Fail(key, format string, args ...any) {
	t.seen[key]++
	if t.seen[key] > 1 || len(t.failures) > 20 {
		return
	}
	t.failures = append(t.failures, e2eFailure{key, trunc(fmt.Sprintf(format, args...), 8000)})
}

// Try runs f and turns a panic into a failure with the given key.
func (t *E2E) Try(key string, input any, f func()) {
	defer func() {
		if p := recover(); p != nil {
			t.Fail(key, "panic: %v\ninput: %s\n%s", p, trunc(fmt.Sprint(input), 4000), trunc(string(debug.Stack()), 3000))
		}
	}()
	f()
}

// Reseed makes the following random choices a function of i.
func (t *E2E) Reseed(i int) {
	t.Rand.Rand = rand.New(rand.NewSource(t.Seed*7919 + int64(i)))
}

func envInt(k string, d int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(k), 10, 64); err == nil {
		return n
	}
	return d
}

type e2eReport struct {
	Name     string
	Cases    int
	Distinct int
	Rule     string
	Samples  []string
	Failures []e2eFailure
}

// Main runs contracts and oracles and writes a JSON report.
func Main(tt *testing.T, harnesses map[string]any, oracles map[string]func(*E2E)) {
	var out struct {
		Reports []Report
		E2E     []e2eReport
	}
	seed := envInt("VC_SEED", 1)
	per := time.Duration(envInt("VC_LIMIT_MS", 1500)) * time.Millisecond
	iters := int(envInt("VC_ITERS", 4000))
	total := time.Duration(envInt("VC_TOTAL_MS", 60000)) * time.Millisecond
	end := time.Now().Add(total)
	var names []string
	for n := range oracles {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		left := time.Until(end) / time.Duration(len(names)-i)
		t := &E2E{Name: n, Tier: os.Getenv("VC_TIER"), Work: os.Getenv("VC_WORK"), Repo: os.Getenv("VC_REPO"), Data: os.Getenv("VC_DATA"),
			Seed: seed, end: time.Now().Add(left), distinct: map[string]bool{}, seen: map[string]int{}}
		t.Rand = NewRand(seed)
		t.Try("panic", n, func() { oracles[n](t) })
		out.E2E = append(out.E2E, e2eReport{n, t.cases, len(t.distinct), t.Rule, t.samples, t.failures})
	}
	names = nil
	for n := range harnesses {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if time.Now().After(end.Add(5 * time.Second)) {
			break
		}
		out.Reports = append(out.Reports, Run(n, harnesses[n], iters, per, seed))
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		tt.Fatal(err)
	}
	if err := os.WriteFile(os.Getenv("VC_OUT"), b, 0o644); err != nil {
		tt.Fatal(err)
	}
}
