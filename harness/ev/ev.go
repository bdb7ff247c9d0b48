// Package ev is the monitor bookkeeping shared by all checks: it counts what
// was observed, collects violations, filters listed known findings, writes the
// evidence file and decides the exit status.
package ev

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

type Run struct {
	mu        sync.Mutex
	Prop      string
	Tier      string
	Seed      int64
	Level     string
	Rule      string
	start     time.Time
	evals     int64
	distinct  map[uint64]struct{}
	samples   []any
	sampleKey map[string]bool
	Counters  map[string]int64
	viols     []Violation
	violSeen  map[string]int
	known     map[string]string
	knownHit  map[string]bool
	Assume    []string
	Extra     map[string]any
}

func Root() string {
	if v := os.Getenv("VERIF_ROOT"); v != "" {
		return v
	}
	return "/verif"
}

func New(prop string) *Run {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Prop: prop, Tier: tier, Seed: seed, Level: "exploration", start: time.Now(),
		distinct: map[uint64]struct{}{}, sampleKey: map[string]bool{}, Counters: map[string]int64{},
		violSeen: map[string]int{}, known: map[string]string{}, knownHit: map[string]bool{}, Extra: map[string]any{}}
	b, _ := os.ReadFile(filepath.Join(Root(), "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// KNOWN-FINDING: property=C14 key=<key> <text>
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "KNOWN-FINDING:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			r.known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks an exploration budget per tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func (r *Run) Rand(stream string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", r.Seed, r.Prop, stream)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// Eval records one judged execution. class identifies the case; nontrivial
// says whether the monitor had something to judge in it.
func (r *Run) Eval(class string, nontrivial bool) {
	r.mu.Lock()
	r.evals++
	if nontrivial {
		r.distinct[hash(class)] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.Counters[name] += n
	r.mu.Unlock()
}

// Sample keeps one example per kind.
func (r *Run) Sample(kind string, v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.sampleKey[kind] || len(r.samples) >= 40 {
		return
	}
	r.sampleKey[kind] = true
	r.samples = append(r.samples, map[string]any{"kind": kind, "case": v})
}

// Violate records a violation identified by key (stable across runs: the call
// site / scenario that fails), with full detail of the failing input.
func (r *Run) Violate(key, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key = strings.ReplaceAll(key, " ", "_")
	if _, ok := r.known[key]; ok {
		r.knownHit[key] = true
		return
	}
	r.violSeen[key]++
	if r.violSeen[key] > 3 || len(r.viols) > 60 {
		return
	}
	r.viols = append(r.viols, Violation{key, fmt.Sprintf(format, args...)})
}

// Known reports whether the key is listed, so that a scenario can avoid
// cascading from it.
func (r *Run) Known(key string) bool { _, ok := r.known[key]; return ok }

// Guard runs f and turns a panic into a violation.
func (r *Run) Guard(key, what string, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.Violate(key, "panic in %s: %v\n%s", what, p, st)
			ok = false
		}
	}()
	f()
	return true
}

func (r *Run) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return len(r.viols) > 0 }

type dump struct {
	Evals    int64
	Distinct []uint64
	Counters map[string]int64
	Samples  []any
	Hit      []string
}

// Dump saves what was observed for the process that finishes the run.
func (r *Run) Dump(file string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := dump{Evals: r.evals, Counters: r.Counters, Samples: r.samples}
	for h := range r.distinct {
		d.Distinct = append(d.Distinct, h)
	}
	for k := range r.knownHit {
		d.Hit = append(d.Hit, k)
	}
	b, _ := json.Marshal(d)
	os.WriteFile(file, b, 0o644)
}

// Absorb adds what an earlier process observed.
func (r *Run) Absorb(file string) {
	b, err := os.ReadFile(file)
	var d dump
	if err != nil || json.Unmarshal(b, &d) != nil {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += d.Evals
	for _, h := range d.Distinct {
		r.distinct[h] = struct{}{}
	}
	for k, v := range d.Counters {
		r.Counters[k] += v
	}
	for _, k := range d.Hit {
		r.knownHit[k] = true
	}
	r.samples = append(r.samples, d.Samples...)
}

// Finish writes evidence, prints the verdict and exits.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	dir := filepath.Join(Root(), "evidence")
	os.MkdirAll(dir, 0o755)
	cov := map[string]any{
		"evaluations":         r.evals,
		"distinct_nontrivial": len(r.distinct),
		"rule":                r.Rule,
		"samples":             r.samples,
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{}
	}
	for k, v := range r.Counters {
		cov["observed_"+k] = v
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	known := []string{}
	for k := range r.knownHit {
		known = append(known, k)
	}
	sort.Strings(known)
	if len(known) > 0 {
		cov["known_findings_reproduced"] = known
	}
	out := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": cov, "assumptions": r.Assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.viols)}
	if r.Assume == nil {
		out["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", r.Prop, k, r.known[k])
	}
	replay := filepath.Join(dir, "replay-"+r.Prop+".json")
	os.Remove(replay)
	if len(r.viols) > 0 {
		vb, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "seed": r.Seed, "tier": r.Tier,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s", r.Seed, r.Tier, r.Prop), "violations": r.viols}, "", " ")
		os.WriteFile(replay, append(vb, '\n'), 0o644)
		for i, v := range r.viols {
			if i >= 12 {
				fmt.Printf("  ... %d more in %s\n", len(r.viols)-i, replay)
				break
			}
			fmt.Printf("  [%s] %s\n", v.Key, v.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
		os.Exit(1)
	}
	if r.evals == 0 {
		fmt.Println("no evaluation was made: the check gives no answer")
		os.Exit(3)
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d known=%d (%.1fs)\n", r.Prop, r.evals, len(r.distinct), len(known), time.Since(r.start).Seconds())
	os.Exit(0)
}
