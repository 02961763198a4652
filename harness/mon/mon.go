// Package mon is the monitoring kit shared by all checks: deterministic random
// source, event and coverage counters, violation reports, known findings and
// the evidence file.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
)

// Finding is an entry of known_findings.json: a genuine defect of the code
// under test that is recorded rather than repaired.
type Finding struct {
	Property    string `json:"property"`
	Fingerprint string `json:"fingerprint"`
	What        string `json:"what"`
}

type knownFile struct {
	Findings []Finding `json:"findings"`
}

// M collects what one check observed.
type M struct {
	ID    string
	Tier  string
	Seed  uint64
	Rule  string
	Level string

	mu         sync.Mutex
	evals      int64
	nontrivial map[uint64]struct{}
	counters   map[string]int64
	states     map[string]map[uint64]struct{}
	samples    []any
	violations []Violation
	seenFP     map[string]int
	known      []Finding
	knownHit   map[string]bool
	dir        string
	assume     []string
	need       map[string]int64
}

// Violation is one refuted property instance.
type Violation struct {
	Property    string `json:"property"`
	Fingerprint string `json:"fingerprint"`
	Detail      any    `json:"detail"`
	Seed        uint64 `json:"seed"`
	Tier        string `json:"tier"`
}

// Dir is the root of the framework (the folder with MANIFEST.json).
func Dir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// Thorough reports whether the deep tier runs.
func (m *M) Thorough() bool { return m.Tier == "thorough" }

// quickScale multiplies the quick workload of checks that are cheap.
var quickScale = map[string]int{
	"C03": 6, "C04": 2, "C06": 8, "C08": 2, "C09": 2, "C10": 2, "C11": 8,
	"C12": 10, "C13": 10, "C14": 5, "C15": 8, "C16": 8, "C17": 6, "C18": 6,
	"C20": 3, "C21": 3, "C22": 3, "C24": 10, "C31": 3, "C34": 8,
}

// deepScale multiplies the thorough workload of checks that are cheap.
var deepScale = map[string]int{
	"C03": 3, "C05": 8, "C06": 20, "C09": 8, "C10": 2, "C11": 40, "C12": 30,
	"C13": 8, "C14": 10, "C15": 12, "C16": 15, "C17": 10, "C18": 8, "C19": 4,
	"C20": 10, "C21": 3, "C22": 4, "C23": 10, "C24": 40, "C29": 5, "C30": 5,
	"C31": 8, "C34": 20,
}

// N picks a workload size by tier.
func (m *M) N(quick, thorough int) int {
	if m.Thorough() {
		return thorough * max(1, deepScale[m.ID])
	}
	if k := quickScale[m.ID]; k > 1 {
		return min(quick*k, max(quick, thorough))
	}
	return quick
}

// Rand returns an independent deterministic stream for a case.
func (m *M) Rand(stream string, n int) *rand.Rand {
	h := fnv.New64a()
	_, _ = h.Write([]byte(m.ID + "/" + stream))
	return rand.New(rand.NewPCG(m.Seed*0x9E3779B97F4A7C15+h.Sum64(), uint64(n)+1))
}

// Hash is the FNV-64 of the formatted value.
func Hash(v ...any) uint64 {
	h := fnv.New64a()
	for _, x := range v {
		fmt.Fprintf(h, "%v\x00", x)
	}
	return h.Sum64()
}

// Eval counts one evaluated case. A case counts as distinct and non-trivial
// when nontrivial is set and its key was not seen before.
func (m *M) Eval(nontrivial bool, key ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.evals++
	if nontrivial {
		m.nontrivial[Hash(key...)] = struct{}{}
	}
}

// Count adds to a named counter of observed events.
func (m *M) Count(name string, n int) {
	m.mu.Lock()
	m.counters[name] += int64(n)
	m.mu.Unlock()
}

// State records a distinct observed state, order or interleaving.
func (m *M) State(kind string, key ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	s := m.states[kind]
	if s == nil {
		s = map[uint64]struct{}{}
		m.states[kind] = s
	}
	s[Hash(key...)] = struct{}{}
}

// Need makes the run inconclusive unless the counter reached n.
func (m *M) Need(name string, n int) {
	m.mu.Lock()
	m.need[name] = int64(n)
	m.mu.Unlock()
}

// Sample keeps up to 12 actual cases for the evidence file.
func (m *M) Sample(v any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(m.samples) < 12 {
		m.samples = append(m.samples, v)
	}
}

// Assume notes an assumption in the evidence.
func (m *M) Assume(s string) { m.assume = append(m.assume, s) }

// Fail records a violation. The fingerprint identifies the failing input,
// call site or history; one matching a listed known finding is reported as such.
func (m *M) Fail(fingerprint string, format string, args ...any) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, k := range m.known {
		if k.Property == m.ID && k.Fingerprint == fingerprint {
			if !m.knownHit[fingerprint] {
				m.knownHit[fingerprint] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", m.ID, k.What)
			}
			return
		}
	}
	m.seenFP[fingerprint]++
	if m.seenFP[fingerprint] > 3 || len(m.violations) >= 40 {
		return
	}
	m.violations = append(m.violations, Violation{
		Property: m.ID, Fingerprint: fingerprint,
		Detail: fmt.Sprintf(format, args...), Seed: m.Seed, Tier: m.Tier,
	})
}

// Failed reports whether a violation was recorded.
func (m *M) Failed() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.violations) > 0
}

// Guard runs f and turns a panic in the code under test into a violation.
func (m *M) Guard(fingerprint string, what any, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			m.Fail("panic:"+fingerprint, "panic %v\ninput: %v\n%s", r, what, debug.Stack())
		}
	}()
	f()
	return true
}

// Run executes the body of a check for property id and reports the verdict.
// Exit is left to the calling driver, which reads the result file.
func Run(t *testing.T, id, rule string, body func(m *M)) {
	t.Helper()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = n
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	m := &M{
		ID: id, Tier: tier, Seed: seed, Rule: rule, Level: "exploration",
		nontrivial: map[uint64]struct{}{}, counters: map[string]int64{},
		states: map[string]map[uint64]struct{}{}, seenFP: map[string]int{},
		knownHit: map[string]bool{}, need: map[string]int64{}, dir: Dir(),
	}
	if b, err := os.ReadFile(filepath.Join(m.dir, "known_findings.json")); err == nil {
		var k knownFile
		if err := json.Unmarshal(b, &k); err != nil {
			t.Fatalf("INCONCLUSIVE known_findings.json: %v", err)
		}
		m.known = k.Findings
	}
	done := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if strings.Contains(st, "/repo/") {
					m.Fail("panic", "panic: %v\n%s", r, st)
				} else {
					t.Errorf("INCONCLUSIVE harness panic: %v\n%s", r, st)
				}
			}
		}()
		body(m)
		done = true
	}()
	m.finish(t, done)
}

func (m *M) finish(t *testing.T, done bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	cov := map[string]any{
		"evaluations":         m.evals,
		"distinct_nontrivial": len(m.nontrivial),
		"rule":                m.Rule,
		"samples":             m.samples,
	}
	if m.samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]int64{}
	for k, v := range m.counters {
		ev[k] = v
	}
	cov["observed_events"] = ev
	st := map[string]int{}
	for k, v := range m.states {
		st[k] = len(v)
	}
	cov["distinct_observed"] = st
	var kn []string
	for k := range m.knownHit {
		kn = append(kn, k)
	}
	sort.Strings(kn)
	if len(kn) > 0 {
		cov["known_findings_seen"] = kn
	}
	evd := map[string]any{
		"property": m.ID, "tier": m.Tier, "seed": m.Seed, "level": m.Level,
		"coverage": cov, "wall_s": 0.0, "violations": len(m.violations),
	}
	if len(m.assume) > 0 {
		evd["assumptions"] = m.assume
	}
	out := os.Getenv("VERIF_RESULT")
	if out == "" {
		out = filepath.Join(os.TempDir(), "verif-result.json")
	}
	var short []string
	for k, n := range m.need {
		if m.counters[k] < n {
			short = append(short, fmt.Sprintf("%s=%d<%d", k, m.counters[k], n))
		}
	}
	res := map[string]any{
		"evidence": evd, "violations": m.violations, "completed": done, "short": short,
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		t.Fatalf("INCONCLUSIVE %v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		t.Fatalf("INCONCLUSIVE %v", err)
	}
	for _, v := range m.violations {
		t.Logf("violation %s: %v", v.Fingerprint, v.Detail)
	}
	if len(m.violations) > 0 {
		t.Fail()
	}
}
