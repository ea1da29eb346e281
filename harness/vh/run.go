// Package vh is the common part of the monitors: verdicts, evidence, replay
// files, known findings, random choices.
package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Run is one execution of the check of one property.
type Run struct {
	ID       string
	Tier     string
	Seed     int64
	Root     string // /verif
	Repo     string // /repo
	Tmp      string // scratch directory of this run
	CLI      string // gosec command built from Repo
	RaceCLI  string // the same with the race detector
	Rng      *rand.Rand
	start    time.Time
	deadline time.Time
	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	kinds    map[string]int64
	samples  []any
	known    map[string]string
	knownHit map[string]bool
	viol     []string
	violKeys map[string]bool
	rule     string
	notes    []string
	min      map[string]int64
	assume   []string
	most     int // cases per Parallel, 0 for all
}

// Skip ends a case of Parallel when it is the value of a panic.
var Skip = new(int)

// Derive makes a run whose verdict does not count, which executes at most the
// given number of cases of each kind.
func (r *Run) Derive(id string, most int) *Run {
	d := Start(r.ID+" "+id, r.Tier, r.Tmp, r.Repo, r.Tmp, r.Seed)
	d.CLI, d.RaceCLI, d.most = r.CLI, r.RaceCLI, most
	return d
}

// Thorough tells which tier is running.
func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// N picks the number of cases for the tier.
func (r *Run) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Rule sets the description of how cases are made.
func (r *Run) Rule(s string) { r.rule = s }

// Assume records an assumption for the evidence.
func (r *Run) Assume(s ...string) { r.assume = append(r.assume, s...) }

// Eval counts one oracle evaluation of the given kind; key identifies the
// case, nontrivial tells whether it counts as non-trivial by the rule.
func (r *Run) Eval(kind, key string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(kind))
	h.Write([]byte{0})
	h.Write([]byte(key))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	r.kinds[kind]++
	if nontrivial {
		r.distinct[h.Sum64()] = struct{}{}
	}
}

// Count adds to an observation counter.
func (r *Run) Count(kind string, n int64) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.kinds[kind] += n
}

// Counter reads an observation counter.
func (r *Run) Counter(kind string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.kinds[kind]
}

// Need makes the run inconclusive unless the counter reaches n.
func (r *Run) Need(kind string, n int64) { r.min[kind] = n }

// Sample keeps a few cases for the evidence.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Violation reports a refuted property. The key identifies the specific
// failing input, call site or history; files are written to the replay folder.
func (r *Run) Violation(key, msg string, files map[string]string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, what := range r.known {
		if k == key || (strings.HasSuffix(k, "*") && strings.HasPrefix(key, strings.TrimSuffix(k, "*"))) {
			if !r.knownHit[k] {
				r.knownHit[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.ID, what, k)
			}
			return
		}
	}
	if r.violKeys[key] || len(r.viol) >= 25 {
		r.violKeys[key] = true
		return
	}
	r.violKeys[key] = true
	dir := filepath.Join(r.Root, "replay", r.ID, fmt.Sprintf("%03d", len(r.viol)+1))
	_ = os.MkdirAll(dir, 0o755)
	var sb strings.Builder
	fmt.Fprintf(&sb, "property: %s\nkey: %s\nseed: %d\ntier: %s\n\n%s\n", r.ID, key, r.Seed, r.Tier, msg)
	_ = os.WriteFile(filepath.Join(dir, "README.txt"), []byte(sb.String()), 0o644)
	for n, c := range files {
		p := filepath.Join(dir, filepath.FromSlash(n)+".txt")
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(c), 0o644)
	}
	r.viol = append(r.viol, key)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, dir)
	fmt.Printf("  %s: %s\n", key, firstLines(msg, 12))
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n  ")
}

// Violations is the number of violations so far.
func (r *Run) Violations() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violKeys)
}

// TimeLeft tells whether the time budget of optional exploration remains.
func (r *Run) TimeLeft() bool { return time.Now().Before(r.deadline) }

// Parallel runs f(i) for i in [0,n) on all cores. Each call has its own rng
// derived from the seed and i, so that the cases do not depend on scheduling.
func (r *Run) Parallel(n int, f func(i int, rng *rand.Rand)) {
	w := runtime.GOMAXPROCS(0)
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				r.Guard(func() { f(i, r.Sub(i)) })
			}
		}()
	}
	step := 1
	if r.most > 0 {
		step = max(1, n/r.most)
	}
	for i := step / 2; i < n; i += step {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// Guard runs f; a panic which starts in the code under test is a violation,
// any other is passed on.
func (r *Run) Guard(f func()) {
	defer func() {
		p := recover()
		if p == nil || p == any(Skip) {
			return
		}
		stack := string(debug.Stack())
		if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
			if j := strings.Index(stack[i:], "verif/harness/"); j >= 0 && strings.Contains(stack[i:i+j], "securego/gosec") {
				r.Violation("panic", fmt.Sprintf("the code under test panicked: %v\n%s", p, stack[i:]), nil)
				return
			}
		}
		panic(fmt.Sprintf("%v\n%s", p, stack))
	}()
	f()
}

// Sub derives a generator for case i.
func (r *Run) Sub(i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", r.ID, r.Seed, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Inconclusive ends the run without a verdict.
func (r *Run) Inconclusive(format string, a ...any) {
	fmt.Printf("INCONCLUSIVE property=%s %s\n", r.ID, fmt.Sprintf(format, a...))
	r.writeEvidence()
	os.Exit(3)
}

// Start prepares a run.
func Start(id, tier, root, repo, tmp string, seed int64) *Run {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", id, seed)
	r := &Run{
		ID: id, Tier: tier, Seed: seed, Root: root, Repo: repo, Tmp: tmp,
		Rng: rand.New(rand.NewSource(int64(h.Sum64()))), start: time.Now(),
		distinct: map[uint64]struct{}{}, kinds: map[string]int64{}, known: map[string]string{},
		knownHit: map[string]bool{}, violKeys: map[string]bool{}, min: map[string]int64{},
	}
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 10 * time.Minute
	}
	r.deadline = r.start.Add(budget)
	_ = os.RemoveAll(filepath.Join(root, "replay", id))
	f, err := os.Open(filepath.Join(root, "KNOWN_FINDINGS.jsonl"))
	if err == nil {
		defer f.Close()
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var k struct{ Property, Key, What, Status string }
			if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == id && k.Status == "known" {
				r.known[k.Key] = k.What
			}
		}
	}
	return r
}

func (r *Run) writeEvidence() {
	r.mu.Lock()
	defer r.mu.Unlock()
	cov := map[string]any{
		"evaluations": r.evals, "distinct_nontrivial": len(r.distinct), "rule": r.rule,
		"samples": r.samples, "observed": r.kinds,
	}
	if r.samples == nil {
		cov["samples"] = []any{}
	}
	var kh []string
	for k := range r.knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	cov["known_findings_seen"] = kh
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.violKeys),
		"assumptions": append([]string{"held on the executions counted here; nothing is claimed about inputs the workload never produced"}, r.assume...),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(r.Root, "evidence", r.ID+".json"), append(b, '\n'), 0o644)
}

// Finish writes the evidence and returns the exit code.
func (r *Run) Finish() int {
	r.writeEvidence()
	if len(r.violKeys) > 0 {
		if len(r.violKeys) > len(r.viol) {
			fmt.Printf("  (%d more distinct violations not printed)\n", len(r.violKeys)-len(r.viol))
		}
		return 1
	}
	for k, n := range r.min {
		if r.kinds[k] < n {
			fmt.Printf("INCONCLUSIVE property=%s observed only %d of %q, need %d\n", r.ID, r.kinds[k], k, n)
			return 3
		}
	}
	if r.evals == 0 {
		fmt.Printf("INCONCLUSIVE property=%s nothing was evaluated\n", r.ID)
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs %v\n", r.ID, r.Tier, r.Seed, r.evals, len(r.distinct), time.Since(r.start).Seconds(), r.kinds)
	return 0
}
