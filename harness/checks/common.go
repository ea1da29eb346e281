// Package checks holds one monitor per property.
package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// All maps property ids to their checks.
var All = map[string]func(*vh.Run){}

var (
	envOnce sync.Once
	envVal  *vh.Env
	envErr  error
)

// env gives the shared type-checking environment.
func env(r *vh.Run) *vh.Env {
	envOnce.Do(func() { envVal, envErr = vh.NewEnv(filepath.Join(r.Tmp, "w"), r.Repo) })
	if envErr != nil {
		r.Inconclusive("%v", envErr)
	}
	return envVal
}

// snippet is a piece of program with expected findings marked by //~.
type snippet struct {
	name  string
	decls string // top-level declarations, @ is made unique
	stmts string // statements, @ is made unique
}

// build makes one package of up to nf files with the snippets spread over them.
func build(rng *rand.Rand, sn []snippet, nf, depth int, plain bool) []vh.Src {
	return buildPkg(rng, "p", sn, nf, depth, plain)
}

func buildPkg(rng *rand.Rand, pkg string, sn []snippet, nf, depth int, plain bool) []vh.Src {
	var fs []*vh.FileGen
	for i := 0; i < nf; i++ {
		f := vh.NewFile(rng, pkg, fmt.Sprintf("%c", 'A'+i))
		f.Twice = rng.Intn(4) == 0
		f.Real = true
		f.Plain = plain
		fs = append(fs, f)
	}
	for _, s := range sn {
		f := fs[rng.Intn(nf)]
		u := f.Uniq("q")
		if s.decls != "" {
			f.Decl(strings.ReplaceAll(s.decls, "@", u))
		}
		if s.stmts != "" {
			d := 0
			if depth > 0 {
				d = rng.Intn(depth + 1)
			}
			f.Wrap(strings.ReplaceAll(s.stmts, "@", u), d)
		}
	}
	var out []vh.Src
	for i, f := range fs {
		if i == 0 {
			f.Decl(vh.Helpers)
		}
		out = append(out, vh.Src{Name: fmt.Sprintf("f%d.go", i), Text: f.Text()})
	}
	return out
}

// tap receives the programs which the monitors generate instead of having them
// scanned, for monitors that need programs of every kind.
var tap func(*vh.Run, []vh.Src, gosec.Config)

// ruleChecks are the monitors of single rules.
var ruleChecks = strings.Fields("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13")

// generatedPrograms are programs the monitors of the rules generate, about n of
// each kind.
func generatedPrograms(r *vh.Run, n int) []sampleProgram {
	var out []sampleProgram
	ver, had := os.LookupEnv("GOSECGOVERSION")
	for _, id := range ruleChecks {
		var mu sync.Mutex
		var got []sampleProgram
		tap = func(_ *vh.Run, files []vh.Src, c gosec.Config) {
			mu.Lock()
			got = append(got, sampleProgram{name: id, files: files, conf: c})
			mu.Unlock()
			panic(vh.Skip)
		}
		d := r.Derive(id, n)
		d.Guard(func() { All[id](d) })
		// the order of the cases depends on scheduling
		sort.Slice(got, func(i, j int) bool { return got[i].files[0].Text < got[j].files[0].Text })
		out = append(out, got...)
	}
	tap = nil
	if had {
		os.Setenv("GOSECGOVERSION", ver)
	} else {
		os.Unsetenv("GOSECGOVERSION")
	}
	for i := range out {
		if out[i].conf == nil {
			out[i].conf = gosec.NewConfig()
		}
	}
	return out
}

// loadOrDie type checks a generated package; the generator must only produce
// well-typed programs, otherwise the run has no verdict.
func loadOrDie(r *vh.Run, files []vh.Src) *vh.Loaded {
	if tap != nil {
		tap(r, files, nil)
	}
	l, err := env(r).Load(files, nil)
	if err != nil || len(l.TypeErr) > 0 {
		var sb strings.Builder
		for _, f := range files {
			for i, t := range strings.Split(f.Text, "\n") {
				fmt.Fprintf(&sb, "%s:%d %s\n", f.Name, i+1, t)
			}
		}
		if os.Getenv("VH_DEBUG") != "" {
			fmt.Println(sb.String())
		}
		var e any = err
		if l != nil {
			e = l.TypeErr[:min(3, len(l.TypeErr))]
		}
		r.Inconclusive("generated program does not type check: %v %v", err, e)
	}
	return l
}

// markCheck scans the files and compares the findings of the rules under
// observation with the markers.
func markCheck(r *vh.Run, kind, keyPrefix string, files []vh.Src, only map[string]bool, o vh.Opts) vh.Result {
	if tap != nil {
		tap(r, files, o.Conf)
	}
	l := loadOrDie(r, files)
	defer l.Remove()
	res := vh.Scan(o, l)
	if res.Panic != "" {
		r.Violation(keyPrefix+"/panic", "the scan panicked: "+res.Panic, vh.SrcMap(files))
		return res
	}
	want := vh.Expected(files, only)
	got := vh.Keys(res.Issues, only)
	r.Count("findings observed", int64(len(got)))
	r.Count("findings expected", int64(len(want)))
	missing, extra := vh.Diff(want, got)
	if len(missing)+len(extra) > 0 {
		r.Violation(keyPrefix, fmt.Sprintf("expected findings not reported: %v\nreported but not expected: %v\n%s", missing, extra, around(files, append(append([]string{}, missing...), extra...))), vh.SrcMap(files))
	}
	return res
}

func around(files []vh.Src, keys []string) string {
	var sb strings.Builder
	for i, k := range keys {
		if i > 4 {
			break
		}
		p := strings.Split(k, ":")
		for _, f := range files {
			if f.Name == p[0] {
				lines := strings.Split(f.Text, "\n")
				var n int
				fmt.Sscan(p[1], &n)
				if n >= 1 && n <= len(lines) {
					fmt.Fprintf(&sb, "  %s | %s\n", k, strings.TrimSpace(lines[n-1]))
				}
			}
		}
	}
	return sb.String()
}

// names joins snippet names.
func names(sn []snippet) string {
	var n []string
	for _, s := range sn {
		n = append(n, s.name)
	}
	return strings.Join(n, "+")
}

// Worker is the entry of helper subprocesses.
func Worker(args []string) {
	switch args[0] {
	case "crash":
		crashWorker(args[1:])
	default:
		fmt.Println("unknown worker", args)
		os.Exit(2)
	}
}

// runSnippets is the common workload: every snippet alone in a plain program,
// every snippet in random contexts, and random mixes.
func runSnippets(r *vh.Run, pos, neg []snippet, only map[string]bool, o vh.Opts, perSnippet, mixes, depth int, plain bool) {
	all := append(append([]snippet{}, pos...), neg...)
	type job struct {
		sn   []snippet
		nf   int
		d    int
		kind string
	}
	var jobs []job
	for _, s := range all {
		jobs = append(jobs, job{[]snippet{s}, 1, 0, "single"})
		for k := 0; k < perSnippet; k++ {
			jobs = append(jobs, job{[]snippet{s}, 1, depth, "context"})
		}
	}
	for k := 0; k < mixes; k++ {
		n := 2 + r.Rng.Intn(8)
		var sn []snippet
		for j := 0; j < n; j++ {
			sn = append(sn, vh.PickS(r.Rng, all))
		}
		jobs = append(jobs, job{sn, 1 + r.Rng.Intn(3), depth, "mix"})
	}
	// long files and long functions
	for k, n := range []int{40, 90, 160, 240, 60, 120, 200, 320}[:r.N(6, 8)] {
		var sn []snippet
		for j := 0; j < n; j++ {
			sn = append(sn, vh.PickS(r.Rng, all))
		}
		d := depth
		if k%2 == 1 {
			sn, d = []snippet{joined(r.Rng, sn)}, 0
		}
		jobs = append(jobs, job{sn, 1, d, "large"})
	}
	r.Parallel(len(jobs), func(i int, rng *rand.Rand) {
		j := jobs[i]
		files := build(rng, j.sn, j.nf, j.d, plain || (j.kind == "single" && i%2 == 0))
		r.Eval(j.kind, files[0].Text, true)
		if i%97 == 5 {
			r.Sample(map[string]any{"kind": j.kind, "snippets": names(j.sn), "expected": vh.Expected(files, only)})
		}
		key := j.kind + "/" + names(j.sn)
		if j.kind == "large" {
			key = fmt.Sprint(j.kind, "/", i)
		}
		markCheck(r, j.kind, key, files, only, o)
	})
}

// joined puts the snippets one after the other into one, the statements each
// in a block of its own.
func joined(rng *rand.Rand, sn []snippet) snippet {
	var d, s strings.Builder
	for i, x := range sn {
		u := fmt.Sprintf("@n%d", i)
		if x.decls != "" {
			d.WriteString(strings.ReplaceAll(x.decls, "@", u) + "\n\n")
		}
		if x.stmts != "" {
			s.WriteString(vh.Pick(rng, "{\n", "if cond() {\n", "for cond() {\n", "func() {\n"))
			open := s.String()
			s.WriteString(strings.ReplaceAll(x.stmts, "@", u) + "\n}")
			if strings.HasSuffix(open, "func() {\n") {
				s.WriteString("()")
			}
			s.WriteString("\n")
		}
	}
	return snippet{"joined", d.String(), s.String()}
}

// longer makes the programs of some cases much longer than n.
func longer(i, n int) int {
	switch {
	case i%150 == 7:
		return 30 * n
	case i%60 == 17:
		return 10 * n
	}
	return n
}

// sortedKeys gives the keys of a map in order.
func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// jsonText renders a value.
func jsonText(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// guard runs f and gives its panic.
func guard(f func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			msg = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	f()
	return ""
}
