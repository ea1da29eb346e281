package checks

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"github.com/securego/gosec/v2/autofix"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// snapshot describes everything below a directory.
func snapshot(r *vh.Run, dir string) map[string]string {
	m := map[string]string{}
	err := filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		s := fmt.Sprint(i.Mode())
		if i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += fmt.Sprintf(" %x %d", sha256.Sum256(b), i.ModTime().UnixNano())
		}
		if i.Mode()&fs.ModeSymlink != 0 {
			t, _ := os.Readlink(p)
			s += " -> " + t
		}
		m[strings.TrimPrefix(p, dir)] = s
		return nil
	})
	if err != nil {
		r.Inconclusive("snapshot of %s: %v", dir, err)
	}
	return m
}

// changes lists what differs between two snapshots.
func changes(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, k+" is gone")
		} else if v != w {
			out = append(out, k+" is changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, k+" is new")
		}
	}
	sort.Strings(out)
	return out
}

// aiRecorder is a stand-in for the AI service that keeps what it receives.
type aiRecorder struct {
	mu   sync.Mutex
	seen []string
	srv  *httptest.Server
}

func newAIRecorder() *aiRecorder {
	a := &aiRecorder{}
	a.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		var sb strings.Builder
		_ = q.Write(&sb)
		a.mu.Lock()
		a.seen = append(a.seen, sb.String())
		a.mu.Unlock()
		fmt.Fprint(w, `{"candidates":[{"content":{"role":"model","parts":[{"text":"an answer"}]}}]}`)
	}))
	return a
}

func (a *aiRecorder) take() []string {
	a.mu.Lock()
	defer a.mu.Unlock()
	s := a.seen
	a.seen = nil
	return s
}

// canTrace tells whether own children can be traced here.
func canTrace(r *vh.Run) bool {
	if _, err := exec.LookPath("strace"); err != nil {
		return false
	}
	f := filepath.Join(env(r).Dir(), "t")
	if err := exec.Command("strace", "-f", "-o", f, "true").Run(); err != nil {
		return false
	}
	b, _ := os.ReadFile(f)
	return strings.Contains(string(b), "execve")
}

// cTools are the programs the go command runs for files that use cgo.
var cTools = vh.Set("gcc", "cc", "clang", "cc1", "as", "ld", "collect2", "pkg-config")

var (
	traceCall = regexp.MustCompile(`^(\d+) +(\w+)\(`)
	traceRest = regexp.MustCompile(`^(\d+) +<\.\.\. \w+ resumed>`)
	traceFail = regexp.MustCompile(`\) += -1 `)
	tracePath = regexp.MustCompile(`(?:<([^>"]*)>, )?"((?:[^"\\]|\\.)*)"`)
)

// effectsIn lists the calls in a trace that change files outside the allowed
// places, start programs other than the Go tools or reach for the network.
func effectsIn(r *vh.Run, file, cwd string, allowed []string, tools string) (bad []string, writes, execs int) {
	f, err := os.Open(file)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer f.Close()
	ok := func(p string) bool {
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		p = filepath.Clean(p)
		for _, a := range allowed {
			if p == a || strings.HasPrefix(p, a+"/") {
				return true
			}
		}
		return false
	}
	begun := map[string]string{}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if head, ok := strings.CutSuffix(l, " <unfinished ...>"); ok {
			pid, _, _ := strings.Cut(l, " ")
			begun[pid] = head
			continue
		}
		if m := traceRest.FindStringSubmatch(l); m != nil {
			l = begun[m[1]] + l[len(m[0]):]
		}
		m := traceCall.FindStringSubmatch(l)
		if m == nil || traceFail.MatchString(l) {
			continue
		}
		var paths []string
		for _, q := range tracePath.FindAllStringSubmatch(l, -1) {
			if q[1] != "" && !filepath.IsAbs(q[2]) {
				q[2] = filepath.Join(q[1], q[2])
			}
			paths = append(paths, q[2])
		}
		switch m[2] {
		case "open", "openat", "openat2", "creat":
			if len(paths) == 0 || m[2] != "creat" && !strings.Contains(l, "O_WRONLY") && !strings.Contains(l, "O_RDWR") && !strings.Contains(l, "O_CREAT") {
				continue
			}
			writes++
			if !ok(paths[0]) {
				bad = append(bad, l)
			}
		case "mkdir", "mkdirat", "rmdir", "unlink", "unlinkat", "rename", "renameat", "renameat2", "link", "linkat", "symlink", "symlinkat", "chmod", "fchmodat", "fchmodat2", "chown", "lchown", "fchownat", "truncate", "utimensat", "mknod", "mknodat", "setxattr":
			writes++
			for _, p := range paths {
				if !ok(p) {
					bad = append(bad, l)
					break
				}
			}
		case "execve", "execveat":
			execs++
			if len(paths) == 0 || !strings.HasPrefix(paths[0], tools) && !cTools[filepath.Base(paths[0])] {
				bad = append(bad, l)
			}
		case "connect", "sendto", "bind":
			if strings.Contains(l, "AF_INET") {
				bad = append(bad, l)
			}
		}
	}
	return
}

func init() {
	All["C34"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("modules with corpus packages, programs whose start-up code, tests and go:generate lines would leave files behind when run, read-only files, symbolic links, broken packages and build output, scanned by the command under random options in every format, with home, temporary and output directories of its own; everything in these directories and in the module is compared before and after, the system calls of the run and its children are traced (writes, deletions, program starts, network connections), and a stand-in for the AI service records all requests; every text of the scanned program carries a marker that no request may contain; non-trivial: the run reports findings")
		r.Assume("the go command it runs writes only to its build cache, its own records in the home directory and the temporary directory, which it cleans")
		trace := canTrace(r)
		if !trace {
			r.Count("system calls cannot be traced here", 1)
		}
		goroot, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			r.Inconclusive("go env: %v", err)
		}
		tools := strings.TrimSpace(string(goroot)) + "/"
		const marker = "zqMarkerQz"
		r.Parallel(r.N(36, 400), func(i int, rng *rand.Rand) {
			p := newProjectOf(r, rng, 1+rng.Intn(3), rng.Intn(3) == 0, true)
			more := map[string]string{
				"run" + marker + "/main.go":      "package main\n\nimport (\n\t\"crypto/md5\" // " + marker + "\n\t\"os\"\n)\n\n//go:generate touch generated" + marker + "\n\nvar _ = os.WriteFile(\"left" + marker + "\", nil, 0o644)\n\nfunc init() {\n\tos.Mkdir(\"dir" + marker + "\", 0o777)\n}\n\nfunc main" + marker + "(password" + marker + " string) {\n\tpassword" + marker + " = \"hunter2" + marker + "f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\t_ = md5.Sum([]byte(password" + marker + "))\n}\n\nfunc main() { main" + marker + "(\"\") }\n",
				"run" + marker + "/main_test.go": "package main\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n\nfunc TestMain(m *testing.M) {\n\tos.WriteFile(\"tested" + marker + "\", nil, 0o600)\n}\n",
				"notes.txt":                      marker,
			}
			if rng.Intn(2) == 0 {
				more["run"+marker+"/c.go"] = "package main\n\n// int one(void) { return 1; }\nimport \"C\"\n\nvar One = C.one()\n"
			}
			writeModule(r, p.dir, more)
			if rng.Intn(2) == 0 {
				_ = os.Symlink("run"+marker, filepath.Join(p.dir, "link"))
			}
			home, tmp, out := env(r).Dir(), env(r).Dir(), env(r).Dir()
			ai := newAIRecorder()
			defer ai.srv.Close()
			f := vh.PickS(rng, formats)
			args := []string{"-fmt=" + f}
			allowed := []string{"/dev/null", "/dev/tty", os.Getenv("GOCACHE"), tmp, home + "/.config", home + "/.cache"}
			mayWrite := map[string]bool{}
			file := func(flag, name string) {
				n := filepath.Join(out, name)
				if rng.Intn(3) == 0 {
					_ = os.WriteFile(n, []byte("old\n"), 0o644)
				}
				args = append(args, flag+"="+n)
				allowed = append(allowed, n)
				mayWrite["/"+name] = true
			}
			if rng.Intn(2) == 0 {
				file("-out", "report")
				if rng.Intn(3) == 0 {
					args = append(args, "-stdout", "-verbose="+vh.PickS(rng, formats))
				}
			}
			if rng.Intn(3) == 0 {
				file("-log", "log")
			}
			if err := os.WriteFile(filepath.Join(out, "other"), []byte("x"), 0o600); err != nil {
				r.Inconclusive("%v", err)
			}
			if rng.Intn(3) == 0 {
				c := filepath.Join(out, "conf.json")
				_ = os.WriteFile(c, []byte(vh.Pick(rng, `{}`, `{"global":{"audit":"enabled"},"G301":"0o700"}`, `{"global":{"#nosec":"x","exclude":"G104"}}`)), 0o644)
				args = append(args, "-conf="+c)
			}
			for _, a := range []string{"-tests", "-track-suppressions", "-show-ignored", "-no-fail", "-quiet", "-terse", "-nosec", "-sort=false", "-exclude-generated", "-enable-audit", "-tags=special", "-severity=high", "-exclude=G101", "-concurrency=1"} {
				if rng.Intn(6) == 0 {
					args = append(args, a)
				}
			}
			// parts of the request for AI fixes, or all of it
			asked := rng.Intn(3) == 0
			envs := []string{"HOME=" + home, "TMPDIR=" + tmp, "XDG_CONFIG_HOME=", "XDG_CACHE_HOME="}
			if asked || rng.Intn(2) == 0 {
				args = append(args, "-ai-endpoint="+ai.srv.URL)
			}
			key := asked || rng.Intn(2) == 0
			if key {
				if rng.Intn(2) == 0 {
					args = append(args, "-ai-api-key=k1")
				} else {
					envs = append(envs, "GOSEC_AI_API_KEY=k1")
				}
			}
			single := asked && rng.Intn(2) == 0
			if asked {
				args = append(args, "-ai-api-provider=gemini")
			} else if !key && rng.Intn(2) == 0 {
				args = append(args, "-ai-endpoint="+ai.srv.URL, "-ai-api-provider=gemini")
			}
			if single {
				args = append(args, "-include="+vh.Pick(rng, "G401", "G501", "G104"), "./run"+marker)
			} else if rng.Intn(2) == 0 {
				args = append(args, "./...")
			} else {
				args = append(args, append(append([]string{}, p.pkgs...), "./run"+marker)...)
			}
			before, outBefore := snapshot(r, p.dir), snapshot(r, out)
			bin, call := r.CLI, args
			log := filepath.Join(env(r).Dir(), "trace")
			traced := trace && !asked && i%2 == 0
			if traced {
				call = append([]string{"-f", "-qq", "-y", "-s", "4096", "-e", "signal=none", "-e", "trace=open,openat,openat2,creat,mkdir,mkdirat,rmdir,unlink,unlinkat,rename,renameat,renameat2,link,linkat,symlink,symlinkat,chmod,fchmodat,chown,lchown,fchownat,truncate,utimensat,mknod,mknodat,execve,execveat,connect,sendto,bind", "-o", log, r.CLI}, args...)
				bin = "strace"
			}
			o := runCLIEnv(r, bin, p.dir, envs, call...)
			requests := ai.take()
			src := map[string]string{"args": strings.Join(args, " "), "stdout": o.stdout, "stderr": o.stderr, "requests": strings.Join(requests, "\n\n")}
			fail := func(kind, msg string) { r.Violation(kind, fmt.Sprintf("gosec %v: %s", args, msg), src) }
			report := o.stdout
			if b, err := os.ReadFile(filepath.Join(out, "report")); err == nil {
				report += string(b)
			}
			r.Eval("run "+f, fmt.Sprint(i, args), strings.Contains(report, marker))
			r.Count("asked for AI fixes: "+fmt.Sprint(asked), 1)
			if o.timeout || strings.Contains(o.stderr, "panic:") {
				fail("end", "did not end well")
				return
			}
			if c := changes(before, snapshot(r, p.dir)); len(c) > 0 {
				fail("module", fmt.Sprintf("the scanned module changed: %v", c))
			}
			for _, c := range changes(outBefore, snapshot(r, out)) {
				n, _, _ := strings.Cut(c, " ")
				if n != "" && !mayWrite[n] {
					fail("output", "in the directory of the report: "+c)
				}
			}
			for n := range snapshot(r, home) {
				if n != "" && n != "/.config" && !strings.HasPrefix(n, "/.config/go") && n != "/.cache" && !strings.HasPrefix(n, "/.cache/") {
					fail("home", "new in the home directory: "+n)
				}
			}
			if t := snapshot(r, tmp); len(t) > 1 {
				fail("temporary", fmt.Sprintf("left in the temporary directory: %v", sortedKeys(t)))
			}
			r.Count("files compared", int64(len(before)))
			r.Count("requests", int64(len(requests)))
			if !asked && len(requests) > 0 {
				fail("network", fmt.Sprintf("%d requests without being asked for AI fixes", len(requests)))
			}
			for _, q := range requests {
				for _, w := range []string{marker, p.dir, "example.com", "hunter2"} {
					if strings.Contains(q, w) {
						fail("secret", fmt.Sprintf("a request contains %q, which is of the scanned program", w))
					}
				}
			}
			if traced {
				bad, writes, execs := effectsIn(r, log, p.dir, allowed, tools)
				r.Count("traced runs", 1)
				r.Count("traced file changes", int64(writes))
				r.Count("traced program starts", int64(execs))
				for _, b := range bad {
					if strings.Contains(b, r.CLI) && strings.Contains(b, "execve") {
						continue
					}
					src["call"] = b
					fail("call", "has an effect outside: "+b)
				}
			}
			if i%11 == 0 {
				r.Sample(map[string]any{"args": args, "traced": traced, "requests": len(requests), "exit": o.code})
			}
		})
		// what the requests hold, whatever the findings are
		ai := newAIRecorder()
		defer ai.srv.Close()
		for i := 0; i < r.N(60, 600); i++ {
			rng := r.Sub(1000 + i)
			var is []*issue.Issue
			for n := vh.Pick(rng, 1, 1, 2, 3, 1+rng.Intn(9)); n > 0; n-- {
				f := &issue.Issue{
					Severity: issue.Score(rng.Intn(3)), Confidence: issue.Score(rng.Intn(3)), Cwe: issue.GetCweByRule(vh.PickS(r.Rng, ruleIDs)),
					RuleID: vh.PickS(rng, ruleIDs), What: vh.Pick(rng, "Use of weak cryptographic primitive", "Errors unhandled", "Implicit memory aliasing in for loop.", "Expect file permissions to be 0600 or less"),
					File: "/home/" + marker + "/main.go", Code: "3: password := \"" + marker + "\"\n", Line: fmt.Sprint(1 + rng.Intn(90)), Col: "3", NoSec: rng.Intn(4) == 0,
				}
				if rng.Intn(3) == 0 {
					f.Suppressions = []issue.SuppressionInfo{{Kind: "inSource", Justification: marker}}
				}
				if rng.Intn(4) == 0 {
					f.Code = marker + strings.Repeat("x", rng.Intn(5000))
				}
				is = append(is, f)
			}
			if err := autofix.GenerateSolution("gemini", "k1", ai.srv.URL, is); err != nil {
				r.Violation("requests/error", fmt.Sprintf("no request: %v", err), nil)
				break
			}
			reqs := ai.take()
			r.Eval("requests only", fmt.Sprint(i), true)
			r.Count("requests for given findings", int64(len(reqs)))
			for _, q := range reqs {
				if strings.Contains(q, marker) {
					r.Violation("secret", fmt.Sprintf("a request for %d findings holds data of the scanned program", len(is)), map[string]string{"request": q, "findings": jsonText(is)})
				}
			}
		}
		r.Need("requests for given findings", 50)
		r.Need("requests", 5)
		r.Need("files compared", 300)
		if trace {
			r.Need("traced runs", 5)
			r.Need("traced program starts", 5)
		}
	}
}
