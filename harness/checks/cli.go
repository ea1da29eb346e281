package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"context"

	"verif/harness/vh"
)

// cliOut is what one run of the command left behind.
type cliOut struct {
	args           []string
	stdout, stderr string
	code           int
	timeout        bool
}

// jsonIssue is a finding as in a JSON report.
type jsonIssue struct {
	Severity   string `json:"severity"`
	Confidence string `json:"confidence"`
	Cwe        *struct {
		ID  string `json:"id"`
		URL string `json:"url"`
	} `json:"cwe"`
	RuleID       string `json:"rule_id"`
	Details      string `json:"details"`
	File         string `json:"file"`
	Code         string `json:"code"`
	Line         string `json:"line"`
	Column       string `json:"column"`
	NoSec        bool   `json:"nosec"`
	Suppressions []struct {
		Kind          string `json:"kind"`
		Justification string `json:"justification"`
	} `json:"suppressions"`
	Autofix string `json:"autofix"`
}

type jsonError struct {
	Line   int    `json:"line"`
	Column int    `json:"column"`
	Error  string `json:"error"`
}

type jsonStats struct {
	Files int `json:"files"`
	Lines int `json:"lines"`
	Nosec int `json:"nosec"`
	Found int `json:"found"`
}

// jsonReport is a JSON report.
type jsonReport struct {
	Errors  map[string][]jsonError `json:"Golang errors"`
	Issues  []jsonIssue            `json:"Issues"`
	Stats   jsonStats              `json:"Stats"`
	Version string                 `json:"GosecVersion"`
}

// runCLIEnv runs the command in dir.
func runCLIEnv(r *vh.Run, bin, dir string, env []string, args ...string) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	cmd.WaitDelay = 2 * time.Second
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	out := cliOut{args: args, stdout: o.String(), stderr: e.String(), timeout: ctx.Err() != nil}
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		out.code = xe.ExitCode()
	} else if err != nil && !out.timeout {
		r.Inconclusive("cannot run %s: %v", bin, err)
	}
	r.Count("command runs", 1)
	return out
}

func runCLI(r *vh.Run, dir string, args ...string) cliOut {
	return runCLIEnv(r, r.CLI, dir, nil, args...)
}

// json decodes a JSON report on standard output. An empty output (quiet mode
// without findings) is an empty report.
func (o cliOut) json(r *vh.Run) jsonReport {
	var rep jsonReport
	if strings.TrimSpace(o.stdout) == "" {
		return rep
	}
	if err := json.Unmarshal([]byte(o.stdout), &rep); err != nil {
		r.Violation("report/not-json", "the JSON report does not parse: "+err.Error()+"\n"+strings.Join(o.args, " ")+"\n"+o.stdout, map[string]string{"stdout": o.stdout, "stderr": o.stderr})
	}
	return rep
}

// writeModule writes a module of the given files.
func writeModule(r *vh.Run, dir string, files map[string]string) {
	// the requirements of gosec itself let the sources import x/crypto
	if _, ok := files["go.mod"]; !ok {
		m, err := os.ReadFile(filepath.Join(r.Repo, "go.mod"))
		if err != nil {
			r.Inconclusive("%v", err)
		}
		_, rest, _ := strings.Cut(string(m), "\n")
		sum, err := os.ReadFile(filepath.Join(r.Repo, "go.sum"))
		if err != nil {
			r.Inconclusive("%v", err)
		}
		for n, t := range map[string]string{"go.mod": "module example.com/m\n" + rest, "go.sum": string(sum)} {
			if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644); err != nil {
				r.Inconclusive("%v", err)
			}
		}
	}
	for n, t := range files {
		p := filepath.Join(dir, filepath.FromSlash(n))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			r.Inconclusive("%v", err)
		}
		if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
			r.Inconclusive("%v", err)
		}
	}
}

// goBuilds asks the go command whether the files of a directory compile.
func goBuilds(r *vh.Run, dir, pkg string) bool {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	m, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
	cmd := exec.CommandContext(ctx, "go", append([]string{"build", "-gcflags=-e", "-o", os.DevNull}, m...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	var xe *exec.ExitError
	if err != nil && !errors.As(err, &xe) {
		r.Inconclusive("go build: %v", err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		// a program without main is well-typed
		if !strings.HasPrefix(l, "#") && !strings.Contains(l, "function main is undeclared in the main package") {
			return err == nil
		}
	}
	return true
}

// writeConf writes a configuration file.
func writeConf(r *vh.Run, s string) string {
	f := filepath.Join(env(r).Dir(), "c.json")
	if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
		r.Inconclusive("%v", err)
	}
	return f
}
