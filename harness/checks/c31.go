package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verif/harness/vh"
)

var guidRe = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}`)

// lastingText is a report without what differs from run to run.
func lastingText(s string) string { return stripTimes(guidRe.ReplaceAllString(s, "GUID")) }

// sizedRun runs a command by a shell that limits the size of the files it writes
// (in KiB), with standard output going to the given file.
func sizedRun(r *vh.Run, dir string, kib int, stdout string, args []string) cliOut {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	script := ""
	if kib >= 0 {
		// a write beyond the limit fails instead of killing the process
		script = fmt.Sprintf("trap '' XFSZ; ulimit -f %d || exit 99; ", kib)
	}
	script += `o="$1"; shift; exec "$@" >"$o"`
	cmd := exec.CommandContext(ctx, "bash", append([]string{"-c", script, "sh", stdout, r.CLI}, args...)...)
	cmd.Dir = dir
	cmd.WaitDelay = 2 * time.Second
	var e bytes.Buffer
	cmd.Stderr = &e
	err := cmd.Run()
	out := cliOut{args: args, stderr: e.String(), timeout: ctx.Err() != nil}
	var xe *exec.ExitError
	if errors.As(err, &xe) {
		out.code = xe.ExitCode()
	} else if err != nil && !out.timeout {
		r.Inconclusive("cannot run bash: %v", err)
	}
	if out.code == 99 {
		r.Inconclusive("cannot limit file sizes")
	}
	if stdout != "/dev/full" {
		b, _ := os.ReadFile(stdout)
		out.stdout = string(b)
	}
	r.Count("command runs", 1)
	return out
}

func init() {
	All["C31"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("runs of the command with all combinations of output file, printing, print format, tracking, colour and logging, each destination read back by an independent parser of its format and compared with the JSON report of the same scan; the same with unwritable targets, full devices and files limited in size; report.CreateReport into writers which fail after a random number of bytes; non-trivial: there are findings to write")
		r.Assume("formats without a heading (csv, golint) write nothing when nothing is found", "-quiet with nothing found writes nothing at all")
		r.Need("full destinations", 40)
		// writers that fail
		r.Parallel(r.N(1500, 40000), func(i int, rng *rand.Rand) {
			roots := randRoots(rng)
			data := gosec.NewReportInfo(randIssues(rng, vh.Pick(rng, 0, 1, 2, 5, 60), roots, plainTexts), &gosec.Metrics{NumFiles: rng.Intn(20), NumLines: rng.Intn(2000), NumFound: 1}, randErrors(rng, roots[0], plainTexts)).WithVersion("dev")
			if data.Issues == nil {
				data.Issues = []*issue.Issue{}
			}
			for _, f := range formats {
				var full bytes.Buffer
				if err := report.CreateReport(&full, f, false, roots, data); err != nil {
					r.Violation("error/"+f, err.Error(), map[string]string{"data.json": jsonText(data)})
					continue
				}
				if full.Len() == 0 {
					continue
				}
				n := rng.Intn(full.Len())
				if rng.Intn(3) == 0 {
					n = max(0, full.Len()-1-rng.Intn(8))
				}
				// the length may differ by some bytes: files are listed in
				// the order of a map, which does not change it, and SARIF
				// holds random identifiers of fixed length
				w := &limitedWriter{left: n}
				err := report.CreateReport(w, f, false, roots, data)
				r.Eval("failing writer "+f, fmt.Sprint(i, f, n), true)
				if err == nil {
					r.Violation("silent/"+f, fmt.Sprintf("the %s report has %d bytes, and the writer failed after %d of them, yet no error is reported", f, full.Len(), n), map[string]string{"data.json": jsonText(data), "report": full.String()})
				}
			}
		})
		// the command
		r.Parallel(r.N(14, 160), func(i int, rng *rand.Rand) {
			var p *project
			if i%3 == 0 {
				p = smallProject(r, rng)
			} else {
				p = newProject(r, rng, 1+rng.Intn(2), i%2 == 0)
			}
			var opts []string
			for _, o := range []string{"-track-suppressions", "-show-ignored", "-nosec", "-enable-audit", "-terse", "-sort=false"} {
				if rng.Intn(4) == 0 {
					opts = append(opts, o)
				}
			}
			if rng.Intn(4) == 0 {
				opts = append(opts, "-severity="+vh.PickS(rng, levels), "-confidence="+vh.PickS(rng, levels))
			}
			roots := []string{}
			for _, d := range p.pkgs {
				roots = append(roots, filepath.Join(p.dir, d))
			}
			with := func(more ...string) []string {
				return append(append(append([]string{}, opts...), more...), p.pkgs...)
			}
			ref := runCLI(r, p.dir, with("-fmt=json")...)
			data := ref.json(r).data()
			fm := func(o cliOut, file string) map[string]string {
				m := map[string]string{"args": strings.Join(o.args, " "), "stdout": o.stdout, "stderr": o.stderr, "file": file, "reference.json": ref.stdout}
				for n, t := range p.src {
					m[n] = t
				}
				return m
			}
			judge := func(o cliOut, key, f, where, text, file string) {
				pr := ""
				if text == "" && f != "csv" && f != "golint" {
					pr = "is empty"
				} else if ansiRe.MatchString(text) && (where == "file" || f != "text") {
					pr = "holds colour codes"
				} else {
					pr = reportProblem(f, []byte(text), roots, data, false)
				}
				if pr != "" {
					r.Violation(key+"/"+f, fmt.Sprintf("gosec %s: the %s report in the %s %s", strings.Join(o.args, " "), f, where, pr), fm(o, file))
				}
			}
			for k := 0; k < 14; k++ {
				f := vh.PickS(rng, formats)
				args := []string{"-fmt=" + f}
				toFile, print, verbose := rng.Intn(5) > 0, rng.Intn(5) < 3, ""
				out := filepath.Join(p.dir, vh.Pick(rng, "report", "out.txt", "sub.json"))
				if toFile {
					os.WriteFile(out, []byte(strings.Repeat("left over from before <>&\"{}\n", rng.Intn(2)*40000)), 0o644)
					args = append(args, "-out="+out)
				}
				if print {
					args = append(args, "-stdout")
				}
				if rng.Intn(2) == 0 {
					verbose = vh.PickS(rng, formats)
					args = append(args, "-verbose="+verbose)
				}
				if rng.Intn(3) == 0 {
					args = append(args, "-color="+vh.Pick(rng, "true", "false"))
				}
				log := ""
				if rng.Intn(4) == 0 {
					log = filepath.Join(p.dir, "log")
					args = append(args, "-log="+log)
				}
				if rng.Intn(4) == 0 && len(data.Issues)+len(data.Errors) > 0 {
					args = append(args, "-quiet")
				}
				noFail := rng.Intn(4) == 0
				if noFail {
					args = append(args, "-no-fail")
				}
				o := runCLI(r, p.dir, with(args...)...)
				r.Eval(fmt.Sprintf("command file=%v print=%v verbose=%v", toFile, print, verbose != ""), fmt.Sprint(i, k), len(data.Issues) > 0)
				file := ""
				if toFile {
					b, err := os.ReadFile(out)
					if err != nil {
						r.Violation("no file", fmt.Sprintf("gosec %s: %v", strings.Join(o.args, " "), err), fm(o, ""))
						continue
					}
					file = string(b)
					judge(o, "file", f, "file", file, file)
				}
				if want := ref.code; !noFail && o.code != want || noFail && o.code != 0 {
					r.Violation("exit", fmt.Sprintf("gosec %s exits with %d and the run with -fmt=json only with %d", strings.Join(o.args, " "), o.code, want), fm(o, file))
				}
				pf := f
				if verbose != "" {
					pf = verbose
				}
				if !toFile || print {
					judge(o, "stdout", pf, "output", o.stdout, file)
				} else if o.stdout != "" {
					r.Violation("printed", fmt.Sprintf("gosec %s prints:\n%s", strings.Join(o.args, " "), firstBytes(o.stdout, 400)), fm(o, file))
				}
				if toFile && print && pf == f && lastingText(file) != lastingText(ansiRe.ReplaceAllString(o.stdout, "")) && len(data.Errors) < 2 && f != "text" {
					r.Violation("differ/"+f, fmt.Sprintf("gosec %s: the output and the file differ: %s", strings.Join(o.args, " "), firstDifference(lastingText(file), lastingText(o.stdout))), fm(o, file))
				}
				if i%13 == 2 && k == 0 {
					r.Sample(map[string]any{"args": o.args, "findings": len(data.Issues), "stdout bytes": len(o.stdout), "file bytes": len(file), "exit": o.code})
				}
			}
			// destinations that cannot take the report
			if len(data.Issues)+len(data.Errors) == 0 {
				return
			}
			sup := 0
			for _, is := range data.Issues {
				if len(is.Suppressions) > 0 {
					sup++
				}
			}
			writes := func(f string) bool { return f != "csv" && f != "golint" || len(data.Issues) > sup }
			for k := 0; k < 8; k++ {
				f, pf := vh.PickS(rng, formats), vh.PickS(rng, formats)
				kib, stdout := -1, filepath.Join(p.dir, "stdout")
				args := []string{"-fmt=" + f}
				fails, what := false, ""
				switch rng.Intn(6) {
				case 0:
					args, fails, what = append(args, "-out=/dev/full"), writes(f), "full device"
				case 1:
					args, fails, what = append(args, "-out="+p.dir), true, "directory"
				case 2:
					args, fails, what = append(args, "-out="+filepath.Join(p.dir, "no", "such", "dir")), true, "missing directory"
				case 3:
					stdout, fails, what = "/dev/full", writes(f), "full output"
				case 4:
					stdout, fails, what = "/dev/full", writes(pf), "full output besides a file"
					args = append(args, "-out="+filepath.Join(p.dir, "out"), "-stdout", "-verbose="+pf)
				case 5:
					// a file too big: only reports which need more than that
					os.Remove(filepath.Join(p.dir, "out"))
					o := runCLI(r, p.dir, with("-fmt="+f, "-out="+filepath.Join(p.dir, "out"))...)
					b, err := os.ReadFile(filepath.Join(p.dir, "out"))
					if err != nil {
						r.Violation("no file", err.Error(), fm(o, ""))
						continue
					}
					if len(b) < 1100 {
						continue
					}
					kib = rng.Intn(len(b) / 1100)
					args, fails, what = append(args, "-out="+filepath.Join(p.dir, "out")), true, "file limited in size"
				}
				if rng.Intn(2) == 0 {
					args = append(args, "-no-fail")
				}
				if rng.Intn(4) == 0 {
					args = append(args, "-quiet")
				}
				if !fails {
					continue
				}
				o := sizedRun(r, p.dir, kib, stdout, with(args...))
				r.Eval(what, fmt.Sprint(i, k), true)
				r.Count("full destinations", 1)
				if o.code == 0 {
					r.Violation("unnoticed/"+what, fmt.Sprintf("%s: gosec %s exits with 0 though its report could not be written", what, strings.Join(o.args, " ")), fm(o, ""))
				}
				if info, err := os.Stat(p.dir); err != nil || !info.IsDir() {
					r.Inconclusive("the project is gone")
				}
			}
		})
	}
}
