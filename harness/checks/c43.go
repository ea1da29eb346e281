package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"

	"verif/harness/vh"
)

var logLineRe = regexp.MustCompile(`^\[gosec\] \d{4}/\d{2}/\d{2} \d{2}:\d{2}:\d{2} (.*)$`)

// logEntries splits a log in its messages, each with its heading.
func logEntries(text string) ([]string, string) {
	if text == "" {
		return nil, ""
	}
	if !strings.HasSuffix(text, "\n") {
		return nil, "the last line is cut off"
	}
	var l []string
	for _, x := range strings.Split(strings.TrimSuffix(text, "\n"), "\n") {
		m := logLineRe.FindStringSubmatch(x)
		if m == nil {
			return nil, fmt.Sprintf("a line is no log entry: %q", x)
		}
		l = append(l, m[1])
	}
	return l, ""
}

// sameReport compares two JSON reports as sets of findings.
func sameReport(r *vh.Run, a, b cliOut) string {
	x, y := a.json(r), b.json(r)
	keys := func(rep jsonReport) []string {
		var l []string
		for _, is := range rep.Issues {
			l = append(l, jsonText(is))
		}
		sort.Strings(l)
		return l
	}
	if m, e := vh.Diff(keys(x), keys(y)); len(m)+len(e) > 0 {
		return fmt.Sprintf("findings missing: %v, extra: %v", m, e)
	}
	if x.Stats != y.Stats {
		return fmt.Sprintf("statistics %+v instead of %+v", y.Stats, x.Stats)
	}
	if jsonText(x.Errors) != jsonText(y.Errors) {
		return fmt.Sprintf("errors %v instead of %v", y.Errors, x.Errors)
	}
	return ""
}

// logProblem checks a log against what was scanned.
func logProblem(r *vh.Run, entries []string, s *selection, include, exclude string, missing []string) string {
	head := func(kind, list string) string {
		if list == "" {
			list = "default"
		}
		return kind + ": " + list
	}
	heads := []string{head("Including rules", include), head("Excluding rules", exclude), head("Including analyzers", include), head("Excluding analyzers", exclude)}
	if len(entries) < len(heads) {
		return fmt.Sprintf("holds %d lines only", len(entries))
	}
	gotHeads := append([]string{}, entries[:len(heads)]...)
	sort.Strings(gotHeads)
	sort.Strings(heads)
	if m, e := vh.Diff(heads, gotHeads); len(m)+len(e) > 0 {
		return fmt.Sprintf("does not start with the rules and analyzers in force: %v instead of %v", gotHeads, heads)
	}
	var want, got []string
	units := map[string]bool{}
	for _, a := range s.args {
		want = append(want, "directory "+a[2:])
	}
	for _, x := range missing {
		want = append(want, "skipped "+x)
	}
	for _, f := range s.all {
		if !f.goFile || !f.when(s.tags) || f.test && !s.tests {
			continue
		}
		unit := f.pkg
		if strings.Contains(f.text, "\npackage "+f.pkg+"_test\n") || strings.HasPrefix(f.text, "package "+f.pkg+"_test\n") {
			unit += "_test"
		}
		units[unit] = true
		if f.generated && s.exgen {
			want = append(want, "ignored "+f.pkg+"/"+f.name)
		} else {
			want = append(want, "checked "+f.pkg+"/"+f.name)
		}
	}
	for u := range units {
		want = append(want, "package "+u)
	}
	rel := func(p string) string {
		if !filepath.IsAbs(p) {
			return filepath.ToSlash(filepath.Clean(p))
		}
		if x, err := filepath.Rel(s.dir, p); err == nil {
			return filepath.ToSlash(x)
		}
		return p
	}
	imported, last := map[string]bool{}, ""
	for _, e := range entries[len(heads):] {
		r.Count("log entries", 1)
		if p, ok := strings.CutPrefix(e, "Import directory: "); ok {
			p = rel(p)
			imported[p] = true
			got = append(got, "directory "+p)
		} else if p, ok := strings.CutPrefix(e, "Checking package: "); ok {
			// the program that the go command generates for the tests
			if last = p; s.tests && (p == "main" || !units[p] && units[p+"_test"]) {
				// or the package without files that only has external tests
				continue
			}
			got = append(got, "package "+p)
		} else if p, ok := strings.CutPrefix(e, "Skipping: "); ok {
			got = append(got, "skipped "+rel(strings.TrimSuffix(p, ". Path doesn't exist.")))
		} else {
			kind := "checked "
			p, ok := strings.CutPrefix(e, "Checking file: ")
			if !ok {
				kind = "ignored "
				if p, ok = strings.CutPrefix(e, "Ignoring generated file: "); !ok {
					got = append(got, "message "+e)
					continue
				}
			}
			p = rel(p)
			d := filepath.ToSlash(filepath.Dir(p))
			if !imported[d] {
				return "names " + p + " before its directory"
			}
			if strings.TrimSuffix(last, "_test") != d {
				return "names " + p + " within the package " + last
			}
			got = append(got, kind+p)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
		return fmt.Sprintf("does not tell what was scanned: missing: %v, extra: %v", m, e)
	}
	return ""
}

func init() {
	All["C43"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("the modules of C19 (files that belong to a scan or not) scanned by the command with the log on standard error, in a file (new or with old content), switched off by -quiet or -terse, the report printed or written to a file; the log must be the trace that a model of the scan gives (one entry for each list of rules and analyzers, directory, package, file, ignored file, missing path, in a causal order), must be nowhere else, and the report must be the same each time; failing runs must say why in the log only; non-trivial: files are checked and some are left out")
		r.Assume("with -tests the program which the go command generates for the tests of a package may be named too")
		r.Need("logs", 40)
		r.Need("silent", 20)
		r.Need("failures", 20)
		r.Parallel(r.N(40, 500), func(i int, rng *rand.Rand) {
			s := newSelection(r, rng)
			opts := append([]string{}, s.opts...)
			include, exclude := "", ""
			ids := func() string {
				l := []string{"G401", "G501", "G404", "G103", "G115", "G405", "G602", "G505"}
				rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
				return strings.Join(l[:1+rng.Intn(3)], ",")
			}
			conf := map[string]string{}
			if rng.Intn(3) == 0 {
				include = ids() + ",G101,G407"
				if rng.Intn(2) == 0 {
					conf["include"] = include
				} else {
					opts = append(opts, "-include="+include)
				}
			}
			if rng.Intn(3) == 0 {
				exclude = ids()
				if rng.Intn(2) == 0 {
					conf["exclude"] = exclude
				} else {
					opts = append(opts, "-exclude="+exclude)
				}
			}
			if len(conf) > 0 {
				opts = append(opts, "-conf="+writeConf(r, jsonText(map[string]any{"global": conf})))
			}
			if rng.Intn(3) == 0 {
				opts = append(opts, "-track-suppressions")
			}
			args := append([]string{}, s.args...)
			var missing []string
			if rng.Intn(4) == 0 {
				missing = []string{"nowhere"}
				at := rng.Intn(len(args) + 1)
				args = append(args[:at:at], append([]string{"./nowhere"}, args[at:]...)...)
			}
			scratch := env(r).Dir()
			fm := func(o cliOut, log string) map[string]string {
				m := map[string]string{"args": strings.Join(o.args, " "), "stdout": o.stdout, "stderr": o.stderr, "log": log}
				for n, t := range s.files {
					m[n] = t
				}
				return m
			}
			ref := runCLI(r, s.dir, append(append([]string{}, opts...), args...)...)
			entries, pr := logEntries(ref.stderr)
			if pr == "" {
				pr = logProblem(r, entries, s, include, exclude, missing)
			}
			drop, checked := false, false
			for _, e := range entries {
				drop = drop || strings.HasPrefix(e, "Ignoring ")
				checked = checked || strings.HasPrefix(e, "Checking file")
			}
			r.Eval("logs", fmt.Sprint(i, opts), checked && (drop || !s.tests))
			if pr != "" {
				r.Violation("stderr", fmt.Sprintf("gosec %s: the log on standard error %s", strings.Join(ref.args, " "), pr), fm(ref, ref.stderr))
				return
			}
			for k := 0; k < 3; k++ {
				more := append([]string{}, opts...)
				logFile := ""
				if rng.Intn(3) > 0 {
					logFile = filepath.Join(scratch, fmt.Sprint("l", k, ".log"))
					if rng.Intn(2) == 0 {
						old := strings.Repeat("[gosec] 2020/01/01 00:00:00 Checking file: old\n", 1+rng.Intn(400))
						if err := os.WriteFile(logFile, []byte(old), 0o600); err != nil {
							r.Inconclusive("%v", err)
						}
					}
					more = append(more, "-log="+logFile)
				}
				silent := rng.Intn(3) == 0
				if silent {
					more = append(more, vh.Pick(rng, "-quiet", "-terse"))
				}
				out := ""
				if rng.Intn(3) == 0 {
					out = filepath.Join(scratch, fmt.Sprint("o", k, ".json"))
					more = append(more, "-out="+out)
					if rng.Intn(2) == 0 {
						more = append(more, "-stdout")
					}
				}
				o := runCLI(r, s.dir, append(more, args...)...)
				text := o.stderr
				where := "on standard error"
				if logFile != "" {
					b, err := os.ReadFile(logFile)
					if err != nil {
						r.Violation("file", fmt.Sprintf("gosec %s: the log file is missing: %v", strings.Join(o.args, " "), err), fm(o, ""))
						continue
					}
					text, where = string(b), "in the file"
					if o.stderr != "" {
						r.Violation("elsewhere", fmt.Sprintf("gosec %s: standard error is in use although the log goes to a file: %s", strings.Join(o.args, " "), o.stderr), fm(o, text))
					}
				}
				if silent {
					r.Eval("silent", fmt.Sprint(i, k, more), true)
					if text != "" {
						r.Violation("silent", fmt.Sprintf("gosec %s: the log %s is not empty: %s", strings.Join(o.args, " "), where, text), fm(o, text))
					}
				} else {
					r.Eval("logs", fmt.Sprint(i, k, more), true)
					l, pr := logEntries(text)
					if pr == "" {
						pr = logProblem(r, l, s, include, exclude, missing)
					}
					if pr != "" {
						r.Violation("log", fmt.Sprintf("gosec %s: the log %s %s", strings.Join(o.args, " "), where, pr), fm(o, text))
					}
				}
				if o.code != ref.code {
					r.Violation("status", fmt.Sprintf("gosec %s: exit status %d instead of %d", strings.Join(o.args, " "), o.code, ref.code), fm(o, text))
				}
				got := o
				if out != "" {
					b, err := os.ReadFile(out)
					if err != nil && !(silent && len(ref.json(r).Issues) == 0) {
						r.Violation("report", fmt.Sprintf("gosec %s: no report: %v", strings.Join(o.args, " "), err), fm(o, text))
						continue
					}
					if got.stdout = string(b); o.stdout != "" && !slices.Contains(more, "-stdout") {
						r.Violation("report", fmt.Sprintf("gosec %s: standard output is in use although the report goes to a file: %s", strings.Join(o.args, " "), o.stdout), fm(o, text))
					}
				}
				if silent && strings.TrimSpace(got.stdout) == "" && len(ref.json(r).Issues) == 0 {
					continue
				}
				if pr := sameReport(r, ref, got); pr != "" {
					r.Violation("report", fmt.Sprintf("gosec %s: another report than with the log on standard error: %s", strings.Join(o.args, " "), pr), fm(o, text))
				}
			}
			// a run that fails
			type failing struct {
				opts, args []string
				say        string
			}
			f := []failing{
				{[]string{"-severity=worst"}, args, "worst"},
				{[]string{"-confidence=none"}, args, "none"},
				{[]string{"-conf=" + filepath.Join(scratch, "no.json")}, args, "no.json"},
				{[]string{"-include=X1"}, args, ""},
				{[]string{"-exclude-dir=.*"}, []string{"./..."}, ""},
				{nil, []string{"./none/..."}, ""},
				{[]string{"-fmt=json", "-out=" + filepath.Join(scratch, "no", "such", "r.json")}, args, "r.json"},
			}[rng.Intn(7)]
			more := append([]string{}, f.opts...)
			logFile := ""
			if rng.Intn(2) == 0 {
				logFile = filepath.Join(scratch, "f.log")
				more = append(more, "-log="+logFile)
			}
			quiet := rng.Intn(4) == 0
			if quiet {
				more = append(more, "-terse")
			}
			o := runCLI(r, s.dir, append(more, f.args...)...)
			text := o.stderr
			if logFile != "" {
				b, _ := os.ReadFile(logFile)
				if text = string(b); o.stderr != "" {
					r.Violation("elsewhere", fmt.Sprintf("gosec %s: standard error is in use although the log goes to a file: %s", strings.Join(o.args, " "), o.stderr), fm(o, text))
				}
			}
			r.Eval("failures", fmt.Sprint(i, o.args), true)
			l, pr := logEntries(text)
			switch {
			case o.code == 0:
				pr = "exits with 0"
			case o.stdout != "":
				pr = "prints something: " + o.stdout
			case quiet && text != "":
				pr = "writes a log: " + text
			case quiet || pr != "":
			case len(l) == 0 || !strings.Contains(l[len(l)-1], f.say):
				pr = "does not say why it fails at the end of its log: " + text
			}
			if pr != "" {
				r.Violation("failure", fmt.Sprintf("gosec %s fails and %s", strings.Join(o.args, " "), pr), fm(o, text))
			}
			if i%11 == 0 {
				r.Sample(map[string]any{"options": opts, "log": entries, "failing run": o.args, "its log": l})
			}
		})
	}
}
