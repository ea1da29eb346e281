package checks

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"

	"verif/harness/vh"
)

// apiScan scans the packages of a project in this process, without the
// command.
func apiScan(r *vh.Run, p *project, o vh.Opts) vh.Result {
	conf := o.Conf
	if conf == nil {
		conf = gosec.NewConfig()
	}
	a := gosec.NewAnalyzer(conf, o.Tests, o.ExclGen, o.Track, 2, log.New(io.Discard, "", 0))
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(o.Exclude) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, o.Exclude...))
		af = append(af, analyzers.NewAnalyzerFilter(true, o.Exclude...))
	}
	a.LoadRules(rules.Generate(o.Track, rf...).RulesInfo())
	a.LoadAnalyzers(analyzers.Generate(o.Track, af...).AnalyzersInfo())
	var dirs []string
	for _, d := range p.pkgs {
		dirs = append(dirs, filepath.Join(p.dir, d))
	}
	if err := a.Process(nil, dirs...); err != nil {
		r.Inconclusive("scan of %v: %v", dirs, err)
	}
	is, m, errs := a.Report()
	return vh.Result{Issues: is, Metrics: *m, Errors: errs}
}

// essence is what every report of a finding has to agree on.
func essence(file, line, col, rule, sev, conf, what string) string {
	return strings.Join([]string{file, line, col, rule, sev, conf, what}, " | ")
}

func essenceOf(i *issue.Issue) string {
	return essence(i.File, i.Line, i.Col, i.RuleID, i.Severity.String(), i.Confidence.String(), i.What) + fmt.Sprint(" ", i.NoSec, i.Suppressions)
}

func (x jsonIssue) essence() string {
	var s []issue.SuppressionInfo
	for _, y := range x.Suppressions {
		s = append(s, issue.SuppressionInfo{Kind: y.Kind, Justification: y.Justification})
	}
	return essence(x.File, x.Line, x.Column, x.RuleID, x.Severity, x.Confidence, x.Details) + fmt.Sprint(" ", x.NoSec, s)
}

// smallProject has few findings, so that thresholds and suppressions often
// leave nothing.
func smallProject(r *vh.Run, rng *rand.Rand) *project {
	p := &project{dir: env(r).Dir(), src: map[string]string{}}
	for i := 0; i < 1+rng.Intn(2); i++ {
		name := fmt.Sprintf("pk%c", 'a'+i)
		var files []vh.Src
		switch rng.Intn(8) {
		case 6, 7:
			files = []vh.Src{{Name: "a.go", Text: "package " + name + "\n\nimport \"math/rand\"\n\nvar _ = rand.Int() // #nosec\n\nfunc F(a int64) int32 {\n\treturn int32(a) // #nosec G115 -- small\n}\n"}}
		case 0:
			files = []vh.Src{{Name: "a.go", Text: "package " + name + "\n\nimport \"os\"\n\nfunc F() {\n\tos.Remove(\"a\")\n}\n"}}
		case 1:
			files = []vh.Src{{Name: "a.go", Text: "package " + name + "\n\nfunc F() int { return 1 }\n"}}
		case 2:
			files = []vh.Src{{Name: "a.go", Text: "package " + name + "\n\nvar password = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\nvar plainPassword = \"password\"\n"}}
		default:
			files = corpusPkg(rng, name, 1+rng.Intn(2), 1, 1)
		}
		for _, f := range files {
			t := f.Text
			switch rng.Intn(4) {
			case 0:
				// everything is suppressed
				t = strings.ReplaceAll(t, "\n", " // #nosec\n")
				if strings.Contains(t, "`") {
					t = f.Text
				}
			case 1:
				t, _, _ = sprinkle(rng, t, nil, "#nosec", 4)
			}
			p.src[name+"/"+f.Name] = t
		}
		p.pkgs = append(p.pkgs, "./"+name)
	}
	if rng.Intn(4) == 0 {
		d := p.pkgs[0][2:]
		p.src[d+"/broken.go"] = "package " + d + "\n\nvar Bad int = \"x\"\n"
	}
	writeModule(r, p.dir, p.src)
	return p
}

var levels = []string{"low", "medium", "high"}

func init() {
	All["C22"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("modules of corpus packages with all severities, small ones where little or nothing is left, with suppressions and errors; findings from a scan through the library API, an independent model of thresholds, order, exit status and quiet mode; the command runs with random combinations of -severity, -confidence, -sort, -no-fail, -quiet, -track-suppressions, -show-ignored, -nosec, -exclude and formats; non-trivial: a threshold or suppression drops a finding or an option changes the status")
		r.Assume("with formats that do not list suppressed findings, quiet mode is not judged when only suppressed findings are left")
		np := r.N(26, 160)
		r.Parallel(np, func(i int, rng *rand.Rand) {
			var p *project
			if i%3 == 0 {
				p = newProjectOf(r, rng, 2, rng.Intn(3) == 0, false)
			} else {
				p = smallProject(r, rng)
			}
			refs := map[string]vh.Result{}
			for k := 0; k < 12; k++ {
				sev, conf := rng.Intn(3), rng.Intn(3)
				track, show, nosec := rng.Intn(2) == 0, rng.Intn(4) == 0, rng.Intn(5) == 0
				var excl []string
				if rng.Intn(4) == 0 {
					excl = []string{vh.PickS(rng, corpusRules), vh.PickS(rng, corpusRules)}
				}
				sortOff, noFail, quiet := rng.Intn(4) == 0, rng.Intn(4) == 0, rng.Intn(2) == 0
				format := "json"
				if rng.Intn(3) == 0 {
					format = vh.Pick(rng, "text", "csv", "golint", "sarif", "yaml", "junit-xml", "html", "sonarqube")
				}
				args := []string{"-fmt=" + format}
				cased := func(s string) string {
					return vh.Pick(rng, s, s, strings.ToUpper(s), strings.ToUpper(s[:1])+s[1:])
				}
				if sev > 0 || rng.Intn(2) == 0 {
					args = append(args, "-severity="+cased(levels[sev]))
				}
				if conf > 0 || rng.Intn(2) == 0 {
					args = append(args, "-confidence", cased(levels[conf]))
				}
				cfg := gosec.NewConfig()
				if track {
					args = append(args, "-track-suppressions")
				}
				if show {
					args = append(args, "-show-ignored")
					cfg.SetGlobal(gosec.ShowIgnored, "true")
				}
				if nosec {
					args = append(args, "-nosec")
					cfg.SetGlobal(gosec.Nosec, "true")
				}
				if excl != nil {
					args = append(args, "-exclude="+strings.Join(excl, ","))
				}
				if sortOff {
					args = append(args, "-sort=false")
				}
				if noFail {
					args = append(args, "-no-fail")
				}
				if quiet {
					args = append(args, "-quiet")
				}
				if rng.Intn(6) == 0 {
					args = append(args, "-terse")
				}
				rng.Shuffle(len(args), func(a, b int) {
					if !strings.HasPrefix(args[a], "-confidence") && !strings.HasPrefix(args[b], "-confidence") && strings.HasPrefix(args[a], "-") && strings.HasPrefix(args[b], "-") {
						args[a], args[b] = args[b], args[a]
					}
				})
				rk := fmt.Sprint(track, show, nosec, excl)
				ref, ok := refs[rk]
				if !ok {
					ref = apiScan(r, p, vh.Opts{Conf: cfg, Track: track, Exclude: excl})
					refs[rk] = ref
				}
				var want []string
				bad := 0
				for _, is := range ref.Issues {
					if int(is.Severity) >= sev && int(is.Confidence) >= conf {
						want = append(want, essenceOf(is))
						if !is.NoSec && len(is.Suppressions) == 0 {
							bad++
						}
					}
				}
				sort.Strings(want)
				code := 0
				if (bad > 0 || len(ref.Errors) > 0) && !noFail {
					code = 1
				}
				o := runCLI(r, p.dir, append(args, p.pkgs...)...)
				fm := map[string]string{"args": fmt.Sprint(args, p.pkgs), "stdout": o.stdout, "stderr": o.stderr}
				for n, t := range p.src {
					fm[n] = t
				}
				key := fmt.Sprint(i, " ", args)
				r.Eval("combination", key, len(want) < len(ref.Issues) || bad < len(want) || noFail || quiet)
				if len(want) == 0 {
					r.Count("nothing left", 1)
				}
				if bad == 0 && len(want) > 0 {
					r.Count("only suppressed left", 1)
				}
				if len(ref.Errors) > 0 {
					r.Count("with errors", 1)
				}
				r.Count(fmt.Sprintf("exit %d", code), 1)
				if (i*12+k)%29 == 0 {
					r.Sample(map[string]any{"options": args, "findings": len(ref.Issues), "passing": len(want), "unsuppressed": bad, "errors": len(ref.Errors), "exit": code})
				}
				if o.code != code || o.timeout {
					r.Violation("status", fmt.Sprintf("gosec %v: exit %d instead of %d (%d findings pass, %d of them unsuppressed, %d errors)\n%s", args, o.code, code, len(want), bad, len(ref.Errors), firstBytes(o.stderr, 400)), fm)
					continue
				}
				none := len(want) == 0 && len(ref.Errors) == 0
				empty := strings.TrimSpace(o.stdout) == ""
				if quiet && none {
					r.Count("quiet and nothing to report", 1)
					if o.stdout != "" {
						r.Violation("quiet/noise", fmt.Sprintf("gosec %v: a report of nothing in quiet mode:\n%s", args, o.stdout), fm)
					}
					continue
				}
				judged := format == "json" || format == "sarif" || bad > 0 || len(ref.Errors) > 0 && format != "golint" && format != "csv"
				if empty && judged {
					r.Violation("quiet/silent", fmt.Sprintf("gosec %v: no report, but %d findings and %d errors", args, len(want), len(ref.Errors)), fm)
					continue
				}
				if format != "json" {
					continue
				}
				rep := o.json(r)
				var got []string
				last := issue.High
				for n, x := range rep.Issues {
					got = append(got, x.essence())
					s := map[string]issue.Score{"LOW": issue.Low, "MEDIUM": issue.Medium, "HIGH": issue.High}[x.Severity]
					if !sortOff && s > last {
						r.Violation("order", fmt.Sprintf("gosec %v: finding %d of severity %s behind a lower one", args, n, x.Severity), fm)
						break
					}
					last = s
				}
				sort.Strings(got)
				r.Count("findings compared", int64(len(got)))
				if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
					r.Violation("filter", fmt.Sprintf("gosec %v: missing %v\nextra %v", args, m, e), fm)
				}
			}
		})
		// values that are no thresholds
		p := &project{dir: env(r).Dir(), src: map[string]string{"a.go": "package a\n\nimport _ \"crypto/md5\"\n"}}
		writeModule(r, p.dir, p.src)
		for _, v := range []string{"", "lo", "none", "1", "medium,high", "critical", " high"} {
			for _, f := range []string{"-severity=", "-confidence="} {
				o := runCLI(r, p.dir, "-fmt=json", f+v, ".")
				r.Eval("invalid threshold", f+v, true)
				if o.code == 0 || o.stdout != "" {
					r.Violation("invalid", fmt.Sprintf("gosec %s%q: exit %d, output %q", f, v, o.code, firstBytes(o.stdout, 300)), nil)
				}
			}
		}
		r.Need("nothing left", 10)
		r.Need("only suppressed left", 5)
		r.Need("quiet and nothing to report", 5)
		r.Need("with errors", 10)
		r.Need("findings compared", 500)
	}
}

func firstBytes(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
