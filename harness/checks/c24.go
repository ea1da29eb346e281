package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verif/harness/vh"
)

// texts makes the texts of a finding.
type texts struct {
	file, what, code, just, fix func(*rand.Rand) string
}

var plainTexts = texts{
	file: func(rng *rand.Rand) string {
		return vh.Pick(rng, "main.go", "a.go", "b_test.go", "sub/a.go", "sub/dir/x-y.go", "sub2/a.go", "cmd/main.go", "ünï/ö.go", "with space/my file.go", "a+b/c=d.go", "p%20q/r.go", "x#y.go", "tip?.go", "c:d.go", "a&b.go", "internal/internal/a.go")
	},
	what: func(rng *rand.Rand) string {
		return vh.Pick(rng, "Errors unhandled", "Use of weak random number generator (math/rand or math/rand/v2 instead of crypto/rand)", "Potential hardcoded credentials: GitHub token", "Expect file permissions to be 0600 or less", "integer overflow conversion int64 -> int32", "SQL string formatting", "Blocklisted import crypto/md5: weak cryptographic primitive", "Profiling endpoint is automatically exposed on /debug/pprof")
	},
	code: func(rng *rand.Rand) string {
		return vh.Pick(rng, "x := md5.New()", "\tif a < b && c > d { // \"quoted\" 'x'", "", "\t\tfmt.Println(`raw`, \"<tag>\", '&')", "return int32(a) - 5", "}", "use(a, b, c)  ", "s := \"%d: é日本\"")
	},
	just: func(rng *rand.Rand) string {
		return vh.Pick(rng, "", "reviewed", "Globally suppressed.", "a, b -- c \"d\"")
	},
	fix: func(rng *rand.Rand) string {
		return vh.Pick(rng, "", "", "", "use crypto/rand", "Use **sha256** instead of `md5`")
	},
}

// randIssues makes findings below the roots.
func randIssues(rng *rand.Rand, n int, roots []string, tx texts) []*issue.Issue {
	var is []*issue.Issue
	var rules []string
	for k := 1 + rng.Intn(6); k > 0; k-- {
		rules = append(rules, vh.PickS(rng, ruleIDs))
	}
	var files []string
	for k := 1 + rng.Intn(4); k > 0; k-- {
		files = append(files, strings.TrimSuffix(vh.PickS(rng, roots), "/")+"/"+tx.file(rng))
	}
	for len(is) < n {
		if len(is) > 0 && rng.Intn(6) == 0 {
			c := *vh.PickS(rng, is)
			is = append(is, &c) // a duplicate
			continue
		}
		id := vh.PickS(rng, rules)
		if rng.Intn(4) == 0 {
			id = vh.PickS(rng, ruleIDs)
		}
		a := 1 + rng.Intn(vh.Pick(rng, 3, 30, 2000))
		b := a
		if rng.Intn(4) == 0 {
			b += 1 + rng.Intn(12)
		}
		line := strconv.Itoa(a)
		if b > a {
			line += "-" + strconv.Itoa(b)
		}
		var code strings.Builder
		for k := max(1, a-1); k <= b+1; k++ {
			fmt.Fprintf(&code, "%d: %s\n", k, tx.code(rng))
		}
		x := &issue.Issue{
			Severity: issue.Score(rng.Intn(3)), Confidence: issue.Score(rng.Intn(3)), RuleID: id, Cwe: issue.GetCweByRule(id), What: tx.what(rng), File: vh.PickS(rng, files),
			Line: line, Col: strconv.Itoa(1 + rng.Intn(80)), Code: code.String(), NoSec: rng.Intn(6) == 0, Autofix: tx.fix(rng),
		}
		if rng.Intn(4) == 0 {
			for k := 1 + rng.Intn(2); k > 0; k-- {
				x.Suppressions = append(x.Suppressions, issue.SuppressionInfo{Kind: vh.Pick(rng, "inSource", "external"), Justification: tx.just(rng)})
			}
		}
		is = append(is, x)
	}
	return is
}

func randErrors(rng *rand.Rand, root string, tx texts) map[string][]gosec.Error {
	m := map[string][]gosec.Error{}
	for k := rng.Intn(3); k > 0; k-- {
		f := root + "/" + tx.file(rng)
		for n := 1 + rng.Intn(3); n > 0; n-- {
			m[f] = append(m[f], gosec.Error{Line: rng.Intn(100), Column: rng.Intn(100), Err: tx.what(rng)})
		}
	}
	return m
}

// randRoots are scan roots, none within another.
func randRoots(rng *rand.Rand) []string {
	return vh.Pick(rng, []string{"/home/u/project"}, []string{"/home/u/project"}, []string{"/w"}, []string{"/home/u/proj", "/home/u/project"}, []string{"/home/u/project", "/home/u/proj"}, []string{"/src/a b", "/src/ç"}, []string{"/p/q", "/p/q2", "/p/q-3", "/p"}, []string{"/"})
}

func init() {
	All["C24"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("random findings (up to 500, duplicates, ranges, all rules, scores, suppression states), errors and statistics through report.CreateReport in every format; the reports are read back by independent parsers and must give the projection of exactly the findings to be listed; reports of the command in all formats against the JSON report of the same scan; non-trivial: there are findings")
		r.Assume("suppressed findings are listed by JSON and SARIF only", "file names do not contain line breaks here (C25 has those)")
		r.Parallel(r.N(4000, 80000), func(i int, rng *rand.Rand) {
			roots := randRoots(rng)
			n := vh.Pick(rng, 0, 1, 2, 3, 5, 8, 20, 60)
			if rng.Intn(40) == 0 {
				n = 101 + rng.Intn(400)
			}
			list := randIssues(rng, n, roots, plainTexts)
			if n > 100 && rng.Intn(2) == 0 {
				for _, is := range list {
					is.What = list[0].What
				}
			}
			data := gosec.NewReportInfo(list, &gosec.Metrics{NumFiles: rng.Intn(2000), NumLines: rng.Intn(2000000), NumNosec: rng.Intn(100), NumFound: rng.Intn(100)}, randErrors(rng, roots[0], plainTexts)).WithVersion(vh.Pick(rng, "", "dev", "v2.22.4", "2.0"))
			if n == 0 {
				data.Issues = []*issue.Issue{}
			}
			before := jsonText(data)
			order := rng.Perm(len(formats))
			for _, k := range order {
				f := formats[k]
				color := rng.Intn(2) == 0
				var buf bytes.Buffer
				err := report.CreateReport(&buf, f, color, roots, data)
				r.Eval(f, before, n > 0)
				r.Count("rows in "+f, int64(n))
				fm := map[string]string{"report": buf.String(), "data.json": before, "roots": fmt.Sprint(roots)}
				if err != nil {
					r.Violation("error/"+f, fmt.Sprintf("%s: %v", f, err), fm)
					continue
				}
				if p := reportProblem(f, buf.Bytes(), roots, data, false); p != "" {
					r.Violation(f, f+" report: "+p, fm)
				}
			}
			if after := jsonText(data); after != before {
				r.Violation("altered", "writing the reports changed the data: "+firstDifference(before, after), map[string]string{"before": before, "after": after})
			}
			if i%211 == 3 && n > 0 {
				r.Sample(map[string]any{"findings": n, "roots": roots, "first": data.Issues[0]})
			}
		})
		// the command
		r.Parallel(r.N(4, 30), func(i int, rng *rand.Rand) {
			p := newProject(r, rng, 3, i%2 == 0)
			var opts []string
			if rng.Intn(2) == 0 {
				opts = append(opts, "-track-suppressions")
			}
			if rng.Intn(3) == 0 {
				opts = append(opts, "-show-ignored")
			}
			args := p.pkgs
			roots := []string{}
			for _, d := range p.pkgs {
				roots = append(roots, filepath.Join(p.dir, d))
			}
			switch rng.Intn(4) {
			case 0:
				args, roots = []string{"./..."}, []string{p.dir}
			case 1:
				args, roots = []string{p.dir + "/..."}, []string{p.dir}
			case 2:
				args, roots = nil, []string{p.dir}
				opts = append(opts, "-r")
			}
			ref := runCLI(r, p.dir, append(append([]string{"-fmt=json"}, opts...), args...)...).json(r)
			data := ref.data()
			if len(data.Issues) < 3 {
				r.Inconclusive("%d findings", len(data.Issues))
			}
			for _, f := range formats {
				o := runCLI(r, p.dir, append(append([]string{"-fmt=" + f}, opts...), args...)...)
				r.Eval("command "+f, fmt.Sprint(i, f), true)
				if pr := reportProblem(f, []byte(o.stdout), roots, data, false); pr != "" {
					fm := map[string]string{"report": o.stdout, "stderr": o.stderr, "args": fmt.Sprint(o.args)}
					for n, t := range p.src {
						fm[n] = t
					}
					r.Violation("command/"+f, fmt.Sprintf("gosec %v: %s", o.args, pr), fm)
				}
			}
		})
	}
}

// data turns a JSON report back into what it was made of.
func (rep jsonReport) data() *gosec.ReportInfo {
	d := &gosec.ReportInfo{Errors: map[string][]gosec.Error{}, Issues: []*issue.Issue{}, GosecVersion: rep.Version,
		Stats: &gosec.Metrics{NumFiles: rep.Stats.Files, NumLines: rep.Stats.Lines, NumNosec: rep.Stats.Nosec, NumFound: rep.Stats.Found}}
	for f, es := range rep.Errors {
		for _, e := range es {
			d.Errors[f] = append(d.Errors[f], gosec.Error{Line: e.Line, Column: e.Column, Err: e.Error})
		}
	}
	score := map[string]issue.Score{"LOW": issue.Low, "MEDIUM": issue.Medium, "HIGH": issue.High}
	for _, x := range rep.Issues {
		is := &issue.Issue{Severity: score[x.Severity], Confidence: score[x.Confidence], RuleID: x.RuleID, What: x.Details, File: x.File, Code: x.Code, Line: x.Line, Col: x.Column, NoSec: x.NoSec, Autofix: x.Autofix, Cwe: issue.GetCweByRule(x.RuleID)}
		for _, s := range x.Suppressions {
			is.Suppressions = append(is.Suppressions, issue.SuppressionInfo{Kind: s.Kind, Justification: s.Justification})
		}
		d.Issues = append(d.Issues, is)
	}
	return d
}
