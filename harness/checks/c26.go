package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/google/uuid"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verif/harness/vh"
)

// sarifProblems judges a SARIF document by itself and against the findings it
// was made of.
func sarifProblems(text []byte, roots []string, data *gosec.ReportInfo) []string {
	var ps []string
	bad := func(f string, a ...any) { ps = append(ps, fmt.Sprintf(f, a...)) }
	d, err := parseSarif(text)
	if err != nil {
		return []string{"does not parse: " + err.Error()}
	}
	run := d.Runs[0]
	rules := run.Tool.Driver.Rules
	seen := map[string]int{}
	for n, x := range rules {
		if m, ok := seen[x.ID]; ok {
			bad("rule %s is described by %d and %d", x.ID, m, n)
		}
		seen[x.ID] = n
	}
	if v := run.Tool.Driver.Version; v != data.GosecVersion || v != "" && run.Tool.Driver.SemanticVersion != strings.TrimPrefix(v, "v") {
		bad("version %q, %q of gosec %q", v, run.Tool.Driver.SemanticVersion, data.GosecVersion)
	}
	// the properties of a rule are those of one of its findings
	for _, x := range rules {
		ok := map[string]bool{}
		for _, is := range data.Issues {
			if is.RuleID == x.ID {
				ok[is.Severity.String()+" "+strings.ToLower(is.Confidence.String())+" "+sarifLevel[is.Severity]] = true
			}
		}
		var tags []string
		for _, t := range x.Properties.Tags {
			if t != "security" {
				tags = append(tags, t)
			}
		}
		if got := strings.Join(tags, "+") + " " + x.Properties.Precision + " " + x.DefaultConfiguration.Level; len(ok) > 0 && (!ok[got] || len(tags)+1 != len(x.Properties.Tags)) {
			bad("rule properties %s (tags %v) of findings %v", got, x.Properties.Tags, sortedKeys(ok))
		}
	}
	// taxonomies
	if len(run.Taxonomies) != 1 || run.Taxonomies[0].Name != "CWE" {
		bad("taxonomies %v", run.Taxonomies)
		return ps
	}
	tax := run.Taxonomies[0]
	if len(run.Tool.Driver.SupportedTaxonomies) != 1 || run.Tool.Driver.SupportedTaxonomies[0].GUID != tax.GUID || run.Tool.Driver.SupportedTaxonomies[0].Name != "CWE" {
		bad("the taxonomy is not the supported one: %v", run.Tool.Driver.SupportedTaxonomies)
	}
	taxa := map[string]string{}
	for _, t := range tax.Taxa {
		if _, ok := taxa[t.ID]; ok {
			bad("taxon %s twice", t.ID)
		}
		taxa[t.ID] = t.GUID
		if w := cwe.Get(t.ID); w == nil || t.ShortDescription.Text != w.Name || t.HelpURI != "https://cwe.mitre.org/data/definitions/"+t.ID+".html" {
			bad("taxon %+v", t)
		}
		if t.GUID != uuid.NewMD5(uuid.Nil, []byte("CWE-"+t.ID)).String() {
			bad("GUID of taxon %s", t.ID)
		}
	}
	wantTaxa := map[string]bool{}
	for _, is := range data.Issues {
		if is.Cwe != nil {
			wantTaxa[is.Cwe.ID] = true
		}
	}
	if len(wantTaxa) != len(taxa) {
		bad("taxa %v for %v", sortedKeys(taxa), sortedKeys(wantTaxa))
	}
	cwes := map[string]map[string]bool{} // rule -> the weaknesses of its findings
	for _, is := range data.Issues {
		if cwes[is.RuleID] == nil {
			cwes[is.RuleID] = map[string]bool{}
		}
		cwes[is.RuleID][cweID(is)] = true
	}
	for _, x := range rules {
		c := cwes[x.ID]
		switch {
		case c == nil:
			bad("rule %s has no result", x.ID)
		case len(x.Relationships) == 0:
			if !c[""] {
				bad("rule %s (CWE %v) has no relationship", x.ID, sortedKeys(c))
			}
		case len(x.Relationships) != 1 || x.Relationships[0] == nil:
			bad("rule %s has %d relationships", x.ID, len(x.Relationships))
		default:
			if t := x.Relationships[0].Target; t.ID == "" || !c[t.ID] || taxa[t.ID] != t.GUID || t.GUID == "" || t.ToolComponent.GUID != tax.GUID || t.ToolComponent.Name != "CWE" {
				bad("rule %s (CWE %v) refers to %+v", x.ID, sortedKeys(c), t)
			}
		}
	}
	if len(run.Results) != len(data.Issues) {
		bad("%d results of %d findings", len(run.Results), len(data.Issues))
		return ps
	}
	for n, x := range run.Results {
		is := data.Issues[n]
		if x.RuleID != is.RuleID {
			bad("result %d is of rule %s instead of %s", n, x.RuleID, is.RuleID)
		}
		at := 0 // the value that is left out
		if x.RuleIndex != nil {
			at = *x.RuleIndex
		}
		if at < 0 || at >= len(rules) || rules[at].ID != x.RuleID {
			bad("result %d of rule %s has index %d of rules %v", n, x.RuleID, at, ruleIDsOf(rules))
		}
		if w := sarifLevel[is.Severity]; x.Level != w {
			bad("result %d: level %s for %s", n, x.Level, is.Severity)
		}
		if (len(x.Suppressions) > 0) != (len(is.Suppressions) > 0) || len(x.Suppressions) != len(is.Suppressions) {
			bad("result %d: %d suppressions of %d", n, len(x.Suppressions), len(is.Suppressions))
		} else {
			for k, s := range x.Suppressions {
				if s.Kind != is.Suppressions[k].Kind || s.Justification != is.Suppressions[k].Justification {
					bad("result %d: suppression %+v", n, s)
				}
			}
		}
		if len(x.Locations) != 1 {
			bad("result %d has %d locations", n, len(x.Locations))
			continue
		}
		l := x.Locations[0].PhysicalLocation
		u, err := url.Parse(l.ArtifactLocation.URI)
		if err != nil || u.IsAbs() || u.Host != "" || u.Path == "" || strings.HasPrefix(u.Path, "/") || u.RawQuery != "" || u.Fragment != "" {
			bad("result %d: URI %q of %s", n, l.ArtifactLocation.URI, is.File)
			continue
		}
		for _, c := range []byte(l.ArtifactLocation.URI) {
			if c <= ' ' || c >= 0x7f || strings.IndexByte("\"<>\\^`{|}", c) >= 0 {
				bad("result %d: URI %q has %q", n, l.ArtifactLocation.URI, c)
				break
			}
		}
		if w, ok := rel(is.File, roots); !ok || strings.TrimPrefix(u.Path, "./") != w {
			bad("result %d: URI %q of %s below %v", n, l.ArtifactLocation.URI, is.File, roots)
		}
		g := l.Region
		a, b := lineRange(is.Line)
		if g.StartLine != a || g.EndLine != b || fmt.Sprint(g.StartColumn) != is.Col || g.StartLine < 1 || g.EndLine < g.StartLine || g.StartColumn < 1 || g.EndColumn < 1 || (g.EndLine == g.StartLine && g.EndColumn < g.StartColumn) {
			bad("result %d: region %+v of line %s column %s", n, g, is.Line, is.Col)
		}
	}
	return ps
}

var sarifLevel = map[issue.Score]string{issue.Low: "warning", issue.Medium: "error", issue.High: "error"}

var numRe = regexp.MustCompile(`\d+`)

func ruleIDsOf(rs []sarifRule) []string {
	var s []string
	for _, x := range rs {
		s = append(s, x.ID)
	}
	return s
}

func init() {
	All["C26"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("findings of random sequences of rules (with and without CWE, repeated, ascending, descending), scores, suppressions and roots (siblings with common prefixes, file system root, special characters): an independent reader checks rule indices, uniqueness and origin of descriptors, CWE references, levels, suppressions, URIs and regions; SARIF reports of the command on scans with many rules; non-trivial: at least two rules")
		r.Assume("levels: LOW is a warning, MEDIUM and HIGH are errors", "a file below two roots may be relative to the last of them", "a rule index that is left out is zero")
		r.Parallel(r.N(8000, 200000), func(i int, rng *rand.Rand) {
			roots := randRoots(rng)
			is := randIssues(rng, vh.Pick(rng, 0, 1, 2, 3, 4, 6, 10, 40), roots, plainTexts)
			switch rng.Intn(4) {
			case 0:
				// in a given order of rules
				ids := append([]string{}, ruleIDs...)
				rng.Shuffle(len(ids), reflect.Swapper(ids))
				for k := range is {
					is[k].RuleID = ids[k%len(ids)]
					is[k].Cwe = issue.GetCweByRule(is[k].RuleID)
				}
			case 1:
				for k := range is {
					if rng.Intn(3) == 0 {
						// a rule of a library user
						is[k].RuleID, is[k].Cwe = "X"+is[k].RuleID, nil
					}
					if rng.Intn(4) == 0 {
						is[k].Cwe = cwe.Get(vh.Pick(rng, "22", "78", "89", "190", "798", "1204"))
					}
				}
			}
			rules := map[string]bool{}
			for _, x := range is {
				rules[x.RuleID] = true
			}
			data := gosec.NewReportInfo(is, &gosec.Metrics{}, nil).WithVersion(vh.Pick(rng, "", "v2.1.0", "dev"))
			var buf bytes.Buffer
			err := report.CreateReport(&buf, "sarif", false, roots, data)
			r.Eval("document", jsonText(is), len(rules) > 1)
			r.Count("results", int64(len(is)))
			fm := map[string]string{"report.sarif": buf.String(), "findings.json": jsonText(is), "roots": fmt.Sprint(roots)}
			if err != nil {
				r.Violation("error", err.Error(), fm)
				return
			}
			for _, p := range sarifProblems(buf.Bytes(), roots, data) {
				r.Violation("document/"+strings.Join(strings.Fields(numRe.ReplaceAllString(p, "N"))[:2], " "), p, fm)
			}
			if i%999 == 3 {
				r.Sample(map[string]any{"results": len(is), "rules": len(rules), "roots": roots})
			}
		})
		r.Parallel(r.N(6, 40), func(i int, rng *rand.Rand) {
			p := newProject(r, rng, 3+rng.Intn(3), false)
			args, roots := p.pkgs, []string{}
			for _, d := range p.pkgs {
				roots = append(roots, filepath.Join(p.dir, d))
			}
			opts := []string{vh.Pick(rng, "-sort=true", "-sort=false")}
			if rng.Intn(2) == 0 {
				opts = append(opts, "-track-suppressions")
			}
			switch rng.Intn(3) {
			case 0:
				args, roots = []string{"./..."}, []string{p.dir}
			case 1:
				args, roots = []string{"-r"}, []string{p.dir}
			}
			out := filepath.Join(env(r).Dir(), "out.json")
			all := append(append([]string{"-fmt=json", "-out=" + out, "-stdout", "-verbose=sarif"}, opts...), args...)
			o := runCLI(r, p.dir, all...)
			b, err := os.ReadFile(out)
			if err != nil {
				r.Inconclusive("%v: %s", err, o.stderr)
			}
			ref := cliOut{args: all, stdout: string(b)}.json(r)
			data := ref.data()
			r.Eval("command", fmt.Sprint(i), len(data.Issues) > 3)
			r.Count("results of the command", int64(len(data.Issues)))
			fm := map[string]string{"report.sarif": o.stdout, "report.json": string(b), "args": fmt.Sprint(all)}
			for _, pr := range sarifProblems([]byte(o.stdout), roots, data) {
				r.Violation("command/"+strings.Join(strings.Fields(numRe.ReplaceAllString(pr, "N"))[:2], " "), pr, fm)
			}
		})
	}
}
