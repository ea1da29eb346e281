package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/cwe"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verif/harness/vh"
)

// documentedCWE is the documented weakness of each rule.
var documentedCWE = map[string]string{
	"G101": "798",
	"G102": "200",
	"G103": "242",
	"G104": "703",
	"G106": "322",
	"G107": "88",
	"G108": "200",
	"G109": "190",
	"G110": "409",
	"G111": "22",
	"G112": "400",
	"G114": "676",
	"G115": "190",
	"G201": "89",
	"G202": "89",
	"G203": "79",
	"G204": "78",
	"G301": "276",
	"G302": "276",
	"G303": "377",
	"G304": "22",
	"G305": "22",
	"G306": "276",
	"G307": "276",
	"G401": "328",
	"G402": "295",
	"G403": "310",
	"G404": "338",
	"G405": "327",
	"G406": "328",
	"G407": "1204",
	"G501": "327",
	"G502": "327",
	"G503": "327",
	"G504": "327",
	"G505": "327",
	"G506": "327",
	"G507": "327",
	"G601": "118",
	"G602": "118",
}

// cweNames are the names of the weaknesses in the CWE list.
var cweNames = map[string]string{
	"22":   "Improper Limitation of a Pathname to a Restricted Directory ('Path Traversal')",
	"78":   "Improper Neutralization of Special Elements used in an OS Command ('OS Command Injection')",
	"79":   "Improper Neutralization of Input During Web Page Generation ('Cross-site Scripting')",
	"88":   "Improper Neutralization of Argument Delimiters in a Command ('Argument Injection')",
	"89":   "Improper Neutralization of Special Elements used in an SQL Command ('SQL Injection')",
	"118":  "Incorrect Access of Indexable Resource ('Range Error')",
	"190":  "Integer Overflow or Wraparound",
	"200":  "Exposure of Sensitive Information to an Unauthorized Actor",
	"242":  "Use of Inherently Dangerous Function",
	"276":  "Incorrect Default Permissions",
	"295":  "Improper Certificate Validation",
	"310":  "Cryptographic Issues",
	"322":  "Key Exchange without Entity Authentication",
	"326":  "Inadequate Encryption Strength",
	"327":  "Use of a Broken or Risky Cryptographic Algorithm",
	"328":  "Use of Weak Hash",
	"338":  "Use of Cryptographically Weak Pseudo-Random Number Generator (PRNG)",
	"377":  "Insecure Temporary File",
	"400":  "Uncontrolled Resource Consumption",
	"409":  "Improper Handling of Highly Compressed Data (Data Amplification)",
	"676":  "Use of Potentially Dangerous Function",
	"703":  "Improper Check or Handling of Exceptional Conditions",
	"798":  "Use of Hard-coded Credentials",
	"1204": "Generation of Weak Initialization Vector (IV)",
}

// cweProblem judges the weakness of a finding.
func cweProblem(is *issue.Issue) string {
	id, ok := documentedCWE[is.RuleID]
	if !ok {
		return "a rule that is not documented"
	}
	if is.Cwe == nil {
		return "no weakness instead of CWE-" + id
	}
	if is.Cwe.ID != id {
		return "CWE-" + is.Cwe.ID + " instead of CWE-" + id
	}
	if w := cwe.Get(id); w == nil || w.ID != id || w.Name != is.Cwe.Name || w.Description != is.Cwe.Description || w.Description == "" {
		return fmt.Sprintf("the taxonomy has %+v for %+v", w, is.Cwe)
	}
	if is.Cwe.Name != cweNames[id] {
		return fmt.Sprintf("CWE-%s is not named %q", id, is.Cwe.Name)
	}
	if u := is.Cwe.SprintURL(); u != "https://cwe.mitre.org/data/definitions/"+id+".html" {
		return "URL " + u
	}
	if s := is.Cwe.SprintID(); s != "CWE-"+id {
		return "identifier " + s
	}
	return ""
}

func init() {
	All["C23"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("scans of packages with findings of all rules and of the repository's sample programs under different configurations (audit mode, file modes, credential patterns, suppression tracking): the weakness of every finding against a table of documented weaknesses and against the taxonomy; the same findings through every report format that shows the weakness, read back by independent parsers; reports of the command; non-trivial: there are findings")
		r.Assume("the documented weakness of a rule is the table of this monitor, taken from the repository's mapping and, for G307, from its siblings G301, G302 and G306")
		confs := []func() gosec.Config{
			gosec.NewConfig,
			func() gosec.Config { c := gosec.NewConfig(); c.SetGlobal(gosec.Audit, "enabled"); return c },
			func() gosec.Config { c := gosec.NewConfig(); c["G307"] = "0o600"; return c },
			func() gosec.Config {
				c := gosec.NewConfig()
				c["G307"], c["G301"], c["G302"], c["G306"] = "0o400", "0o500", "0o400", "0o400"
				c["G101"] = map[string]any{"pattern": "(?i)plain|pass|token", "ignore_entropy": true}
				c["G104"] = map[string]any{"fmt": []any{"Sprint"}}
				c["G111"] = map[string]any{"pattern": "http\\.Dir"}
				c.SetGlobal(gosec.Nosec, "true")
				return c
			},
		}
		judge := func(kind string, is []*issue.Issue, src map[string]string) {
			for _, x := range is {
				r.Count("findings", 1)
				r.Count("findings of "+x.RuleID, 1)
				if p := cweProblem(x); p != "" {
					r.Violation("weakness/"+x.RuleID, kind+": "+x.RuleID+": "+p, src)
				}
			}
			data := gosec.NewReportInfo(is, &gosec.Metrics{}, nil)
			for _, f := range formats {
				if f == "sonarqube" || len(is) == 0 {
					continue
				}
				root := is[0].File[:strings.LastIndex(is[0].File, "/")]
				var buf bytes.Buffer
				if err := report.CreateReport(&buf, f, false, []string{root}, data); err != nil {
					r.Violation("report/"+f, fmt.Sprintf("%s: %s: %v", kind, f, err), src)
					continue
				}
				for _, p := range reportedCWE(f, buf.Bytes(), root) {
					r.Violation("report/"+f, kind+": "+f+": "+p, src)
				}
				r.Count("reports", 1)
			}
		}
		r.Parallel(r.N(24, 400), func(i int, rng *rand.Rand) {
			files := fullCorpus(rng, 1+rng.Intn(3))
			l := loadOrDie(r, files)
			defer l.Remove()
			res := vh.Scan(vh.Opts{Conf: confs[i%len(confs)](), Track: rng.Intn(2) == 0}, l)
			if res.Panic != "" {
				r.Violation("panic", res.Panic, vh.SrcMap(files))
				return
			}
			r.Eval("corpus", fmt.Sprint(i%len(confs), files), len(res.Issues) > 0)
			judge("corpus", res.Issues, vh.SrcMap(files))
			if i%7 == 0 && len(res.Issues) > 0 {
				r.Sample(map[string]any{"rule": res.Issues[0].RuleID, "cwe": res.Issues[0].Cwe, "findings": len(res.Issues)})
			}
		})
		ps := samplePrograms()
		r.Parallel(len(ps), func(i int, rng *rand.Rand) {
			l, err := env(r).Load(ps[i].files, nil)
			if err != nil {
				return
			}
			defer l.Remove()
			for n, c := range confs {
				conf := c()
				for k, v := range ps[i].conf {
					if k != gosec.Globals {
						conf[k] = v
					}
				}
				res := vh.Scan(vh.Opts{Conf: conf, Track: n%2 == 0}, l)
				if res.Panic != "" {
					continue // C20
				}
				r.Eval("sample", fmt.Sprint(ps[i].name, n), len(res.Issues) > 0)
				judge(ps[i].name, res.Issues, vh.SrcMap(ps[i].files))
			}
		})
		// the command
		dir := env(r).Dir()
		src := map[string]string{}
		for _, f := range fullCorpus(r.Rng, 2) {
			src[f.Name] = f.Text
		}
		writeModule(r, dir, src)
		conf := writeConf(r, `{"G307":"0o600","global":{"audit":"enabled"}}`)
		have := map[string]bool{}
		for _, f := range formats {
			if f == "sonarqube" {
				continue
			}
			o := runCLI(r, dir, "-fmt="+f, "-conf="+conf, ".")
			r.Eval("command", f, true)
			if f == "json" {
				for _, x := range o.json(r).Issues {
					have[x.RuleID] = true
				}
			}
			for _, p := range reportedCWE(f, []byte(o.stdout), dir) {
				r.Violation("command/"+f, f+": "+p, map[string]string{"report": o.stdout, "stderr": o.stderr})
			}
		}
		for id := range documentedCWE {
			if !have[id] && id != "G113" {
				r.Inconclusive("the command reports nothing of %s", id)
			}
			r.Need("findings of "+id, 1)
		}
		r.Need("findings", 2000)
	}
}

// reportedCWE lists the disagreements of a report with the documented
// weaknesses.
func reportedCWE(format string, text []byte, root string) []string {
	p, err := parseReport(format, text, []string{root})
	if err != nil {
		return []string{err.Error()}
	}
	var bad []string
	if format == "sarif" {
		d, _ := parseSarif(text)
		names := map[string]string{}
		for _, t := range d.Runs[0].Taxonomies[0].Taxa {
			names[t.ID] = t.ShortDescription.Text
			if t.ShortDescription.Text != cweNames[t.ID] || t.HelpURI != "https://cwe.mitre.org/data/definitions/"+t.ID+".html" {
				bad = append(bad, fmt.Sprintf("taxon %+v", t))
			}
		}
		for _, x := range d.Runs[0].Tool.Driver.Rules {
			id := documentedCWE[x.ID]
			if len(x.Relationships) != 1 || x.Relationships[0] == nil || x.Relationships[0].Target.ID != id || names[id] == "" {
				bad = append(bad, fmt.Sprintf("rule %s is not related to CWE-%s", x.ID, id))
			}
		}
		return bad
	}
	for _, x := range p.rows {
		switch format {
		case "json", "html":
			id := documentedCWE[x["rule"]]
			if x["cwe"] != id || x["url"] != "https://cwe.mitre.org/data/definitions/"+id+".html" {
				bad = append(bad, fmt.Sprintf("%s has CWE %s %s", x["rule"], x["cwe"], x["url"]))
			}
		case "yaml", "golint":
			if x["cwe"] != documentedCWE[x["rule"]] {
				bad = append(bad, fmt.Sprintf("%s has CWE %s", x["rule"], x["cwe"]))
			}
		case "text":
			if x["cwe"] != "CWE-"+documentedCWE[x["rule"]] {
				bad = append(bad, fmt.Sprintf("%s has %s", x["rule"], x["cwe"]))
			}
		case "csv":
			// the format has no place for the rule
			if cweNames[strings.TrimPrefix(x["cwe"], "CWE-")] == "" {
				bad = append(bad, fmt.Sprintf("%s has %s", x["message"], x["cwe"]))
			}
		case "junit-xml":
			_, t, ok := strings.Cut(x["text"], ", CWE: ")
			t, _, ok2 := strings.Cut(t, ")")
			if !ok || !ok2 || cweNames[t] == "" {
				bad = append(bad, fmt.Sprintf("%.200q", x["text"]))
			}
		}
	}
	return bad
}
