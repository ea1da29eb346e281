package checks

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"net/url"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// Formats are all report formats.
var formats = []string{"json", "yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif", "text"}

// row is one finding of a report as far as the format has a place for it.
type row map[string]string

func (f row) String() string {
	var s []string
	for _, k := range sortedKeys(f) {
		s = append(s, k+"="+strconv.Quote(f[k]))
	}
	return strings.Join(s, " ")
}

func rowTexts(fs []row) []string {
	var s []string
	for _, f := range fs {
		s = append(s, f.String())
	}
	sort.Strings(s)
	return s
}

// parsed is what a report says.
type parsed struct {
	rows   []row
	errors map[string][]gosec.Error // nil: not in the format
	stats  *gosec.Metrics           // nil: not in the format
	text   string                   // remaining problems
}

// listed tells whether a format lists the finding.
func listed(format string, is *issue.Issue) bool {
	return format == "json" || format == "sarif" || len(is.Suppressions) == 0
}

// hasStats tells which formats show statistics and errors.
func hasStats(format string) bool {
	return format == "json" || format == "yaml" || format == "html" || format == "text"
}

func cweID(is *issue.Issue) string {
	if is.Cwe == nil {
		return ""
	}
	return is.Cwe.ID
}

func scoreName(s issue.Score) string { return [...]string{"LOW", "MEDIUM", "HIGH"}[s] }

// rel gives the path below the root (the last one that contains it).
func rel(file string, roots []string) (string, bool) {
	res, ok := "", false
	for _, r := range roots {
		p := strings.TrimSuffix(r, "/") + "/"
		if strings.HasPrefix(file, p) {
			res, ok = file[len(p):], true
		}
	}
	return res, ok
}

// xmlText is the part of a text that XML can carry.
func xmlText(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xd7ff || c >= 0xe000 && c <= 0xfffd || c >= 0x10000:
			b.WriteRune(c)
		default:
			b.WriteRune('\ufffd')
		}
	}
	return b.String()
}

// each invalid byte becomes one replacement character in JSON and XML.
func validText(s string) string {
	return string([]rune(s))
}

// snippetOf gives the lines of a finding without the indentation and the
// lines around.
func snippetOf(is *issue.Issue) string {
	a, b := lineRange(is.Line)
	t := ""
	for _, l := range strings.Split(is.Code, "\n") {
		n, x, ok := strings.Cut(l, ": ")
		if k, err := strconv.Atoi(n); ok && err == nil && k >= a && k <= b {
			t += strings.TrimSpace(x)
			if b > a {
				t += "\n"
			}
		}
	}
	return t
}

// rowOf gives the row a format has to have for a finding.
func rowOf(format string, is *issue.Issue, roots []string) row {
	v := validText
	first, last, rng := strings.Cut(is.Line, "-")
	if !rng {
		last = first
	}
	supp := fmt.Sprint(is.Suppressions)
	if len(is.Suppressions) == 0 {
		supp = "[]"
	}
	switch format {
	case "json", "html":
		u := ""
		if is.Cwe != nil {
			u = "https://cwe.mitre.org/data/definitions/" + is.Cwe.ID + ".html"
		}
		return row{"file": v(is.File), "line": v(is.Line), "col": v(is.Col), "rule": v(is.RuleID), "severity": scoreName(is.Severity), "confidence": scoreName(is.Confidence),
			"message": v(is.What), "code": v(is.Code), "cwe": cweID(is), "url": u, "nosec": fmt.Sprint(is.NoSec), "suppressions": v(supp), "autofix": v(is.Autofix)}
	case "yaml":
		return row{"file": is.File, "line": is.Line, "col": is.Col, "rule": is.RuleID, "severity": scoreName(is.Severity), "confidence": scoreName(is.Confidence),
			"message": is.What, "code": is.Code, "cwe": cweID(is), "nosec": fmt.Sprint(is.NoSec), "suppressions": supp, "autofix": is.Autofix}
	case "csv":
		id := "CWE-0000"
		if is.Cwe != nil {
			id = "CWE-" + is.Cwe.ID
		}
		// the reader of encoding/csv reads \r\n as \n
		n := func(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }
		return row{"file": n(is.File), "line": is.Line, "message": n(is.What), "severity": scoreName(is.Severity), "confidence": scoreName(is.Confidence), "code": n(is.Code), "cwe": id}
	case "junit-xml":
		id := "CWE"
		if is.Cwe != nil {
			id = is.Cwe.ID
		}
		text := "Results:\n[" + is.File + ":" + is.Line + "] - " + is.What + " (Confidence: " + strconv.Itoa(int(is.Confidence)) + ", Severity: " + strconv.Itoa(int(is.Severity)) +
			", CWE: " + id + ")\n> " + is.Code + "\n Autofix: " + is.Autofix
		return row{"suite": xmlText(is.What), "file": xmlText(is.File), "text": xmlText(text)}
	case "sonarqube":
		f, _ := rel(is.File, roots)
		return row{"file": v(f), "line": first, "last": last, "rule": v(is.RuleID), "severity": map[issue.Score]string{issue.Low: "MINOR", issue.Medium: "MAJOR", issue.High: "BLOCKER"}[is.Severity], "message": v(is.What)}
	case "golint":
		return row{"file": is.File, "line": first, "col": is.Col, "rule": is.RuleID, "severity": scoreName(is.Severity), "confidence": scoreName(is.Confidence), "message": is.What, "cwe": cweID(is)}
	case "sarif":
		f, _ := rel(is.File, roots)
		var sp []string
		for _, s := range is.Suppressions {
			sp = append(sp, v(s.Kind)+" "+v(s.Justification))
		}
		return row{"file": f, "snippet": v(snippetOf(is)), "line": first, "last": last, "col": is.Col, "rule": v(is.RuleID), "level": map[issue.Score]string{issue.Low: "warning", issue.Medium: "error", issue.High: "error"}[is.Severity],
			"message": v(is.What), "suppressions": fmt.Sprint(sp), "autofix": v(is.Autofix)}
	case "text":
		var code []string
		if c := strings.TrimSuffix(is.Code, "\n"); c != "" {
			code = strings.Split(c, "\n")
		}
		id := "CWE"
		if is.Cwe != nil {
			id = "CWE-" + is.Cwe.ID
		}
		return row{"file": is.File, "line": is.Line, "rule": is.RuleID, "severity": scoreName(is.Severity), "confidence": scoreName(is.Confidence), "message": is.What, "cwe": id,
			"nosec": fmt.Sprint(is.NoSec), "code": strings.Join(code, "\n"), "autofix": strings.TrimSpace(is.Autofix)}
	}
	panic(format)
}

var (
	golintRe = regexp.MustCompile(`^(.*):(\d+):(\d+): (?:\[CWE-(\d+)\] )?(.*) \(Rule:(\S*), Severity:(\w+), Confidence:(\w+)\)$`)
	textRe   = regexp.MustCompile(`^\[(.*):(\d+(?:-\d+)?)\] - (\S+?)( \(NoSec\))? \((CWE(?:-\d+)?)\): (.*) \(Confidence: (\w+), Severity: (\w+)\)$`)
	errRe    = regexp.MustCompile(`^  > \[line (-?\d+) : column (-?\d+)\] - (.*)$`)
	ansiRe   = regexp.MustCompile("\x1b\\[[0-9;]*m")
	dataRe   = regexp.MustCompile(`(?m)^\s*var data = (.*);$`)
)

// keyOf is the name of a field in the documents: of its tag, or in camel case.
func keyOf(f reflect.StructField) string {
	if t, _, _ := strings.Cut(f.Tag.Get("json"), ","); t != "" {
		return t
	}
	if strings.ToUpper(f.Name) == f.Name {
		return strings.ToLower(f.Name)
	}
	n := strings.NewReplacer("ID", "Id", "URI", "Uri", "GUID", "Guid").Replace(f.Name)
	return strings.ToLower(n[:1]) + n[1:]
}

// exactKeys makes sure that the keys of a document are written as documented:
// decoding into v does not care about upper and lower case.
func exactKeys(text []byte, v any) error {
	var doc any
	if err := json.Unmarshal(text, &doc); err != nil {
		return err
	}
	var walk func(doc any, t reflect.Type) error
	walk = func(doc any, t reflect.Type) error {
		for t.Kind() == reflect.Pointer {
			t = t.Elem()
		}
		switch d := doc.(type) {
		case []any:
			for _, x := range d {
				if t.Kind() == reflect.Slice {
					if err := walk(x, t.Elem()); err != nil {
						return err
					}
				}
			}
		case map[string]any:
			if t.Kind() == reflect.Map {
				for _, x := range d {
					if err := walk(x, t.Elem()); err != nil {
						return err
					}
				}
			}
			if t.Kind() != reflect.Struct {
				return nil
			}
			for i := 0; i < t.NumField(); i++ {
				want := keyOf(t.Field(i))
				for k, x := range d {
					if k == want {
						if err := walk(x, t.Field(i).Type); err != nil {
							return err
						}
					} else if strings.EqualFold(k, want) || strings.EqualFold(k, t.Field(i).Name) {
						return fmt.Errorf("key %q instead of %q", k, want)
					}
				}
			}
		}
		return nil
	}
	return walk(doc, reflect.TypeOf(v))
}

func jsonRows(text []byte, url bool) (*parsed, error) {
	var d struct {
		Errors  map[string][]jsonError `json:"Golang errors"`
		Issues  []jsonIssue            `json:"Issues"`
		Stats   *jsonStats             `json:"Stats"`
		Version string                 `json:"GosecVersion"`
	}
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.DisallowUnknownFields()
	if err := dec.Decode(&d); err != nil {
		return nil, err
	}
	if dec.More() {
		return nil, fmt.Errorf("text behind the document")
	}
	if err := exactKeys(text, d); err != nil {
		return nil, err
	}
	p := &parsed{errors: map[string][]gosec.Error{}}
	for f, es := range d.Errors {
		for _, e := range es {
			p.errors[f] = append(p.errors[f], gosec.Error{Line: e.Line, Column: e.Column, Err: e.Error})
		}
	}
	if s := d.Stats; s != nil {
		p.stats = &gosec.Metrics{NumFiles: s.Files, NumLines: s.Lines, NumNosec: s.Nosec, NumFound: s.Found}
	}
	if d.Issues == nil {
		return nil, fmt.Errorf("no list of findings")
	}
	for _, x := range d.Issues {
		var s []issue.SuppressionInfo
		for _, y := range x.Suppressions {
			s = append(s, issue.SuppressionInfo{Kind: y.Kind, Justification: y.Justification})
		}
		f := row{"file": x.File, "line": x.Line, "col": x.Column, "rule": x.RuleID, "severity": x.Severity, "confidence": x.Confidence, "message": x.Details, "code": x.Code,
			"cwe": "", "url": "", "nosec": fmt.Sprint(x.NoSec), "suppressions": fmt.Sprint(s), "autofix": x.Autofix}
		if x.Cwe != nil {
			f["cwe"], f["url"] = x.Cwe.ID, x.Cwe.URL
		}
		p.rows = append(p.rows, f)
	}
	return p, nil
}

// parseReport reads a report back.
func parseReport(format string, text []byte, roots []string) (*parsed, error) {
	switch format {
	case "json":
		return jsonRows(text, true)
	case "html":
		m := dataRe.FindAllSubmatch(text, -1)
		if len(m) != 1 {
			return nil, fmt.Errorf("%d data statements", len(m))
		}
		return jsonRows(m[0][1], true)
	case "yaml":
		var d struct {
			Errors map[string][]struct {
				Line, Column int
				Err          string
			}
			Issues []struct {
				Severity, Confidence int
				Cwe                  *struct{ ID, Name, Description string }
				RuleID               string `yaml:"ruleid"`
				What                 string
				File, Code           string
				Line, Col            string
				NoSec                bool `yaml:"nosec"`
				Suppressions         []struct{ Kind, Justification string }
				Autofix              string
			}
			Stats struct {
				NumFiles int `yaml:"numfiles"`
				NumLines int `yaml:"numlines"`
				NumNosec int `yaml:"numnosec"`
				NumFound int `yaml:"numfound"`
			}
			GosecVersion string `yaml:"gosecversion"`
		}
		dec := yaml.NewDecoder(bytes.NewReader(text))
		dec.KnownFields(true)
		if err := dec.Decode(&d); err != nil {
			return nil, err
		}
		p := &parsed{errors: map[string][]gosec.Error{}, stats: &gosec.Metrics{NumFiles: d.Stats.NumFiles, NumLines: d.Stats.NumLines, NumNosec: d.Stats.NumNosec, NumFound: d.Stats.NumFound}}
		for k, es := range d.Errors {
			for _, e := range es {
				p.errors[k] = append(p.errors[k], gosec.Error{Line: e.Line, Column: e.Column, Err: e.Err})
			}
		}
		for _, x := range d.Issues {
			if x.Severity < 0 || x.Severity > 2 || x.Confidence < 0 || x.Confidence > 2 {
				return nil, fmt.Errorf("score %d %d", x.Severity, x.Confidence)
			}
			f := row{"file": x.File, "line": x.Line, "col": x.Col, "rule": x.RuleID, "severity": scoreName(issue.Score(x.Severity)), "confidence": scoreName(issue.Score(x.Confidence)), "message": x.What, "code": x.Code,
				"cwe": "", "nosec": fmt.Sprint(x.NoSec), "suppressions": "[]", "autofix": x.Autofix}
			if len(x.Suppressions) > 0 {
				f["suppressions"] = fmt.Sprint(x.Suppressions)
			}
			if x.Cwe != nil {
				f["cwe"] = x.Cwe.ID
			}
			p.rows = append(p.rows, f)
		}
		return p, nil
	case "csv":
		rd := csv.NewReader(bytes.NewReader(text))
		rd.FieldsPerRecord = 7
		recs, err := rd.ReadAll()
		if err != nil {
			return nil, err
		}
		p := &parsed{}
		for _, x := range recs {
			p.rows = append(p.rows, row{"file": x[0], "line": x[1], "message": x[2], "severity": x[3], "confidence": x[4], "code": x[5], "cwe": x[6]})
		}
		return p, nil
	case "junit-xml":
		var d struct {
			XMLName xml.Name `xml:"testsuites"`
			Suites  []struct {
				Name  string `xml:"name,attr"`
				Tests int    `xml:"tests,attr"`
				Cases []struct {
					Name    string `xml:"name,attr"`
					Failure struct {
						Message  string `xml:"message,attr"`
						Text     string `xml:",chardata"`
						Children []struct {
							XMLName xml.Name
						} `xml:",any"`
					} `xml:"failure"`
				} `xml:"testcase"`
			} `xml:"testsuite"`
		}
		dec := xml.NewDecoder(bytes.NewReader(text))
		if err := dec.Decode(&d); err != nil {
			return nil, err
		}
		if t, err := dec.Token(); err == nil {
			return nil, fmt.Errorf("text behind the document: %v", t)
		}
		p := &parsed{}
		for _, s := range d.Suites {
			if s.Tests != len(s.Cases) {
				return nil, fmt.Errorf("suite %q claims %d tests of %d", s.Name, s.Tests, len(s.Cases))
			}
			for _, c := range s.Cases {
				if len(c.Failure.Children) > 0 {
					return nil, fmt.Errorf("element %s in the text of a failure", c.Failure.Children[0].XMLName.Local)
				}
				p.rows = append(p.rows, row{"suite": s.Name, "file": c.Name, "text": c.Failure.Text})
			}
		}
		return p, nil
	case "sonarqube":
		var d struct {
			Issues []struct {
				EngineID, RuleID string
				PrimaryLocation  struct {
					Message, FilePath string
					TextRange         struct{ StartLine, EndLine int }
				}
				Type, Severity string
				EffortMinutes  int
			}
		}
		if err := json.Unmarshal(text, &d); err != nil {
			return nil, err
		}
		if err := exactKeys(text, d); err != nil {
			return nil, err
		}
		if d.Issues == nil {
			return nil, fmt.Errorf("no list of findings")
		}
		p := &parsed{}
		for _, x := range d.Issues {
			l := x.PrimaryLocation
			p.rows = append(p.rows, row{"file": l.FilePath, "line": strconv.Itoa(l.TextRange.StartLine), "last": strconv.Itoa(l.TextRange.EndLine), "rule": x.RuleID, "severity": x.Severity, "message": l.Message})
		}
		return p, nil
	case "golint":
		p := &parsed{}
		for _, l := range strings.Split(strings.TrimSuffix(string(text), "\n"), "\n") {
			if l == "" && len(text) == 0 {
				break
			}
			m := golintRe.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Errorf("line %q", l)
			}
			p.rows = append(p.rows, row{"file": m[1], "line": m[2], "col": m[3], "cwe": m[4], "message": m[5], "rule": m[6], "severity": m[7], "confidence": m[8]})
		}
		return p, nil
	case "sarif":
		d, err := parseSarif(text)
		if err != nil {
			return nil, err
		}
		p := &parsed{}
		for _, x := range d.Runs[0].Results {
			if len(x.Locations) != 1 {
				return nil, fmt.Errorf("%d locations", len(x.Locations))
			}
			l := x.Locations[0].PhysicalLocation
			f, err := url.PathUnescape(l.ArtifactLocation.URI)
			if err != nil {
				return nil, fmt.Errorf("URI: %w", err)
			}
			sp := []string{}
			for _, s := range x.Suppressions {
				sp = append(sp, s.Kind+" "+s.Justification)
			}
			fix := ""
			for _, s := range x.Fixes {
				fix += s.Description.Markdown
			}
			p.rows = append(p.rows, row{"file": strings.TrimPrefix(f, "./"), "snippet": l.Region.Snippet.Text, "line": strconv.Itoa(l.Region.StartLine), "last": strconv.Itoa(l.Region.EndLine), "col": strconv.Itoa(l.Region.StartColumn), "rule": x.RuleID,
				"level": x.Level, "message": x.Message.Text, "suppressions": fmt.Sprint(sp), "autofix": fix})
		}
		return p, nil
	case "text":
		return parseText(ansiRe.ReplaceAllString(string(text), ""))
	}
	panic(format)
}

func parseText(text string) (*parsed, error) {
	p := &parsed{errors: map[string][]gosec.Error{}, stats: &gosec.Metrics{NumFound: -1}}
	body, sum, ok := cutLast(text, "\nSummary:\n")
	if !ok || !strings.HasPrefix(body, "Results:\n") {
		return nil, fmt.Errorf("no results or summary")
	}
	var cur row
	errFile := ""
	var code []string
	var marked []bool
	for n, l := range strings.Split(strings.TrimPrefix(body, "Results:\n"), "\n") {
		if m := textRe.FindStringSubmatch(l); m != nil && cur == nil {
			cur = row{"file": m[1], "line": m[2], "rule": m[3], "nosec": fmt.Sprint(m[4] != ""), "cwe": m[5], "message": m[6], "confidence": m[7], "severity": m[8]}
			code, marked = nil, nil
			continue
		}
		if cur != nil {
			if a, ok := strings.CutPrefix(l, "Autofix: "); ok {
				cur["autofix"] = strings.TrimSpace(a)
				cur["code"] = strings.Join(code, "\n")
				if m := wrongMarker(cur["line"], code, marked); m != "" {
					return nil, fmt.Errorf("line %d: %s", n, m)
				}
				p.rows = append(p.rows, cur)
				cur = nil
				continue
			}
			switch {
			case strings.HasPrefix(l, "  > "), strings.HasPrefix(l, "    "):
				code, marked = append(code, l[4:]), append(marked, l[2] == '>')
			case l == "":
			default:
				return nil, fmt.Errorf("line %d in a finding: %q", n, l)
			}
			continue
		}
		if f, ok := strings.CutPrefix(l, "Golang errors in file: ["); ok {
			errFile = strings.TrimSuffix(f, "]:")
			continue
		}
		if m := errRe.FindStringSubmatch(l); m != nil {
			a, _ := strconv.Atoi(m[1])
			b, _ := strconv.Atoi(m[2])
			p.errors[errFile] = append(p.errors[errFile], gosec.Error{Line: a, Column: b, Err: m[3]})
			continue
		}
		if es := p.errors[errFile]; len(es) > 0 && l != "" {
			// messages of several lines
			es[len(es)-1].Err += "\n" + l
			continue
		}
		if strings.TrimSpace(l) != "" {
			return nil, fmt.Errorf("line %d: %q", n, l)
		}
	}
	if cur != nil {
		return nil, fmt.Errorf("unfinished finding")
	}
	for _, l := range strings.Split(sum, "\n") {
		k, v, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSpace(v))
		switch strings.TrimSpace(k) {
		case "Files":
			p.stats.NumFiles = n
		case "Lines":
			p.stats.NumLines = n
		case "Nosec":
			p.stats.NumNosec = n
		case "Issues":
			p.stats.NumFound = n
		default:
			err = nil
		}
		if err != nil {
			return nil, fmt.Errorf("summary: %q", l)
		}
	}
	return p, nil
}

// wrongMarker compares the markers of an excerpt with the lines of its finding: of the numbered, consecutive lines of an
// excerpt which starts at the finding or at the line before, the ones of the finding are marked, and no others.
func wrongMarker(lines string, code []string, marked []bool) string {
	a, b, ok := strings.Cut(lines, "-")
	if !ok {
		b = a
	}
	from, _ := strconv.Atoi(a)
	to, _ := strconv.Atoi(b)
	first := 0
	for i, l := range code {
		s, _, ok := strings.Cut(l, ": ")
		n, err := strconv.Atoi(s)
		if !ok || err != nil {
			return ""
		}
		if i == 0 {
			first = n
		}
		if n != first+i {
			return ""
		}
	}
	if first != from && first != from-1 {
		return ""
	}
	for i, l := range code {
		if n := first + i; marked[i] != (from <= n && n <= to) {
			return fmt.Sprintf("marker of %q in a finding of line %s: %v", l, lines, marked[i])
		}
	}
	return ""
}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

// sarifDoc is the part of a SARIF document that the monitors judge.
type sarifDoc struct {
	Schema  string `json:"$schema"`
	Version string
	Runs    []struct {
		Tool struct {
			Driver struct {
				Name, GUID, SemanticVersion, Version string
				SupportedTaxonomies                  []struct{ Name, GUID string }
				Rules                                []sarifRule
			}
		}
		Taxonomies []struct {
			Name, GUID string
			Taxa       []struct {
				ID, GUID, HelpURI string
				ShortDescription  struct{ Text string }
			}
		}
		Results []struct {
			RuleID    string
			RuleIndex *int
			Level     string
			Message   struct{ Text string }
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct{ URI string }
					Region           struct {
						StartLine, EndLine, StartColumn, EndColumn int
						SourceLanguage                             string
						Snippet                                    struct{ Text string }
					}
				}
			}
			Suppressions []struct{ Kind, Justification string }
			Fixes        []struct {
				Description struct{ Markdown string }
			}
		}
	}
}

type sarifRule struct {
	ID, Name                                string
	ShortDescription, FullDescription, Help struct{ Text string }
	DefaultConfiguration                    struct{ Level string }
	Properties                              struct {
		Tags      []string
		Precision string
	}
	Relationships []*struct {
		Target struct {
			ID, GUID      string
			ToolComponent struct{ Name, GUID string }
		}
		Kinds []string
	}
}

func parseSarif(text []byte) (*sarifDoc, error) {
	var d sarifDoc
	if err := json.Unmarshal(text, &d); err != nil {
		return nil, err
	}
	if err := exactKeys(text, d); err != nil {
		return nil, err
	}
	if len(d.Runs) != 1 || d.Version != "2.1.0" {
		return nil, fmt.Errorf("%d runs, version %q", len(d.Runs), d.Version)
	}
	return &d, nil
}

// reportProblem compares a report with the findings, errors and statistics
// it was made of.
func reportProblem(format string, text []byte, roots []string, data *gosec.ReportInfo, skipErrors bool) string {
	p, err := parseReport(format, text, roots)
	if err != nil {
		return "does not parse: " + err.Error()
	}
	var want []row
	for _, is := range data.Issues {
		if listed(format, is) {
			want = append(want, rowOf(format, is, roots))
		}
	}
	w, g := rowTexts(want), rowTexts(p.rows)
	if m, e := vh.Diff(w, g); len(m)+len(e) > 0 {
		return fmt.Sprintf("missing rows:\n%s\nextra rows:\n%s", firstBytes(strings.Join(m, "\n"), 3000), firstBytes(strings.Join(e, "\n"), 3000))
	}
	if hasStats(format) && !skipErrors {
		if p.stats == nil || *p.stats != *data.Stats {
			return fmt.Sprintf("statistics %+v instead of %+v", p.stats, data.Stats)
		}
		v := func(s string) string { return s }
		if format == "json" || format == "html" {
			v = validText
		}
		var we, ge []string
		for f, es := range data.Errors {
			for _, e := range es {
				we = append(we, fmt.Sprintf("%q %d %d %q", v(f), e.Line, e.Column, v(e.Err)))
			}
		}
		for f, es := range p.errors {
			for _, e := range es {
				ge = append(ge, fmt.Sprintf("%q %d %d %q", f, e.Line, e.Column, e.Err))
			}
		}
		sort.Strings(we)
		sort.Strings(ge)
		if m, e := vh.Diff(we, ge); len(m)+len(e) > 0 {
			return fmt.Sprintf("errors: missing %v extra %v", m, e)
		}
	}
	return ""
}
