package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/report"

	"verif/harness/vh"
)

var nasty = []string{
	"\"", "'", "`", "\\", "\\\"", "<", ">", "&", "&amp;", "&#34;", "]]>", "<![CDATA[", "<!--", "-->", "</script>", "</SCRIPT >", "<script>alert(1)</script>", "</code></pre>", "<img src=x onerror=alert(1)>", "</failure>", "</testcase>",
	"\t", "\r", "\r\r", "\x00", "\x01", "\x07", "\x1b[31m", "\x7f", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\ufffd", "\ufffe", "\U0001F512", "\U0010FFFF", "é", "日本", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80",
	",", ";", ":", ": ", " #", "# x", "- ", "? ", "|", ">", "%", "%s", "%d", "@", "!", "!!binary", "*a", "&a", "{", "}", "{{", "}}", "{{.}}", "[", "]", "${x}", "$(x)", "null", "~", "true", "yes", "1e3", "0x1", "2001-01-01", "=", "==", "<<", "---", "...", " ", "  ", "a", "word", "x := 1", "/", "//", "../", "=cmd()", "+1", "//# sourceMappingURL=x", "\u202e", "ﬀ", "e\u0301", "Autofix: ", "NaN",
}

func nastyText(rng *rand.Rand, breaks bool) string {
	var b strings.Builder
	for k := rng.Intn(7); k >= 0; k-- {
		switch {
		case breaks && rng.Intn(5) == 0:
			b.WriteString(vh.Pick(rng, "\n", "\r\n", "\n\n", " \n ", "\n\t", "\n  x\n y"))
		case rng.Intn(12) == 0:
			b.WriteRune(rune(rng.Intn(0x300)))
		case rng.Intn(60) == 0:
			b.WriteString(strings.Repeat(vh.PickS(rng, nasty), 1+rng.Intn(3000)))
		default:
			b.WriteString(vh.PickS(rng, nasty))
		}
	}
	return b.String()
}

var nastyTexts = texts{
	file: func(rng *rand.Rand) string {
		// slashes are separators
		return strings.ReplaceAll("d/"+strings.NewReplacer("/", "_", "\x00", "0").Replace(nastyText(rng, true)), "/.", "/_") + ".go"
	},
	what: func(rng *rand.Rand) string { return nastyText(rng, true) },
	code: func(rng *rand.Rand) string { return strings.TrimSuffix(nastyText(rng, false), "\r") },
	just: func(rng *rand.Rand) string { return nastyText(rng, true) },
	fix: func(rng *rand.Rand) string {
		return vh.Pick(rng, "", nastyText(rng, true))
	},
}

var structured = []string{"json", "yaml", "csv", "junit-xml", "sonarqube", "sarif", "html"}

// htmlProblem compares an HTML report with the empty one: they may differ in
// the data statement only, and that must not contain anything an HTML parser
// or a line based JavaScript reader would act on.
func htmlProblem(text, empty []byte) string {
	a, b := dataRe.FindAllIndex(text, -1), dataRe.FindIndex(empty)
	if len(a) != 1 || b == nil {
		return fmt.Sprintf("%d data statements", len(a))
	}
	if !bytes.Equal(text[:a[0][0]], empty[:b[0]]) || !bytes.Equal(text[a[0][1]:], empty[b[1]:]) {
		return "the document differs outside of the data"
	}
	d := text[a[0][0]:a[0][1]]
	if i := bytes.IndexAny(d, "<>&\u2028\u2029\x00"); i >= 0 {
		return fmt.Sprintf("%q in the data of a script", d[max(0, i-20):min(len(d), i+20)])
	}
	return ""
}

func init() {
	All["C25"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("random findings, errors and suppressions whose texts are made of quotes, markup, control characters, separators, YAML and CSV syntax, invalid UTF-8, line breaks, long lines, random code points; every structured report is parsed by a standard parser and must yield the projection of the findings; the HTML report may differ from the empty one only in one data statement without markup; reports of the command on files with such texts; non-trivial: there are findings")
		r.Assume("bytes that are no UTF-8 come back as replacement characters from JSON, XML and HTML, and so do characters that XML cannot carry", "encoding/csv reads CRLF as LF", "the snippets of SARIF are the lines of the finding without indentation")
		var empty bytes.Buffer
		if err := report.CreateReport(&empty, "html", false, nil, gosec.NewReportInfo([]*issue.Issue{}, &gosec.Metrics{}, map[string][]gosec.Error{})); err != nil {
			r.Violation("html/empty", err.Error(), nil)
		}
		judge := func(f, key string, text []byte, roots []string, data *gosec.ReportInfo, fm map[string]string) {
			p := reportProblem(f, text, roots, data, false)
			if p == "" {
				return
			}
			if f == "yaml" && yamlLeading(data) {
				key = "yaml/leading white space"
			}
			r.Violation(key, f+" report: "+p, fm)
		}
		// a listed finding: texts of several lines that start with white space
		lead := gosec.NewReportInfo(randIssues(rand.New(rand.NewSource(1)), 1, []string{"/w"}, plainTexts), &gosec.Metrics{}, map[string][]gosec.Error{})
		lead.Issues[0].Suppressions, lead.Issues[0].Autofix = nil, "\n  use sha256\ninstead"
		for _, f := range structured {
			var buf bytes.Buffer
			if err := report.CreateReport(&buf, f, false, []string{"/w"}, lead); err != nil {
				r.Violation("error/"+f, err.Error(), nil)
			}
			judge(f, f, buf.Bytes(), []string{"/w"}, lead, map[string]string{"report": buf.String()})
		}
		r.Parallel(r.N(8000, 150000), func(i int, rng *rand.Rand) {
			root := vh.Pick(rng, "/home/u/project", "/w", "/src/a b", "/x&y/<z>")
			n := 1 + rng.Intn(4)
			nastyTexts := nastyTexts
			if i%4 > 0 {
				// texts that the YAML writer can handle
				for _, t := range []*func(*rand.Rand) string{&nastyTexts.what, &nastyTexts.just, &nastyTexts.fix} {
					old := *t
					*t = func(rng *rand.Rand) string {
						s := old(rng)
						if yamlBreaks(s) {
							s = "x" + s
						}
						return s
					}
				}
			}
			data := gosec.NewReportInfo(randIssues(rng, n, []string{root}, nastyTexts), &gosec.Metrics{NumFiles: rng.Intn(20), NumLines: rng.Intn(2000), NumNosec: rng.Intn(10), NumFound: n}, randErrors(rng, root, nastyTexts)).WithVersion("dev")
			for _, f := range structured {
				var buf bytes.Buffer
				err := report.CreateReport(&buf, f, false, []string{root}, data)
				r.Eval(f, fmt.Sprint(i, f), true)
				fm := map[string]string{"report": buf.String(), "data.txt": fmt.Sprintf("%q", rowTexts(rowsOf("yaml", data, []string{root})))}
				if err != nil {
					r.Violation("error/"+f, fmt.Sprintf("%s: %v", f, err), fm)
					continue
				}
				r.Count("findings read back", int64(n))
				judge(f, f, buf.Bytes(), []string{root}, data, fm)
				if f == "html" {
					if p := htmlProblem(buf.Bytes(), empty.Bytes()); p != "" {
						r.Violation("html/escape", p, fm)
					}
				}
			}
			if i%401 == 3 {
				r.Sample(map[string]any{"message": fmt.Sprintf("%.100q", data.Issues[0].What), "code": fmt.Sprintf("%.100q", data.Issues[0].Code), "file": fmt.Sprintf("%.100q", data.Issues[0].File)})
			}
		})
		// the command
		r.Parallel(r.N(5, 40), func(i int, rng *rand.Rand) {
			dir := env(r).Dir()
			src := map[string]string{}
			for k := 0; k < 3; k++ {
				name := fmt.Sprintf("f%d.go", k)
				if rng.Intn(2) == 0 {
					name = vh.Pick(rng, "a&b", "x<y>", "q\"q", "it's", "ü", "a b", "100%", "a;b", "$x", "#1", "{{.}}", "-x", "a,b", "t\tt") + fmt.Sprint(k) + ".go"
				}
				src[name] = hostileSource(rng, k)
			}
			if i%2 == 0 {
				src["broken.go"] = "package p\n\nvar B int = \"</script><b>&'\\\"\\x01\u2028]]>\"\n\nvar C ünï = 3\n"
			}
			writeModule(r, dir, src)
			opts := []string{}
			if rng.Intn(2) == 0 {
				opts = append(opts, "-track-suppressions")
			}
			ref := runCLI(r, dir, append(append([]string{"-fmt=json"}, opts...), ".")...).json(r)
			data := ref.data()
			if len(data.Issues) < 3 {
				r.Violation("command/few", fmt.Sprintf("%d findings: %v", len(data.Issues), ref.Errors), src)
				return
			}
			r.Count("findings of the command", int64(len(data.Issues)))
			for _, f := range structured {
				o := runCLI(r, dir, append(append([]string{"-fmt=" + f}, opts...), ".")...)
				r.Eval("command "+f, fmt.Sprint(i, f), true)
				fm := map[string]string{"report": o.stdout, "stderr": o.stderr}
				for n, t := range src {
					fm[n] = t
				}
				judge(f, "command/"+f, []byte(o.stdout), []string{dir}, data, fm)
				if f == "html" {
					if p := htmlProblem([]byte(o.stdout), empty.Bytes()); p != "" {
						r.Violation("command/html/escape", p, fm)
					}
				}
			}
		})
	}
}

// yamlBreaks tells the texts which gopkg.in/yaml.v3 writes as literal blocks
// that do not read back.
func yamlBreaks(s string) bool {
	return strings.Contains(s, "\n") && strings.IndexAny(s, "\n \t\u0085\u2028\u2029") == 0
}

func yamlLeading(data *gosec.ReportInfo) bool {
	for _, es := range data.Errors {
		for _, e := range es {
			if yamlBreaks(e.Err) {
				return true
			}
		}
	}
	for _, is := range data.Issues {
		bad := yamlBreaks(is.What) || yamlBreaks(is.Autofix)
		for _, s := range is.Suppressions {
			bad = bad || yamlBreaks(s.Justification)
		}
		if bad && len(is.Suppressions) == 0 {
			return true
		}
	}
	return false
}

func rowsOf(format string, data *gosec.ReportInfo, roots []string) []row {
	var rs []row
	for _, is := range data.Issues {
		rs = append(rs, rowOf(format, is, roots))
	}
	return rs
}

var notInSource = regexp.MustCompile("[\x00\n\r\ufeff]|\\*/")

// hostileSource is a file whose findings are surrounded by hostile texts.
func hostileSource(rng *rand.Rand, n int) string {
	c := func() string {
		return notInSource.ReplaceAllString(string([]rune(strings.ToValidUTF8(nastyText(rng, false), "?"))), "_")
	}
	q := func() string {
		return "`" + strings.ReplaceAll(c(), "`", "'") + "`"
	}
	return fmt.Sprintf(`package p

import (
	"crypto/md5" // %s
	"math/rand"
	"os"
)

/* %s */
var A%d = md5.New() // %s
/* %s */ var B%d = []any{rand.Int(), %s}

func f%d(a int64) (int32, error) {
	// %s
	os.Remove(%s) // #nosec G104 -- %s
	// %s
	return int32(a), os.Mkdir(
		%s, // %s
		0o777,
	)
}
`, c(), c(), n, c(), c(), n, q(), n, c(), q(), c(), c(), q(), c())
}
