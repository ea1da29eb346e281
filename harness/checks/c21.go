package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// spans is what starts where in a source text: for each line and byte column
// the last lines of the constructs which start there.
type spans struct {
	nodes  map[[2]int]map[int]bool
	kinds  map[[2]int]map[string]bool // texts of the nodes, shortened
	tokens map[[2]int]token.Token
	lines  []string
}

// spansOf reads a text without regard to line directives. Lines and columns
// are counted here, not by go/token.
func spansOf(text string) *spans {
	s := &spans{nodes: map[[2]int]map[int]bool{}, kinds: map[[2]int]map[string]bool{}, tokens: map[[2]int]token.Token{}, lines: strings.Split(text, "\n")}
	starts := []int{0}
	for i := range text {
		if text[i] == '\n' {
			starts = append(starts, i+1)
		}
	}
	at := func(off int) [2]int {
		lo, hi := 0, len(starts)
		for lo+1 < hi {
			m := (lo + hi) / 2
			if starts[m] <= off {
				lo = m
			} else {
				hi = m
			}
		}
		return [2]int{lo + 1, off - starts[lo] + 1}
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", text, parser.ParseComments)
	if err != nil {
		return nil
	}
	tf := fset.File(f.FileStart)
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		p := at(tf.Offset(n.Pos()))
		e := at(tf.Offset(n.End()))
		if s.nodes[p] == nil {
			s.nodes[p] = map[int]bool{}
			s.kinds[p] = map[string]bool{}
		}
		s.nodes[p][e[0]] = true
		s.kinds[p][fmt.Sprintf("%T", n)] = true
		return true
	})
	var sc scanner.Scanner
	fs2 := token.NewFileSet()
	sf := fs2.AddFile("x.go", -1, len(text))
	sc.Init(sf, []byte(text), nil, scanner.ScanComments)
	for {
		pos, tok, _ := sc.Scan()
		if tok == token.EOF {
			break
		}
		s.tokens[at(sf.Offset(pos))] = tok
	}
	return s
}

// ssaRules report positions of instructions instead of whole constructs.
var ssaRules = map[string]bool{"G115": true, "G407": true, "G602": true}

// excerpt is the specification of the code of a finding.
func excerpt(lines []string, a, b int) string {
	var sb strings.Builder
	from := a - 1
	if from < 1 {
		from = a
	}
	last := len(lines)
	if lines[last-1] == "" {
		last-- // the text ends with a newline
	}
	for n := from; n <= b+1 && n <= last; n++ {
		fmt.Fprintf(&sb, "%d: %s\n", n, strings.TrimSuffix(lines[n-1], "\r"))
	}
	return sb.String()
}

var lineRe = regexp.MustCompile(`^([1-9][0-9]*)(?:-([1-9][0-9]*))?$`)

// locationProblem judges location and excerpt of a finding.
func locationProblem(is *issue.Issue, path, text string, sp *spans) string {
	if is.File != path {
		return "file is " + is.File
	}
	m := lineRe.FindStringSubmatch(is.Line)
	if m == nil {
		return "malformed line " + is.Line
	}
	a, _ := strconv.Atoi(m[1])
	b := a
	if m[2] != "" {
		b, _ = strconv.Atoi(m[2])
		if b <= a {
			return "line range " + is.Line
		}
	}
	col, err := strconv.Atoi(is.Col)
	if err != nil || a > len(sp.lines) || b > len(sp.lines) {
		return fmt.Sprintf("line %s column %s outside the %d lines", is.Line, is.Col, len(sp.lines))
	}
	p := [2]int{a, col}
	if ssaRules[is.RuleID] {
		tok, ok := sp.tokens[p]
		if !ok {
			return fmt.Sprintf("nothing starts at %d:%d", a, col)
		}
		want := map[string][]token.Token{"G115": {token.LPAREN}, "G407": {token.LPAREN}, "G602": {token.LBRACK}}[is.RuleID]
		for _, w := range want {
			if w == tok {
				want = nil
			}
		}
		if want != nil {
			return fmt.Sprintf("%v at %d:%d is not where a construct of this rule is located", tok, a, col)
		}
		if b != a {
			return "range for an instruction"
		}
	} else {
		if !sp.nodes[p][b] {
			return fmt.Sprintf("no construct from %d:%d to line %d (there: %v)", a, col, b, sp.nodes[p])
		}
	}
	if want := excerpt(sp.lines, a, b); is.Code != want {
		return fmt.Sprintf("excerpt\n%.2000q\ninstead of\n%.2000q", is.Code, want)
	}
	return ""
}

// relayout changes the layout of a source file, not its meaning.
func relayout(rng *rand.Rand, t string) string {
	l := strings.Split(t, "\n")
	raw := strings.Contains(t, "`")
	if rng.Intn(3) == 0 {
		// text before the first token of a line
		for i := range l {
			s := strings.TrimSpace(l[i])
			if !raw && s != "" && !strings.HasPrefix(s, "//") && rng.Intn(4) == 0 {
				l[i] = vh.Pick(rng, "/* é日本 */ ", "/* \U0001F512\t*/\t", "\t\t  ", "/**/") + l[i]
			}
		}
	}
	if rng.Intn(3) == 0 {
		for i := range l {
			if !raw && rng.Intn(6) == 0 && !strings.Contains(l[i], "//") {
				l[i] += vh.Pick(rng, " // é \"quoted\" <tag>", " /* x */", "   ", "\t// "+strings.Repeat("long ", 60))
			}
		}
	}
	if rng.Intn(4) == 0 {
		i := rng.Intn(len(l))
		if !raw && !strings.Contains(l[i], "//") {
			l[i] += " // " + strings.Repeat("x", vh.Pick(rng, 4000, 65400, 65530, 65536, 70000, 200000))
		}
	}
	if rng.Intn(4) == 0 && !raw {
		// line directives
		var out []string
		for _, x := range l {
			if rng.Intn(8) == 0 && !strings.HasPrefix(x, "\t") {
				out = append(out, vh.Pick(rng, "//line other.y:3", "//line /abs/gen.tmpl:1000:7", "//line x.go:1"))
			}
			out = append(out, x)
		}
		l = out
	}
	if rng.Intn(4) == 0 && len(l) > 3 {
		// blank lines, also with blanks
		i := rng.Intn(len(l))
		if !raw {
			l = append(l[:i:i], append([]string{"", "  \t ", ""}, l[i:]...)...)
		}
	}
	sep := "\n"
	if !raw && rng.Intn(4) == 0 {
		sep = "\r\n"
	}
	t = strings.Join(l, sep)
	switch rng.Intn(5) {
	case 0:
		t = strings.TrimRight(t, "\r\n\t ")
	case 1:
		t += strings.Repeat(sep, rng.Intn(4))
	}
	if rng.Intn(10) == 0 {
		t = "\ufeff" + t
	}
	return t
}

// edgeFiles have findings in the first and last lines.
var edgeFiles = []string{
	"package p; import \"crypto/md5\"; var X@ = md5.New()",
	"package p; import \"crypto/sha1\"; var X@ = sha1.New()\n",
	"package p\nimport \"math/rand\"\nvar R@ = rand.Int()",
	"package p; import \"math/rand\"; func f@(a int64) int32 { return int32(a) }; var R@ = rand.Int(\n)",
	"package p\n\nfunc f@(a int64) int32 { return int32(a) }",
	"package p\n\nimport \"os\"\n\nvar _ = os.Mkdir(\n\t\"a\",\n\t0o777,\n)",
	"package p; var password@ = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"",
	"package p; import (\"crypto/tls\"; \"net/http\"); var T@ = &tls.Config{InsecureSkipVerify:\n\n\ntrue}; var S@ = http.Server{}",
}

// edgeText has one finding, some lines from either end.
func edgeText(rng *rand.Rand) string {
	l := [][2]string{
		{"", "func f@(a int64) int32 { return int32(a) }"},
		{"", "func f@() int { s := make([]int, 1); return s[2] }"},
		{"", "func f@() []int { s := make([]int, 1); return s[:2] }"},
		{"import \"crypto/cipher\"; ", "func f@(g cipher.AEAD) []byte { n := []byte(\"123456789012\"); return g.Seal(nil, n, nil, nil) }"},
		{"import \"math/rand\"; ", "var r@ = rand.Int()"},
		{"import \"os\"; ", "func f@() { os.Remove(\"a\") }"},
	}
	e := vh.PickS(rng, l)
	t := "package p; " + e[0] + strings.Repeat("\n", rng.Intn(4)) + e[1] + strings.Repeat("\n", rng.Intn(4))
	if rng.Intn(2) == 0 {
		if !strings.HasSuffix(t, "\n") {
			t += "; "
		}
		t += "var w@ = 1"
	}
	return strings.ReplaceAll(t, "@", "Edge")
}

func init() {
	All["C21"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("corpus packages and files with findings in their first and last lines, in random layouts (CRLF, tabs, blank lines, comments and non-ASCII text before constructs, lines up to 200 kB, line directives, byte order mark, no final newline); each finding must lie in a scanned file, at the exact line range of a construct that starts at its byte column (the token of the instruction for the SSA rules), with the numbered unchanged lines around it; location and excerpt in JSON reports of the command; non-trivial: the file has findings")
		r.Assume("sources with carriage returns inside raw strings are left out: go/ast computes their ends inexactly")
		r.Parallel(r.N(2500, 40000), func(i int, rng *rand.Rand) {
			files := corpusPkg(rng, "p", 1+rng.Intn(5), 1+rng.Intn(2), 2)
			switch rng.Intn(5) {
			case 0, 1:
				files = append(files, vh.Src{Name: "edge.go", Text: strings.ReplaceAll(vh.PickS(rng, edgeFiles), "@", "Edge")})
			case 2, 3:
				files = append(files, vh.Src{Name: "edge.go", Text: edgeText(rng)})
			}
			for k := range files {
				if rng.Intn(8) > 0 {
					files[k].Text = relayout(rng, files[k].Text)
				}
				if rng.Intn(4) == 0 && !strings.Contains(files[k].Text, "//line ") {
					files[k].Text, _, _ = sprinkle(rng, files[k].Text, nil, "#nosec", 2)
				}
			}
			l := loadOrDie(r, files)
			defer l.Remove()
			res := vh.Scan(vh.Opts{Track: true}, l)
			if res.Panic != "" {
				r.Violation("panic", res.Panic, vh.SrcMap(files))
				return
			}
			sps := map[string]*spans{}
			for _, f := range files {
				sps[filepath.Join(l.Dir, f.Name)] = spansOf(f.Text)
			}
			r.Eval("package", fmt.Sprint(files), len(res.Issues) > 0)
			for _, is := range res.Issues {
				sp := sps[is.File]
				if sp == nil {
					r.Violation("file", "finding outside of the scanned files: "+jsonText(is), vh.SrcMap(files))
					continue
				}
				r.Count("findings located", 1)
				if strings.Contains(is.Line, "-") {
					r.Count("line ranges", 1)
				}
				if p := locationProblem(is, is.File, l.Src[is.File], sp); p != "" {
					r.Violation("location/"+is.RuleID, fmt.Sprintf("%s %s:%s:%s: %s", is.RuleID, filepath.Base(is.File), is.Line, is.Col, p), vh.SrcMap(files))
				}
			}
			if i%300 == 7 && len(res.Issues) > 0 {
				is := res.Issues[0]
				r.Sample(map[string]any{"rule": is.RuleID, "line": is.Line, "column": is.Col, "code": fmt.Sprintf("%.300s", is.Code)})
			}
		})
		r.Parallel(r.N(8, 60), func(i int, rng *rand.Rand) {
			dir := env(r).Dir()
			src := map[string]string{}
			for _, f := range corpusPkg(rng, "p", 12, 2, 1) {
				src[f.Name] = relayout(rng, f.Text)
			}
			src["edge.go"] = relayout(rng, strings.ReplaceAll(vh.PickS(rng, edgeFiles), "@", "Edge"))
			writeModule(r, dir, src)
			rep := runCLI(r, dir, "-fmt=json", "-track-suppressions", ".").json(r)
			if len(rep.Errors) > 0 {
				r.Violation("cli/errors", fmt.Sprint(rep.Errors), src)
			}
			for _, x := range rep.Issues {
				is := &issue.Issue{File: x.File, Line: x.Line, Col: x.Column, Code: x.Code, RuleID: x.RuleID}
				rel, err := filepath.Rel(dir, x.File)
				t, ok := src[rel]
				if err != nil || !ok {
					r.Violation("cli/file", "finding outside of the scanned files: "+jsonText(x), src)
					continue
				}
				r.Count("findings located in reports", 1)
				if p := locationProblem(is, x.File, t, spansOf(t)); p != "" {
					r.Violation("cli/"+x.RuleID, fmt.Sprintf("%s %s:%s:%s: %s", x.RuleID, rel, x.Line, x.Column, p), src)
				}
			}
			r.Eval("command", jsonText(src), true)
		})
		r.Need("findings located", 5000)
		r.Need("line ranges", 300)
	}
}
