package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// annotation is what one suppression comment of a file says, by the model.
type annotation struct {
	start, end    int
	ids           map[string]bool // nil: all rules
	justification string
}

var (
	dashesRe = regexp.MustCompile(`--+`)
	ruleIDRe = regexp.MustCompile(`G[0-9][0-9][0-9]`)
	dirRe    = regexp.MustCompile(`^//gosec:disable( .*)?$`)
)

// directiveOf is the model of a comment group: the text of its first
// suppression directive, if any.
func directiveOf(g *ast.CommentGroup, tags []string) (string, bool) {
	text := strings.TrimSpace(g.Text())
	for _, tag := range tags {
		lines := strings.Split(text, "\n")
		for i, l := range lines {
			if rest, ok := strings.CutPrefix(strings.TrimLeft(l, " "), tag); ok {
				return strings.Join(append([]string{rest}, lines[i+1:]...), "\n"), true
			}
		}
	}
	for _, c := range g.List {
		if m := dirRe.FindStringSubmatch(c.Text); m != nil {
			return m[1], true
		}
	}
	return "", false
}

// annotations is the reference model of the suppression comments of a file.
func annotations(name, text string, tags []string) ([]annotation, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, text, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	cm := ast.NewCommentMap(fset, f, f.Comments)
	var out []annotation
	for n, gs := range cm {
		for _, g := range gs {
			d, ok := directiveOf(g, tags)
			if !ok {
				continue
			}
			// a comment behind a node that has no closing token belongs to the last element
			t := n
			for g.Pos() >= t.End() {
				l := lastOf(t)
				if l == nil {
					break
				}
				t = l
			}
			tf := fset.File(t.Pos())
			a := annotation{start: tf.PositionFor(t.Pos(), false).Line, end: tf.PositionFor(t.End(), false).Line}
			if p := dashesRe.FindStringIndex(d); p != nil {
				a.justification = strings.TrimSpace(d[p[1]:])
				d = d[:p[0]]
			}
			if ids := ruleIDRe.FindAllString(d, -1); len(ids) > 0 {
				a.ids = vh.Set(ids...)
			}
			out = append(out, a)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].start != out[j].start {
			return out[i].start < out[j].start
		}
		if out[i].end != out[j].end {
			return out[i].end < out[j].end
		}
		return out[i].justification < out[j].justification
	})
	return out, nil
}

func lastOf(n ast.Node) ast.Node {
	var b []ast.Stmt
	switch t := n.(type) {
	case *ast.File:
		if len(t.Decls) == 0 {
			return nil
		}
		return t.Decls[len(t.Decls)-1]
	case *ast.LabeledStmt:
		return t.Stmt
	case *ast.CaseClause:
		b = t.Body
	case *ast.CommClause:
		b = t.Body
	}
	if len(b) == 0 {
		return nil
	}
	return b[len(b)-1]
}

func lineRange(s string) (int, int) {
	a, b, ok := strings.Cut(s, "-")
	x, _ := strconv.Atoi(a)
	if !ok {
		return x, x
	}
	y, _ := strconv.Atoi(b)
	return x, y
}

// silencing gives the annotations that apply to a finding.
func silencing(as []annotation, is *issue.Issue) []annotation {
	s, e := lineRange(is.Line)
	var out []annotation
	for _, a := range as {
		if (a.start <= s && e <= a.end) || (s <= a.start && a.end <= e) {
			if a.ids == nil || a.ids[is.RuleID] {
				out = append(out, a)
			}
		}
	}
	return out
}

var corpusRules = []string{"G101", "G103", "G104", "G115", "G204", "G301", "G401", "G402", "G404", "G405", "G406", "G501", "G505", "G602"}

// ruleList renders a random list of rule IDs.
func ruleList(rng *rand.Rand, prefer string) string {
	n := rng.Intn(4)
	if n == 0 {
		return ""
	}
	if rng.Intn(6) == 0 {
		n += rng.Intn(30)
	}
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, vh.PickS(rng, corpusRules))
	}
	if prefer != "" && rng.Intn(2) == 0 {
		ids[rng.Intn(n)] = prefer
	}
	list := strings.Join(ids, vh.Pick(rng, " ", ",", ", ", "  ", ";", "; ", "/", " and ", "|", "+"))
	return " " + vh.Pick(rng, "", "", "", "rules: ", "rule ", "(", "[", "id=", "\"") + list + vh.Pick(rng, "", "", ")", ".", ":", " ]")
}

func justificationText(rng *rand.Rand) string {
	return vh.Pick(rng, "", "", "", " -- reviewed", " --- see ticket 12", "-- G401 G104 are fine here", " -- <b>\"quoted\" & 'more'</b>", " -- a -- b", " -- ünïcode ✓ ")
}

// directiveText renders a suppression comment (or a near miss).
func directiveText(rng *rand.Rand, tag, prefer string, near bool) string {
	args := ruleList(rng, prefer) + justificationText(rng)
	if near {
		return vh.Pick(rng, "// nosec", "//nosec G401", "// see "+tag, "// gosec:disable", "//gosec:disabled", "//gosec:disable-next", "// not "+tag+" G401", "/*gosec:disable*/", "// NOSEC", "//x"+tag, "// gosec G401", "// #Nosec", "// # nosec")
	}
	switch rng.Intn(6) {
	case 0, 1:
		return "//" + strings.Repeat(" ", rng.Intn(3)) + tag + args
	case 2:
		return "/* " + tag + args + " */"
	case 3:
		return "/*" + tag + args + "*/"
	default:
		return "//gosec:disable" + func() string {
			if args == "" || args[0] == ' ' {
				return args
			}
			return " " + args
		}()
	}
}

// sprinkle inserts comments at random places of a file; the second result is
// the same text with the directives made ineffective, byte for byte as long.
func sprinkle(rng *rand.Rand, text string, lines []int, tag string, n int) (string, string, int) {
	l := strings.Split(text, "\n")
	// package clause line
	pk := 0
	for i := range l {
		if strings.HasPrefix(l[i], "package ") {
			pk = i
		}
	}
	trail := map[int]string{}
	own := map[int]string{}
	cnt := 0
	for k := 0; k < n; k++ {
		var at int
		if len(lines) > 0 && rng.Intn(3) > 0 {
			at = lines[rng.Intn(len(lines))] - 1 + rng.Intn(3) - 1
		} else {
			at = pk + 1 + rng.Intn(max(1, len(l)-pk-1))
		}
		if at <= pk || at >= len(l) {
			continue
		}
		c := directiveText(rng, tag, vh.PickS(rng, corpusRules), rng.Intn(4) == 0)
		cnt++
		if rng.Intn(2) == 0 && strings.TrimSpace(l[at]) != "" {
			trail[at] = c
			continue
		}
		if own[at-1] != "" || own[at+1] != "" || strings.HasPrefix(strings.TrimSpace(l[at]), "//") || strings.HasPrefix(strings.TrimSpace(l[at-1]), "//") {
			continue
		}
		switch rng.Intn(4) {
		case 0:
			c = "// explanation\n" + c
		case 1:
			c += "\n// more words"
		case 2:
			if rng.Intn(3) == 0 {
				c += "\n"
			}
		}
		own[at] = c
	}
	if rng.Intn(4) == 0 {
		// the lines and files that line directives tell are of no account
		for k := 1 + rng.Intn(4); k > 0; k-- {
			at := pk + 1 + rng.Intn(max(1, len(l)-pk-1))
			if at < len(l) && own[at-1] == "" && own[at] == "" && own[at+1] == "" && !strings.HasPrefix(strings.TrimSpace(l[at]), "//") && !strings.HasPrefix(strings.TrimSpace(l[at-1]), "//") {
				own[at] = fmt.Sprintf("//line %s:%d", vh.Pick(rng, "f0.go", "f1.go", "gen.y", "/abs/x.tmpl"), 1+rng.Intn(len(l)))
			}
		}
	}
	var sb strings.Builder
	for i, x := range l {
		if own[i] != "" {
			sb.WriteString(own[i] + "\n")
		}
		sb.WriteString(x)
		if trail[i] != "" {
			sb.WriteString(" " + trail[i])
		}
		if i < len(l)-1 {
			sb.WriteString("\n")
		}
	}
	t := sb.String()
	return t, neutralise(t, tag), cnt
}

func neutralise(t, tag string) string {
	t = strings.ReplaceAll(t, "gosec:disable", "gxsec:disable")
	t = strings.ReplaceAll(t, tag, "#x"+tag[2:])
	return strings.ReplaceAll(t, "#nosec", "#xosec")
}

func fullSorted(is []*issue.Issue, base string, clean func(string) string) []string {
	var out []string
	for _, i := range is {
		out = append(out, clean(vh.Full(i, base)))
	}
	sort.Strings(out)
	return out
}

type tagSetup struct {
	name string
	tag  string   // used in comments
	tags []string // effective
	conf map[gosec.GlobalOption]string
}

var tagSetups = []tagSetup{
	{"default", "#nosec", []string{"#nosec"}, nil},
	{"default", "#nosec", []string{"#nosec"}, nil},
	{"alternative", "#falsePositive", []string{"#nosec", "#falsePositive"}, map[gosec.GlobalOption]string{gosec.NoSecAlternative: "falsePositive"}},
	{"alternative with hash", "#dont.analyze", []string{"#nosec", "#dont.analyze"}, map[gosec.GlobalOption]string{gosec.NoSecAlternative: "#dont.analyze"}},
	{"default beside alternative", "#nosec", []string{"#nosec", "#fp+(x"}, map[gosec.GlobalOption]string{gosec.NoSecAlternative: "fp+(x"}},
	{"explicitly off", "#nosec", []string{"#nosec"}, map[gosec.GlobalOption]string{gosec.Nosec: "false"}},
	{"explicitly disabled", "#nosec", []string{"#nosec"}, map[gosec.GlobalOption]string{gosec.Nosec: "disabled"}},
	{"other tag than configured", "#dontscan", []string{"#nosec", "#other"}, map[gosec.GlobalOption]string{gosec.NoSecAlternative: "other"}},
}

func (t tagSetup) config(extra map[gosec.GlobalOption]string) gosec.Config {
	c := gosec.NewConfig()
	for k, v := range t.conf {
		c.SetGlobal(k, v)
	}
	for k, v := range extra {
		c.SetGlobal(k, v)
	}
	return c
}

// annotated is a corpus package with random suppression comments.
type annotated struct {
	setup   tagSetup
	files   []vh.Src
	neutral []vh.Src
	model   map[string][]annotation
	l       *vh.Loaded
	base    []*issue.Issue // findings without comments
}

func newAnnotated(r *vh.Run, rng *rand.Rand, setup tagSetup, o vh.Opts) *annotated {
	a := &annotated{setup: setup, model: map[string][]annotation{}}
	plain := corpusPkg(rng, "p", 1+rng.Intn(7), 1+rng.Intn(2), 2)
	shiftLines(rng, plain)
	l := loadOrDie(r, plain)
	first := vh.Scan(o, l)
	l.Remove()
	at := map[string][]int{}
	for _, i := range first.Issues {
		at[filepath.Base(i.File)] = append(at[filepath.Base(i.File)], vh.Line(i))
	}
	for _, f := range plain {
		t, n, _ := sprinkle(rng, f.Text, at[f.Name], setup.tag, 1+rng.Intn(8))
		a.files = append(a.files, vh.Src{Name: f.Name, Text: t})
		a.neutral = append(a.neutral, vh.Src{Name: f.Name, Text: n})
		m, err := annotations(f.Name, t, setup.tags)
		if err != nil {
			r.Inconclusive("sprinkled file does not parse: %v\n%s", err, t)
		}
		a.model[f.Name] = m
	}
	ln := loadOrDie(r, a.neutral)
	o.Conf = gosec.NewConfig()
	rs := vh.Scan(o, ln)
	for _, i := range rs.Issues {
		i.File = filepath.Base(i.File)
		a.base = append(a.base, i)
	}
	ln.Remove()
	a.l = loadOrDie(r, a.files)
	return a
}

// clean makes findings of the annotated and the neutral text comparable.
func (a *annotated) clean(s string) string {
	return neutralise(s, a.setup.tag)
}

func init() {
	All["C14"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("(1) corpus packages with random suppression comments and near misses sprinkled on and around findings, default and alternative tags, and nested blocks with comments of their own around statements of several lines: scan with the directives blanked out = B; scan with the override option must equal B; normal scan must equal B minus what an independent model of the comments silences; (2) hand-constructed placements with expected findings in random contexts; (3) the command line options for override and tag; non-trivial: a comment of the program is a directive")
		n := r.N(2200, 40000)
		r.Parallel(n, func(i int, rng *rand.Rand) {
			setup := vh.PickS(rng, tagSetups)
			var a *annotated
			if i%3 == 2 {
				a = denseAnnotated(r, rng)
				setup = a.setup
				setup.name = "dense"
			} else {
				a = newAnnotated(r, rng, setup, vh.Opts{})
			}
			defer a.l.Remove()
			nd := 0
			for _, m := range a.model {
				nd += len(m)
			}
			r.Count("directives", int64(nd))
			r.Count("findings without comments", int64(len(a.base)))
			r.Eval("sprinkled "+setup.name, fmt.Sprint(a.files), nd > 0)
			want := fullSorted(a.base, "", a.clean)
			over := vh.Scan(vh.Opts{Conf: setup.config(map[gosec.GlobalOption]string{gosec.Nosec: vh.Pick(rng, "true", "enabled")})}, a.l)
			if m, e := vh.Diff(want, fullSorted(over.Issues, a.l.Dir+"/", a.clean)); len(m)+len(e) > 0 || over.Panic != "" {
				r.Violation(fmt.Sprintf("override/%d", i), fmt.Sprintf("with the override option the comments still matter\nmissing: %v\nextra: %v %s", m, e, over.Panic), vh.SrcMap(a.files))
			}
			var exp []*issue.Issue
			sup := 0
			for _, is := range a.base {
				if len(silencing(a.model[is.File], is)) == 0 {
					exp = append(exp, is)
				} else {
					sup++
				}
			}
			r.Count("findings silenced", int64(sup))
			got := vh.Scan(vh.Opts{Conf: setup.config(nil)}, a.l)
			if m, e := vh.Diff(fullSorted(exp, "", a.clean), fullSorted(got.Issues, a.l.Dir+"/", a.clean)); len(m)+len(e) > 0 || got.Panic != "" {
				r.Violation(fmt.Sprintf("sprinkled/%d", i), fmt.Sprintf("%s: wrongly silenced: %v\nwrongly reported: %v %s", setup.name, m, e, got.Panic), vh.SrcMap(a.files))
			}
			if i%101 == 7 {
				r.Sample(map[string]any{"setup": setup.name, "directives": nd, "findings": len(a.base), "silenced": sup, "text": a.files[0].Text})
			}
		})
		r.Need("findings silenced", 100)
		pos, neg := c14Snippets()
		only := vh.Set("G103", "G115", "G301", "G401", "G402", "G404", "G602")
		runSnippets(r, pos, neg, only, vh.Opts{}, r.N(6, 60), r.N(60, 2000), 2, false)
		c14CLI(r)
	}
}

// c14Snippets are hand-written placements. A marker behind "-- " belongs to
// the justification of the directive in front of it.
func c14Snippets() (pos, neg []snippet) {
	p := func(name, decls, stmts string) { pos = append(pos, snippet{"reported " + name, decls, stmts}) }
	n := func(name, decls, stmts string) { neg = append(neg, snippet{"silent " + name, decls, stmts}) }
	for _, d := range []string{"//#nosec%s", "// #nosec%s", "/* #nosec%s */", "//gosec:disable%s"} {
		f := func(list string) string { return fmt.Sprintf(d, list) }
		k := strings.Fields(d)[0]
		if !strings.HasPrefix(d, "//gosec") {
			n(d+" before text", "", "// words\n"+f("")+"\nuse($md5.New())")
		}
		n(d+" trailing", "", "use($md5.New()) "+f(""))
		n(d+" trailing listed", "", "use($md5.New()) "+f(" G401"))
		n(d+" trailing second listed", "", "use($md5.New()) "+f(" G404, G401 -- fine"))
		n(d+" above", "", f("")+"\nuse($mrand.Int())")
		n(d+" above listed", "", f(" G404 G103")+"\nuse($mrand.Int(), $unsafe.Pointer(nil))")
		p(d+" above only one of two", "", f(" G103 -- only that")+"\nuse($mrand.Int(), $unsafe.Pointer(nil)) //~ G404")
		p(d+" trailing other rule", "", "use($md5.New()) "+strings.ReplaceAll(f(" G402 -- //~ G401"), "-- //~ G401 */", "-- */ //~ G401"))
		p(d+" justification names the rule", "", f(" G402 -- G401 as well")+"\nuse($md5.New()) //~ G401")
		p(d+" next line stays", "", "use($md5.New()) "+f("")+"\nuse($md5.New()) //~ G401")
		p(d+" previous line stays", "", "use($md5.New()) //~ G401\nuse($md5.New()) "+f(""))
		p(d+" only the annotated statement", "", f("")+"\nuse($md5.New())\nuse($md5.New()) //~ G401")
		n(d+" block statement", "", f("")+"\nif cond() {\n\tuse($md5.New())\n\tfor cond() {\n\t\tuse($mrand.Int())\n\t}\n}")
		p(d+" block statement of other rules", "", f(" G401")+"\nif cond() {\n\tuse($md5.New())\n\tfor cond() {\n\t\tuse($mrand.Int()) //~ G404\n\t}\n}")
		p(d+" nested list and wider list", "", f(" G404")+"\nif cond() {\n\tuse($md5.New()) "+f(" G401")+"\n\tuse($mrand.Int())\n\tuse($md5.New()) //~ G401\n}")
		p(d+" nested everything", "", f(" G404")+"\nfor cond() {\n\tuse($md5.New(), $unsafe.Pointer(nil)) "+f("")+"\n\tuse($mrand.Int(), $unsafe.Pointer(nil)) //~ G103\n}")
		n(d+" behind the closing brace", "", "if cond() {\n\tuse($md5.New())\n\tuse($mrand.Int())\n} "+f(""))
		n(d+" function", f(" G115 G404")+"\nfunc f@(a int64) int32 {\n\tuse($mrand.Int())\n\treturn int32(a)\n}", "")
		p(d+" function of other rule", f(" G404")+"\nfunc f@(a int64) int32 {\n\tuse($mrand.Int())\n\treturn int32(a) //~ G115\n}", "")
		p(d+" one of two functions", f("")+"\nfunc f@(a int64) int32 {\n\treturn int32(a)\n}\n\nfunc g@(a int64) int32 {\n\treturn int32(a) //~ G115\n}", "")
		n(d+" flow finding", "func f@(a int64) int32 {\n\treturn int32(a) "+f("")+"\n}", "")
		n(d+" flow finding bounds", "func f@() {\n\ts := make([]int, 1)\n\tuse(s[3:]) "+f(" G602")+"\n}", "")
		p(d+" flow finding wrong rule", "func f@(a int64) int32 {\n\treturn int32(a) "+strings.ReplaceAll(f(" G602 -- //~ G115"), "-- //~ G115 */", "-- */ //~ G115")+"\n}", "")
		n(d+" element", "", "use(&$tls.Config{\n\tInsecureSkipVerify: true, "+f(" G402")+"\n\tMinVersion: $tls.VersionTLS12,\n})")
		p(d+" neighbouring element", "", "use(&$tls.Config{\n\tInsecureSkipVerify: true, //~ G402\n\tMinVersion: $tls.VersionTLS12, "+f(" G402")+"\n})")
		p(d+" case", "", "switch num() {\ncase 1:\n\tuse($md5.New()) //~ G401\n\tuse($md5.New()) "+f("")+"\ncase 2:\n\tuse($mrand.Int()) //~ G404\n}")
		p(d+" last case", "", "switch num() {\ncase 1:\n\tuse($md5.New()) //~ G401\ndefault:\n\tuse($md5.New()) //~ G401\n\tuse($md5.New()) "+f(" G401")+"\n}")
		p(d+" select case", "", "select {\ndefault:\n\tuse($md5.New()) //~ G401\n\tuse($md5.New()) "+f("")+"\n}")
		p(d+" group", "var (\n\ta@ = $md5.New() //~ G401\n\tb@ = $md5.New() "+f("")+"\n\tc@ = $md5.New() //~ G401\n)", "")
		n(d+" whole group", f("")+"\nvar (\n\ta@ = $md5.New()\n\n\tb@ = $md5.New()\n)", "")
		n(d+" two comments on one statement", "", f(" G401")+"\nuse($md5.New(), $mrand.Int()) "+f(" G404"))
		n(d+" overlapping", "", f(" G401")+"\nif cond() {\n\tuse($md5.New(), $mrand.Int()) "+f(" G404")+"\n}")
		_ = k
	}
	for _, c := range []string{"// nosec", "//nosec G401", "// G401", "// see #nosec", "// gosec:disable", "//gosec:disabled", "// todo #nosec G401", "/*gosec:disable*/", "// NOSEC", "// #Nosec G401", "// # nosec", "//x#nosec"} {
		p("near miss "+c, "", c+"\nuse($md5.New()) //~ G401")
	}
	p("in a string", "", "use(\"#nosec\", $md5.New(), `//#nosec`) //~ G401")
	p("wrong rule in lower case", "", "// #nosec G402 g401\nuse($md5.New()) //~ G401")
	p("cut rule", "", "//#nosec G402 G40 -- x\nuse($md5.New()) //~ G401")
	return
}

// c14CLI checks that the options reach the scan: a file with one finding per
// kind of comment, scanned by the command with every way to set the options.
func c14CLI(r *vh.Run) {
	src := `package main

import (
	"crypto/md5"
	"os"
)

func use(...any) {}

func main() {
	use(md5.New())
	use(md5.New()) // #nosec
	use(md5.New()) // #nosec G401 -- why
	use(md5.New()) // #other G401
	use(md5.New()) //gosec:disable G401
	use(md5.New()) // #nosec G104
	os.Remove("x") // #nosec G104
	os.Remove("x") // #other
}
`
	dir := env(r).Dir()
	writeModule(r, dir, map[string]string{"main.go": src})
	conf := func(s string) string { return writeConf(r, s) }
	all := []string{"4:G501", "11:G401", "12:G401", "13:G401", "14:G401", "15:G401", "16:G401", "17:G104", "18:G104"}
	normal := []string{"4:G501", "11:G401", "14:G401", "16:G401", "18:G104"}
	alt := []string{"4:G501", "11:G401", "16:G401"}
	for _, c := range []struct {
		name string
		args []string
		want []string
	}{
		{"default", nil, normal},
		{"-nosec", []string{"-nosec"}, all},
		{"-nosec=true", []string{"-nosec=true"}, all},
		{"-nosec=false", []string{"-nosec=false"}, normal},
		{"-nosec-tag", []string{"-nosec-tag=other"}, alt},
		{"-nosec-tag with hash", []string{"-nosec-tag=#other"}, alt},
		{"-nosec and -nosec-tag", []string{"-nosec", "-nosec-tag=other"}, all},
		{"conf nosec true", []string{"-conf", conf(`{"global":{"nosec":"true"}}`)}, all},
		{"conf nosec bool", []string{"-conf", conf(`{"global":{"nosec":true}}`)}, all},
		{"conf nosec enabled", []string{"-conf", conf(`{"global":{"nosec":"enabled"}}`)}, all},
		{"conf nosec false", []string{"-conf", conf(`{"global":{"nosec":"false"}}`)}, normal},
		{"conf nosec disabled", []string{"-conf", conf(`{"global":{"nosec":"disabled"}}`)}, normal},
		{"conf nosec false bool", []string{"-conf", conf(`{"global":{"nosec":false}}`)}, normal},
		{"conf audit only", []string{"-conf", conf(`{"global":{"audit":"disabled"}}`)}, normal},
		{"conf tag", []string{"-conf", conf(`{"global":{"#nosec":"other"}}`)}, alt},
		{"conf tag overridden", []string{"-conf", conf(`{"global":{"#nosec":"another"}}`), "-nosec-tag", "other"}, alt},
		{"sorted off", []string{"-sort=false"}, normal},
		{"concurrency", []string{"-concurrency=3"}, normal},
	} {
		r.Eval("cli", c.name, true)
		got := runCLI(r, dir, append(append([]string{"-fmt=json", "-quiet"}, c.args...), ".")...)
		rep := got.json(r)
		var keys []string
		for _, i := range rep.Issues {
			keys = append(keys, fmt.Sprintf("%s:%s", i.Line, i.RuleID))
		}
		sort.Strings(keys)
		w := append([]string{}, c.want...)
		sort.Strings(w)
		if m, e := vh.Diff(w, keys); len(m)+len(e) > 0 {
			r.Violation("cli/"+c.name, fmt.Sprintf("gosec %v: missing %v extra %v", c.args, m, e), map[string]string{"main.go": src, "stderr": got.stderr})
		}
	}
}
