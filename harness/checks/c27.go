package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// randJSON makes a JSON value.
func randJSON(rng *rand.Rand, depth int) any {
	k := rng.Intn(7)
	if depth == 0 {
		k = rng.Intn(5)
	}
	switch k {
	case 0:
		return vh.Pick(rng, "", "0o600", "(?i)pass|\"x\"", "80.0", "ünï\u2028<&>", "a\nb\\", "true", "G101,G102", "\U0001f600", "\x00")
	case 1:
		return rng.Intn(2) == 0
	case 2:
		return float64(rng.Intn(2000) - 1000)
	case 3:
		return rng.NormFloat64() * float64(rng.Intn(1e9))
	case 4:
		return nil
	case 5:
		l := make([]any, rng.Intn(4))
		for i := range l {
			l[i] = randJSON(rng, depth-1)
		}
		return l
	}
	m := map[string]any{}
	for i := rng.Intn(4); i > 0; i-- {
		m[vh.Pick(rng, "pattern", "ignore_entropy", "truncate", "os", "x.y", "", "ü", "global")] = randJSON(rng, depth-1)
	}
	return m
}

var globalNames = []gosec.GlobalOption{gosec.Nosec, gosec.ShowIgnored, gosec.Audit, gosec.NoSecAlternative, gosec.ExcludeRules, gosec.IncludeRules, gosec.SSA, "other", "Nosec", ""}

// randConfig makes a configuration as decoded JSON and the string forms of its
// global options.
func randConfig(rng *rand.Rand) (doc map[string]any, globals map[gosec.GlobalOption]string) {
	doc, globals = map[string]any{}, map[gosec.GlobalOption]string{}
	for i := rng.Intn(5); i > 0; i-- {
		doc[vh.Pick(rng, "G101", "G104", "G111", "G301", "G302", "G306", "G307", "G999", "", "globals", "x")] = randJSON(rng, 3)
	}
	if rng.Intn(4) > 0 {
		g := map[string]any{}
		for i := rng.Intn(6); i > 0; i-- {
			n := vh.PickS(rng, globalNames)
			switch rng.Intn(4) {
			case 0:
				b := rng.Intn(2) == 0
				g[string(n)], globals[n] = b, fmt.Sprint(b)
			case 1:
				k := rng.Intn(2000) - 1000
				g[string(n)], globals[n] = float64(k), fmt.Sprint(k)
			default:
				s := vh.Pick(rng, "true", "enabled", "false", "disabled", "", "G101,G401", "#falsepositive", "a b", "ü\"", "True", "1", " true")
				g[string(n)], globals[n] = s, s
			}
		}
		doc["global"] = g
	}
	return doc, globals
}

// configProblem compares a configuration with what it was made of.
func configProblem(c gosec.Config, doc map[string]any, globals map[gosec.GlobalOption]string) string {
	for k, v := range doc {
		if k == gosec.Globals {
			continue
		}
		got, err := c.Get(k)
		if err != nil || !reflect.DeepEqual(got, v) {
			return fmt.Sprintf("section %q is %#v, %v instead of %#v", k, got, err, v)
		}
	}
	for k := range c {
		if _, ok := doc[k]; !ok && k != gosec.Globals {
			return fmt.Sprintf("section %q out of nowhere", k)
		}
	}
	if _, err := c.Get("no such section"); err == nil {
		return "a section that does not exist can be read"
	}
	for _, n := range append([]gosec.GlobalOption{"no such option"}, globalNames...) {
		v, err := c.GetGlobal(n)
		want, ok := globals[n]
		if ok != (err == nil) || v != want {
			return fmt.Sprintf("global option %q is %q, %v instead of %q, %v", n, v, err, want, ok)
		}
		on, err := c.IsGlobalEnabled(n)
		if ok != (err == nil) || on != (want == "true" || want == "enabled") {
			return fmt.Sprintf("global option %q of value %q is enabled: %v, %v", n, want, on, err)
		}
	}
	return ""
}

func writeOf(c gosec.Config) (string, error) {
	var b bytes.Buffer
	n, err := c.WriteTo(&b)
	if err == nil && n != int64(b.Len()) {
		err = fmt.Errorf("%d bytes written, %d announced", b.Len(), n)
	}
	return b.String(), err
}

type failingReader struct {
	r io.Reader
}

func (f failingReader) Read(b []byte) (int, error) {
	n, err := f.r.Read(b)
	if err == io.EOF {
		err = errors.New("broken")
	}
	return n, err
}

// limitedWriter fails after some bytes.
type limitedWriter struct {
	left  int
	wrote int
}

var errFull = errors.New("no space left")

func (w *limitedWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		w.wrote += n
		return n, errFull
	}
	w.left -= len(b)
	w.wrote += len(b)
	return len(b), nil
}

// malformed configurations.
var malformed = []string{
	"", " ", "{", "}", "{}}", "{} x", "[]", "[{}]", "null", "\"global\"", "1", "true", "{\"global\":{}", "{\"global\":{\"nosec\":true,}}",
	"{global:{}}", "{'global':{}}", "{\"global\":{\"nosec\":tru}}", "{\"G101\":{\"pattern\":\"a}}", "// x\n{}", "{\"global\"}", "\xef\xbb\xbf{}", "{\"a\":\"\x01\"}", "nosec: true",
	"{\"global\":null}", "{\"global\":[]}", "{\"global\":\"nosec\"}", "{\"global\":true}", "{\"global\":1}",
	"{\"global\":[{\"nosec\":true}]}", "{\"G101\":{}}{\"global\":{}}",
}

// confState is what is in force.
type confState struct {
	nosec, show, audit        bool
	tag                       string
	include, exclude          map[string]bool
	g301, g302, g306, g307    int64
	horse, passwd, removeFine bool
	wide                      bool // the G111 pattern is the default one
}

// confLine is a line of the program the options are observed with.
type confLine struct {
	stmt, rule string
	suppressed func(s confState) bool
	found      func(s confState) bool
}

func in(mode int64) func(int64) bool { return func(m int64) bool { return mode|m == m } }

var confLines = []confLine{
	{"_ = md5.New()", "G401", nil, nil},
	{"_ = md5.New() // #nosec", "G401", func(s confState) bool { return true }, nil},
	{"_ = md5.New() // #nosec G401 -- fine", "G401", func(s confState) bool { return true }, nil},
	{"_ = md5.New() //gosec:disable G401 -- fine", "G401", func(s confState) bool { return true }, nil},
	{"_ = md5.New() // #falsepositive", "G401", func(s confState) bool { return s.tag == "falsepositive" }, nil},
	{"_ = md5.New() // #dontanalyze G401", "G401", func(s confState) bool { return s.tag == "dontanalyze" }, nil},
	{"_ = int32(l) // #nosec G115", "G115", func(s confState) bool { return true }, nil},
	{"_ = int32(l)", "G115", nil, nil},
	{"_ = rand.Int()", "G404", nil, nil},
	{"_ = os.Remove(\"a\")", "G104", nil, func(s confState) bool { return s.audit && !s.removeFine }},
	{"_ = os.RemoveAll(\"a\")", "G104", nil, func(s confState) bool { return s.audit }},
	{"os.Remove(\"b\")", "G104", nil, func(s confState) bool { return !s.removeFine }},
	{"os.RemoveAll(\"b\")", "G104", nil, nil},
	{"use(os.Mkdir(\"a\", 0o700))", "G301", nil, func(s confState) bool { return !in(0o700)(s.g301) }},
	{"use(os.Mkdir(\"a\", 0o755))", "G301", nil, func(s confState) bool { return !in(0o755)(s.g301) }},
	{"use(os.Chmod(\"a\", 0o400))", "G302", nil, func(s confState) bool { return !in(0o400)(s.g302) }},
	{"use(os.Chmod(\"a\", 0o640))", "G302", nil, func(s confState) bool { return !in(0o640)(s.g302) }},
	{"use(os.WriteFile(\"a\", nil, 0o400))", "G306", nil, func(s confState) bool { return !in(0o400)(s.g306) }},
	{"use(os.WriteFile(\"a\", nil, 0o644))", "G306", nil, func(s confState) bool { return !in(0o644)(s.g306) }},
	{"use(os.Create(\"a\"))", "G307", nil, func(s confState) bool { return !in(0o666)(s.g307) }},
	{"horse := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"; use(horse)", "G101", nil, func(s confState) bool { return s.horse }},
	{"passwd := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"; use(passwd)", "G101", nil, func(s confState) bool { return s.passwd }},
	{"use(http.Dir(\"/\"))", "G111", nil, func(s confState) bool { return s.wide }},
	{"use(http.Dir(\"/x\"))", "G111", nil, func(s confState) bool { return !s.wide }},
}

func init() {
	All["C27"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("random JSON configurations (nested rule sections, global options of all types, unusual names and characters) loaded, written, loaded again and changed, compared with an independent model; malformed configurations and failing readers and writers; the command with random configuration files and flags on a program with one line per option, compared with an independent model of what is in force; non-trivial: the configuration is not empty")
		r.Assume("a malformed configuration is one that cannot be read, is no JSON object or whose global section is no object; rule sections are free-form",
			"global options are strings, booleans and integers below a million; string form of a number is its decimal form")
		r.Parallel(r.N(3000, 60000), func(i int, rng *rand.Rand) {
			doc, globals := randConfig(rng)
			b, err := json.Marshal(doc)
			if err != nil {
				r.Inconclusive("%v", err)
			}
			text := string(b)
			if rng.Intn(3) == 0 {
				var x bytes.Buffer
				json.Indent(&x, b, " ", "\t")
				text = "\n" + x.String() + "\n"
			}
			src := map[string]string{"config.json": text}
			c := gosec.NewConfig()
			n, err := c.ReadFrom(strings.NewReader(text))
			r.Eval("round trip", text, len(doc) > 0)
			if err != nil || n != int64(len(text)) {
				r.Violation("load", fmt.Sprintf("loading gives %d, %v", n, err), src)
				return
			}
			if p := configProblem(c, doc, globals); p != "" {
				r.Violation("load", p+"\n"+text, src)
				return
			}
			out, err := writeOf(c)
			if err != nil {
				r.Violation("write", err.Error(), src)
				return
			}
			c2 := gosec.NewConfig()
			if _, err := c2.ReadFrom(strings.NewReader(out)); err != nil {
				r.Violation("reload", fmt.Sprintf("what was written cannot be loaded: %v\n%s", err, out), src)
				return
			}
			if p := configProblem(c2, doc, globals); p != "" {
				r.Violation("reload", p+"\n"+text+"\n"+out, src)
				return
			}
			if out2, _ := writeOf(c2); out2 != out {
				r.Violation("reload", "written differently again:\n"+out+"\n"+out2, src)
			}
			// changes
			for k := rng.Intn(6); k > 0; k-- {
				if rng.Intn(3) == 0 {
					s, v := vh.Pick(rng, "G101", "G104", "new"), randJSON(rng, 2)
					c2.Set(s, v)
					doc[s] = v
				} else {
					o, v := vh.PickS(rng, globalNames), vh.Pick(rng, "true", "false", "enabled", "x", "")
					c2.SetGlobal(o, v)
					globals[o] = v
				}
				r.Count("changes", 1)
			}
			if p := configProblem(c2, doc, globals); p != "" {
				r.Violation("set", p, src)
				return
			}
			out, _ = writeOf(c2)
			c3 := gosec.NewConfig()
			if _, err := c3.ReadFrom(strings.NewReader(out)); err != nil {
				r.Violation("reload", fmt.Sprintf("a changed configuration cannot be loaded: %v\n%s", err, out), src)
			} else if p := configProblem(c3, doc, globals); p != "" {
				r.Violation("reload", "after changes: "+p, src)
			}
			// faults
			if n := rng.Intn(len(text) + 1); rng.Intn(4) == 0 {
				if _, err := gosec.NewConfig().ReadFrom(failingReader{strings.NewReader(text[:n])}); err == nil {
					r.Violation("fault/read", "a failing reader is not noticed", src)
				}
				if _, err := c2.WriteTo(&limitedWriter{left: rng.Intn(len(out))}); err == nil {
					r.Violation("fault/write", "a failing writer is not noticed", src)
				}
				r.Count("faults", 2)
			}
			if cut := strings.TrimSpace(text); rng.Intn(4) == 0 {
				cut = cut[:rng.Intn(len(cut))]
				if _, err := gosec.NewConfig().ReadFrom(strings.NewReader(cut)); err == nil {
					r.Violation("malformed", "a configuration that is cut off is loaded:\n"+cut, src)
				}
				r.Count("cut off", 1)
			}
			if i%997 == 0 {
				r.Sample(map[string]any{"config": firstBytes(text, 300), "globals": globals})
			}
		})
		for _, m := range malformed {
			_, err := gosec.NewConfig().ReadFrom(strings.NewReader(m))
			r.Eval("malformed", m, true)
			if err == nil {
				r.Violation("malformed", fmt.Sprintf("%q is loaded without an error", m), nil)
			}
		}
		c27Command(r)
		r.Need("changes", 1000)
		r.Need("faults", 100)
		r.Need("flag against file", 30)
		r.Need("file value kept", 30)
	}
}

// c27Command runs the command with files and flags.
func c27Command(r *vh.Run) {
	dir := env(r).Dir()
	var b strings.Builder
	b.WriteString("package a\n\nimport (\n\t\"crypto/md5\"\n\t\"math/rand\"\n\t\"net/http\"\n\t\"os\"\n)\n\nfunc use(...any) {}\n\nfunc f(l int64) {\n")
	first := strings.Count(b.String(), "\n") + 1
	for _, l := range confLines {
		b.WriteString("\t" + l.stmt + "\n")
	}
	b.WriteString("}\n")
	writeModule(r, dir, map[string]string{"a.go": b.String()})
	if !goBuilds(r, dir, ".") {
		r.Inconclusive("the program does not compile")
	}
	onOff := func(rng *rand.Rand) (any, bool) {
		v := vh.Pick[any](rng, true, "true", "enabled", false, "false", "disabled")
		return v, v == true || v == "true" || v == "enabled"
	}
	list := func(rng *rand.Rand) string {
		all := []string{"G101", "G104", "G111", "G115", "G301", "G302", "G306", "G307", "G401", "G404", "G501"}
		rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		return strings.Join(all[:1+rng.Intn(6)], ",")
	}
	set := func(s string) map[string]bool {
		if s == "" {
			return nil
		}
		return vh.Set(strings.Split(s, ",")...)
	}
	r.Parallel(r.N(240, 4000), func(i int, rng *rand.Rand) {
		st := confState{g301: 0o750, g302: 0o600, g306: 0o600, g307: 0o666, passwd: true, wide: true}
		doc, g := map[string]any{}, map[string]any{}
		inFile := map[string]bool{}
		var args []string
		// what the file says
		option := func(name string, p int) bool {
			inFile[name] = rng.Intn(p) == 0
			return inFile[name]
		}
		if option("nosec", 2) {
			g["nosec"], st.nosec = onOff(rng)
		}
		if option("show-ignored", 2) {
			g["show-ignored"], st.show = onOff(rng)
		}
		if option("audit", 2) {
			g["audit"], st.audit = onOff(rng)
		}
		if option("tag", 3) {
			st.tag = vh.Pick(rng, "falsepositive", "dontanalyze")
			g["#nosec"] = vh.Pick(rng, "#", "") + st.tag
		}
		if option("include", 4) {
			l := list(rng)
			g["include"], st.include = l, set(l)
		}
		if option("exclude", 4) {
			l := list(rng)
			g["exclude"], st.exclude = l, set(l)
		}
		modes := map[string]*int64{"G301": &st.g301, "G302": &st.g302, "G306": &st.g306, "G307": &st.g307}
		for _, n := range sortedKeys(modes) {
			if p := modes[n]; rng.Intn(3) == 0 {
				*p = vh.Pick[int64](rng, 0o400, 0o600, 0o644, 0o700, 0o755, 0o777)
				doc[n] = vh.Pick(rng, fmt.Sprintf("0o%o", *p), fmt.Sprintf("0%o", *p), fmt.Sprint(*p), fmt.Sprintf("0x%x", *p))
			}
		}
		if rng.Intn(3) == 0 {
			switch rng.Intn(3) {
			case 0:
				st.horse, st.passwd = true, false
				doc["G101"] = map[string]any{"pattern": "(?i)horse"}
			case 1:
				st.horse = true
				doc["G101"] = map[string]any{"pattern": "horse|passwd", "ignore_entropy": true}
			case 2:
				st.passwd = false
				doc["G101"] = map[string]any{"entropy_threshold": "999999", "per_char_threshold": "999"}
			}
		}
		if rng.Intn(3) == 0 {
			st.removeFine = true
			doc["G104"] = map[string]any{"os": []any{"Chown", "Remove"}}
		}
		if rng.Intn(3) == 0 {
			st.wide = false
			doc["G111"] = map[string]any{"pattern": "http\\.Dir\\(\"/x\"\\)"}
		}
		if len(g) > 0 || rng.Intn(2) == 0 {
			doc["global"] = g
		}
		text := jsonText(doc)
		if len(doc) > 0 || rng.Intn(2) == 0 {
			args = append(args, "-conf="+writeConf(r, text))
		}
		// what the command line says
		flagged := func(name string, p int) bool {
			if rng.Intn(p) > 0 {
				if inFile[name] {
					r.Count("file value kept", 1)
				}
				return false
			}
			if inFile[name] {
				r.Count("flag against file", 1)
			}
			return true
		}
		boolFlag := func(name string, v *bool) string {
			*v = rng.Intn(2) == 0
			if *v {
				return vh.Pick(rng, "-"+name, "--"+name, "-"+name+"=true", "-"+name+"=1")
			}
			return vh.Pick(rng, "-"+name+"=false", "-"+name+"=0")
		}
		if flagged("nosec", 3) {
			args = append(args, boolFlag("nosec", &st.nosec))
		}
		if flagged("show-ignored", 3) {
			args = append(args, boolFlag("show-ignored", &st.show))
		}
		if flagged("audit", 3) {
			args = append(args, boolFlag("enable-audit", &st.audit))
		}
		if flagged("tag", 4) {
			st.tag = vh.Pick(rng, "falsepositive", "dontanalyze")
			args = append(args, "-nosec-tag="+vh.Pick(rng, "#", "")+st.tag)
		}
		if flagged("include", 4) {
			l := list(rng)
			if rng.Intn(5) == 0 {
				l = ""
			}
			st.include = set(l)
			args = append(args, "-include="+l)
		}
		if flagged("exclude", 4) {
			l := list(rng)
			if rng.Intn(5) == 0 {
				l = ""
			}
			st.exclude = set(l)
			args = append(args, "-exclude="+l)
		}
		rng.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
		args = append(args, "-fmt=json")
		if rng.Intn(2) == 0 {
			args = append(args, "-quiet")
		}
		// what is in force
		runs := func(rule string) bool { return (st.include == nil || st.include[rule]) && !st.exclude[rule] }
		var want []string
		for n, l := range confLines {
			if !runs(l.rule) || l.found != nil && !l.found(st) {
				continue
			}
			sup := l.suppressed != nil && l.suppressed(st) && !st.nosec
			if sup && !st.show {
				continue
			}
			want = append(want, fmt.Sprintf("%d %s ignored=%v", first+n, l.rule, sup))
		}
		if runs("G501") {
			want = append(want, "4 G501 ignored=false")
		}
		some := st.include == nil
		for x := range st.include {
			some = some || !st.exclude[x]
		}
		if st.include != nil && st.exclude == nil {
			some = true
		}
		o := runCLI(r, dir, append(args, ".")...)
		key := text + " " + strings.Join(args, " ")
		r.Eval("command", key, len(args) > 1)
		src := map[string]string{"a.go": b.String(), "config.json": text, "args": strings.Join(args, " "), "stdout": o.stdout, "stderr": o.stderr}
		if strings.Contains(o.stderr, "goroutine ") || o.timeout {
			r.Violation("command/crash", key+"\n"+firstBytes(o.stderr, 800), src)
			return
		}
		if !some {
			// nothing to run is an error
			if o.code == 0 {
				r.Violation("command/no rules", key+": success without any rule", src)
			}
			return
		}
		var got []string
		for _, x := range o.json(r).Issues {
			got = append(got, fmt.Sprintf("%s %s ignored=%v", x.Line, x.RuleID, x.NoSec))
		}
		sort.Strings(want)
		sort.Strings(got)
		r.Count("findings compared", int64(len(want)))
		if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
			r.Violation("command/in force", fmt.Sprintf("%v with %s\nmissing %v\nextra %v", args, text, m, e), src)
		}
		if i%53 == 0 {
			r.Sample(map[string]any{"file": text, "flags": args, "findings": len(want)})
		}
	})
	// malformed files
	bad := map[string]string{}
	for n, m := range malformed {
		bad[fmt.Sprintf("malformed %d %q", n, m)] = writeConf(r, m)
	}
	bad["a directory"] = dir
	bad["no file"] = filepath.Join(dir, "no such file")
	bad["a file as directory"] = filepath.Join(dir, "a.go", "x")
	names := sortedKeys(bad)
	r.Parallel(len(names), func(i int, rng *rand.Rand) {
		f := bad[names[i]]
		o := runCLI(r, dir, "-fmt=json", "-no-fail", "-conf="+f, ".")
		r.Eval("malformed command", names[i], true)
		if o.code == 0 || o.stdout != "" || strings.TrimSpace(o.stderr) == "" || strings.Contains(o.stderr, "goroutine ") {
			r.Violation("malformed/command", fmt.Sprintf("%s: exit %d, output %q, %q", names[i], o.code, firstBytes(o.stdout, 200), firstBytes(o.stderr, 400)), nil)
		}
	})
}
