package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// anyJSON makes a value of any kind.
func anyJSON(rng *rand.Rand, depth int) any {
	if depth > 2 {
		depth = 2
	}
	switch n := rng.Intn(13 - 2*depth); n {
	case 0:
		return nil
	case 1:
		return rng.Intn(2) == 0
	case 2:
		return vh.Pick(rng, 0.0, 1.0, -1.0, 1.5, 448.0, 1e300, 80.0)
	case 3, 4, 5, 6, 7:
		return vh.Pick(rng, "", " ", "true", "1", "t", "TRUE", "0", "-1", "0o600", "0o9", "-0o1", "80.0", "abc", "(", "[", "a{2,1}", "*", "(?i)plain|key", "enabled", "NaN", "1e400", "99999999999999999999", "\\", "\x00", "0x", "16 ")
	case 8, 9:
		var l []any
		for k := rng.Intn(3); k > 0; k-- {
			l = append(l, anyJSON(rng, depth+1))
		}
		return l
	default:
		m := map[string]any{}
		for k := rng.Intn(3); k > 0; k-- {
			m[vh.Pick(rng, "pattern", "os", "fmt", "truncate", "x", "", "ignore_entropy")] = anyJSON(rng, depth+1)
		}
		return m
	}
}

// spoil makes a configuration some values of which have the wrong form.
func spoil(rng *rand.Rand) map[string]any {
	doc := map[string]any{}
	for n := 1 + rng.Intn(4); n > 0; n-- {
		k, v := ruleSection(rng)
		doc[k] = v
	}
	for n := 1 + rng.Intn(3); n > 0; n-- {
		switch rng.Intn(8) {
		case 0, 1:
			k := vh.Pick(rng, "G101", "G104", "G111", "G301", "G302", "G306", "G307", "G401", "x")
			doc[k] = anyJSON(rng, 0)
		case 2, 3, 4:
			m, ok := doc["G101"].(map[string]any)
			if !ok {
				m = map[string]any{}
				doc["G101"] = m
			}
			m[vh.Pick(rng, "pattern", "pattern", "ignore_entropy", "entropy_threshold", "per_char_threshold", "truncate", "truncate", "other")] = anyJSON(rng, 0)
		case 5:
			m, ok := doc["G104"].(map[string]any)
			if !ok {
				m = map[string]any{}
				doc["G104"] = m
			}
			if rng.Intn(2) == 0 {
				m[vh.Pick(rng, "os", "fmt", "io")] = anyJSON(rng, 0)
			} else {
				l := []any{"Remove", "Rename", "Chdir", "Copy"}
				for k := 1 + rng.Intn(3); k > 0; k-- {
					at := rng.Intn(len(l) + 1)
					l = append(l[:at:at], append([]any{anyJSON(rng, 1)}, l[at:]...)...)
				}
				m[vh.Pick(rng, "os", "io")] = l
			}
		case 6:
			doc["G111"] = map[string]any{"pattern": anyJSON(rng, 0)}
		case 7:
			g, _ := doc["global"].(map[string]any)
			if g == nil {
				g = map[string]any{}
				doc["global"] = g
			}
			v := anyJSON(rng, 0)
			if s := fmt.Sprint(v); s == "true" || s == "enabled" {
				v = "yes"
			}
			g[vh.Pick(rng, "audit", "show-ignored", "ssa", "other")] = v
		}
	}
	return doc
}

// asSaid is what is left of a configuration without what has a wrong form.
func asSaid(doc map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range doc {
		switch k {
		case "G301", "G302", "G306", "G307":
			if s, ok := v.(string); ok {
				if _, err := strconv.ParseInt(s, 0, 64); err == nil {
					out[k] = v
				}
			}
		case "G104":
			m, _ := v.(map[string]any)
			o := map[string]any{}
			for p, l := range m {
				l, _ := l.([]any)
				var names []any
				for _, n := range l {
					if s, ok := n.(string); ok {
						names = append(names, s)
					}
				}
				if names != nil {
					o[p] = names
				}
			}
			out[k] = o
		case "G101", "G111":
			m, _ := v.(map[string]any)
			o := map[string]any{}
			for key, v := range m {
				s, isString := v.(string)
				ok := false
				switch {
				case key == "pattern" && isString:
					_, err := regexp.Compile(s)
					ok = err == nil
				case key == "ignore_entropy" && k == "G101":
					_, ok = v.(bool)
				case (key == "entropy_threshold" || key == "per_char_threshold") && k == "G101" && isString:
					_, err := strconv.ParseFloat(s, 64)
					ok = err == nil
				case key == "truncate" && k == "G101" && isString:
					n, err := strconv.Atoi(s)
					ok = err == nil && n >= 0
				}
				if ok {
					o[key] = v
				}
			}
			out[k] = o
		}
	}
	return out
}

// loadable tells whether a text is a configuration at all.
func loadable(text string) bool {
	var m map[string]any
	if json.Unmarshal([]byte(text), &m) != nil || m == nil {
		return false
	}
	if g, ok := m["global"]; ok {
		_, ok = g.(map[string]any)
		return ok
	}
	return true
}

func readConf(text string) (c gosec.Config, err error, crash string) {
	defer func() {
		if p := recover(); p != nil {
			crash = fmt.Sprint(p)
		}
	}()
	c = gosec.NewConfig()
	_, err = c.ReadFrom(bytes.NewReader([]byte(text)))
	return
}

func init() {
	All["C44"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("configurations with values of any kind in every place, and texts which are no configurations, for the library and the command, and values of options which the command does not know; a configuration must be refused exactly if it is no object with objects as sections where the model says so, values in a wrong form must count as if they were not there (two scans of the same programs compared in every field), a refusal must be a message and an exit status and no report, and nothing may crash or hang; non-trivial: something has a wrong form and there are findings")
		r.Need("library", 300)
		r.Need("texts", 300)
		r.Need("command", 30)
		r.Need("options", 30)
		for _, text := range []string{"", " ", "null", "[]", "5", "\"x\"", "{", "{}", "{}{}", "{} x", "{\"global\":null}", "{\"global\":[]}", "{\"global\":\"x\"}", "{\"global\":{}}", "{\"G101\":null}", "{\"global\":{\"nosec\":null}}", "\xff{}", "{\"a\":1,}", "// c\n{}", "{\"global\":{},\"global\":1}"} {
			tryText(r, text)
		}
		r.Parallel(r.N(400, 6000), func(i int, rng *rand.Rand) {
			doc := spoil(rng)
			if rng.Intn(4) == 0 {
				doc["global"] = anyJSON(rng, 0)
			}
			text := []byte(jsonText(doc))
			for n := rng.Intn(3); n > 0; n-- {
				at := rng.Intn(len(text))
				text[at] = vh.Pick(rng, byte('{'), '}', '[', '"', ',', ':', 'x', ' ', '\\', 0x80)
			}
			tryText(r, string(text))
		})
		r.Parallel(r.N(700, 10000), func(i int, rng *rand.Rand) {
			files := append(corpusPkg(rng, "p", 2+rng.Intn(9), 1, 0), fragileFile(rng))
			ld, err := env(r).Load(files, nil)
			if err != nil || len(ld.TypeErr) > 0 {
				r.Inconclusive("program does not compile: %v %v", err, ld.TypeErr)
			}
			defer ld.Remove()
			scan := func(doc map[string]any) (l []string, crash string) {
				defer func() {
					if p := recover(); p != nil {
						crash = fmt.Sprint(p)
					}
				}()
				c, err, crash := readConf(jsonText(doc))
				if err != nil || crash != "" {
					return nil, fmt.Sprint("configuration refused: ", err, crash)
				}
				res := vh.Scan(vh.Opts{Conf: c}, ld)
				for _, is := range res.Issues {
					l = append(l, vh.Full(is, ld.Dir+"/"))
				}
				sort.Strings(l)
				return l, res.Panic
			}
			for k := 0; k < 6; k++ {
				doc := spoil(rng)
				said := asSaid(doc)
				a, crash := scan(doc)
				b, crash2 := scan(said)
				r.Eval("library", jsonText(doc)+files[0].Text, len(b) > 0 && jsonText(doc) != jsonText(said))
				if crash != "" || crash2 != "" {
					r.Violation("library/crash", fmt.Sprintf("a scan with the configuration %s crashes: %s %s", jsonText(doc), crash, crash2), vh.SrcMap(files))
				} else if m, e := vh.Diff(b, a); len(m)+len(e) > 0 {
					r.Violation("library/differs", fmt.Sprintf("values in a wrong form are not ignored: %s is not taken as %s\nmissing: %q\nextra: %q", jsonText(doc), jsonText(said), m, e), vh.SrcMap(files))
				}
			}
		})
		commandConfs(r)
		commandOptions(r)
	}
}

// fragileFile has something each of the rules with a configuration looks at.
func fragileFile(rng *rand.Rand) vh.Src {
	t := "package p\n\nimport (\n\tosx \"os\"\n\t\"net/http\"\n)\n\nfunc fragile() {\n"
	lines := []string{
		"passwd := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\t_ = passwd",
		"plainText := \"correcthorse\"\n\t_ = plainText",
		"apiKey := \"ab\"\n\t_ = apiKey",
		"osx.Remove(\"a\")",
		"osx.Chdir(\"a\")",
		"_ = http.Dir(\"/\")",
		"_ = osx.Mkdir(\"a\", 0o777)",
		"_ = osx.Chmod(\"a\", 0o644)",
		"_ = osx.WriteFile(\"a\", nil, 0o640)",
		"_, _ = osx.Create(\"a\")",
	}
	rng.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
	return vh.Src{Name: "fragile.go", Text: t + "\t" + strings.Join(lines, "\n\t") + "\n}\n"}
}

func tryText(r *vh.Run, text string) {
	c, err, crash := readConf(text)
	want := loadable(text)
	r.Eval("texts", text, !want)
	switch {
	case crash != "":
		r.Violation("texts/crash", fmt.Sprintf("reading the configuration %q crashes: %s", text, crash), map[string]string{"conf": text})
	case (err == nil) != want:
		r.Violation("texts/refused", fmt.Sprintf("the configuration %q: refused with %v, it is one: %v", text, err, want), map[string]string{"conf": text})
	case err == nil:
		// it still takes settings
		c.SetGlobal(gosec.Audit, "true")
		if on, err := c.IsGlobalEnabled(gosec.Audit); err != nil || !on {
			r.Violation("texts/globals", fmt.Sprintf("no option can be set after %q was read: %v", text, err), map[string]string{"conf": text})
		}
	}
}

// brokenRun tells what is wrong with how a run of the command ended.
func brokenRun(o cliOut, refused bool) string {
	switch {
	case o.timeout:
		return "does not end"
	case strings.Contains(o.stderr, "goroutine ") || strings.Contains(o.stderr, "panic:") || o.code < 0 || o.code > 2:
		return fmt.Sprint("crashes, status ", o.code)
	case refused && o.code == 0:
		return "is not refused, status 0"
	case refused && strings.TrimSpace(o.stdout) != "":
		return "is refused but prints a report"
	case refused && strings.TrimSpace(o.stderr) == "":
		return "is refused without a message"
	}
	return ""
}

func fragileProject(r *vh.Run, rng *rand.Rand) *project {
	p := &project{dir: env(r).Dir(), src: map[string]string{}, pkgs: []string{"./p"}}
	for _, f := range append(corpusPkg(rng, "p", 1+rng.Intn(4), 1, 0), fragileFile(rng)) {
		p.src["p/"+f.Name] = f.Text
	}
	writeModule(r, p.dir, p.src)
	return p
}

func outMap(p *project, o cliOut, conf string) map[string]string {
	m := map[string]string{"args": strings.Join(o.args, " "), "stdout": o.stdout, "stderr": o.stderr, "conf": conf}
	for n, t := range p.src {
		m[n] = t
	}
	return m
}

func reportLines(rep jsonReport, dir string) []string {
	var l []string
	for _, is := range rep.Issues {
		is.File = strings.TrimPrefix(is.File, dir)
		l = append(l, is.essence())
	}
	sort.Strings(l)
	return l
}

// commandConfs runs the command with such configurations.
func commandConfs(r *vh.Run) {
	r.Parallel(r.N(24, 300), func(i int, rng *rand.Rand) {
		p := fragileProject(r, rng)
		base := []string{"-fmt=json"}
		for k := 0; k < 3; k++ {
			doc := spoil(rng)
			text := jsonText(doc)
			if rng.Intn(3) == 0 {
				text = vh.Pick(rng, "", "null", "[]", "{", "{\"global\":5}", "{\"global\":null}", "\"x\"", text+"}", text[1:])
			}
			file := writeConf(r, text)
			refused := !loadable(text)
			if rng.Intn(5) == 0 {
				refused = true
				file = vh.Pick(rng, p.dir, filepath.Join(p.dir, "nowhere.json"), filepath.Join(p.dir, "go.mod"), filepath.Join(p.dir, "go.mod", "x"))
			}
			o := runCLI(r, p.dir, append(append([]string{}, base...), "-conf="+file, "./p")...)
			pr := brokenRun(o, refused)
			n := 0
			if pr == "" && !refused {
				ref := runCLI(r, p.dir, append(append([]string{}, base...), "-conf="+writeConf(r, jsonText(asSaid(doc))), "./p")...)
				want, got := reportLines(ref.json(r), p.dir), reportLines(o.json(r), p.dir)
				n = len(want)
				if m, e := vh.Diff(want, got); len(m)+len(e) > 0 || o.code != ref.code {
					pr = fmt.Sprintf("does not do the same as with %s; missing: %q, extra: %q, status %d and %d", jsonText(asSaid(doc)), m, e, o.code, ref.code)
				}
			}
			r.Eval("command", text+fmt.Sprint(i), refused || n > 0)
			if pr != "" {
				r.Violation("command", fmt.Sprintf("gosec -conf with %q %s", firstBytes(text, 400), pr), outMap(p, o, text))
			}
		}
	})
}

// commandOptions gives options values they do not have.
func commandOptions(r *vh.Run) {
	refused := []string{"-severity=xx", "-severity=", "-confidence=critical", "-confidence=0", "-severity=high,low", "-log=/nonexistent/x/l", "-out=/nonexistent/x/o", "-conf=/nonexistent.json", "-concurrency=x", "-concurrency=1.5", "-nosec=maybe", "-sort=2", "-no-such-option", "-tests=,", "-color=x"}
	ignored := []string{"-concurrency=0", "-concurrency=-1", "-concurrency=-1000000", "-exclude-dir=c++", "-exclude-dir=(", "-exclude-dir=[z-a]", "-exclude-dir=\\", "-exclude-dir=*", "-exclude-dir=a{2,1}", "-exclude-dir=?", "-exclude-dir=", "-exclude-dir=/", "-exclude=,", "-exclude=G999", "-exclude=g101", "-exclude= ", "-exclude=(", "-nosec-tag=[", "-nosec-tag=\\", "-nosec-tag=(?P<", "-ai-api-provider=xx", "-ai-api-provider=gemini", "-ai-api-key=x", "-ai-endpoint=::", "-tags= ", "-concurrency=100000", "-include="}
	r.Parallel(r.N(48, 600), func(i int, rng *rand.Rand) {
		p := fragileProject(r, rng)
		target := vh.Pick(rng, "./p", "./...")
		ref := runCLI(r, p.dir, "-fmt=json", target)
		want := reportLines(ref.json(r), p.dir)
		if len(want) == 0 {
			r.Inconclusive("nothing found in the project of C44")
		}
		args := []string{"-fmt=json"}
		var odd []string
		odd = append(odd, ignored[i%len(ignored)])
		for n := rng.Intn(3); n > 0; n-- {
			odd = append(odd, vh.PickS(rng, ignored))
		}
		no := i%3 == 0
		if no {
			odd = append(odd, refused[i/3%len(refused)])
		}
		rng.Shuffle(len(odd), func(a, b int) { odd[a], odd[b] = odd[b], odd[a] })
		args = append(append(args, odd...), target)
		o := runCLI(r, p.dir, args...)
		pr := brokenRun(o, no)
		if pr == "" && !no {
			got := reportLines(o.json(r), p.dir)
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 || o.code != ref.code {
				pr = fmt.Sprintf("does not report the same as without these options; missing: %q, extra: %q, status %d and %d", m, e, o.code, ref.code)
			}
		}
		r.Eval("options", strings.Join(args, " "), true)
		if pr != "" {
			r.Violation("options", fmt.Sprintf("gosec %s %s", strings.Join(args, " "), pr), outMap(p, o, ""))
		}
	})
}
