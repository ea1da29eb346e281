package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// marks renders the suppressions of a finding in a canonical order.
func marks(ss []issue.SuppressionInfo) string {
	var out []string
	for _, s := range ss {
		out = append(out, fmt.Sprintf("%s:%q", s.Kind, s.Justification))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// marked is a finding without its suppressions, and these in canonical order.
func marked(i *issue.Issue, clean func(string) string) string {
	c := *i
	c.Suppressions = nil
	c.NoSec = false
	b, _ := json.Marshal(&c)
	return clean(string(b))
}

// externalOf gives the rules that are globally suppressed by the options.
func externalOf(o vh.Opts, rule string) bool {
	in := func(l []string) bool {
		for _, x := range l {
			if x == rule {
				return true
			}
		}
		return false
	}
	return (len(o.Include) > 0 && !in(o.Include)) || in(o.Exclude)
}

func init() {
	All["C15"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("corpus packages with random suppression comments, random include/exclude lists, scanned with tracking: the findings must equal those of the same text with blanked directives and all rules; every finding's marks must equal the marks computed by an independent model; plus dense programs where several comments and rules meet on one line; plus command runs for exit status and reports; non-trivial: some finding is suppressed")
		ids := func(rng *rand.Rand) []string {
			var out []string
			for k := rng.Intn(4); k > 0; k-- {
				out = append(out, vh.PickS(rng, corpusRules))
			}
			return out
		}
		judge := func(i int, kind string, rng *rand.Rand, a *annotated) {
			o := vh.Opts{Track: true, Conf: a.setup.config(nil)}
			if rng.Intn(2) == 0 {
				o.Exclude = ids(rng)
			}
			if rng.Intn(3) == 0 {
				o.Include = ids(rng)
			}
			show := rng.Intn(4) == 0
			if show {
				o.Conf.SetGlobal(gosec.ShowIgnored, "true")
			}
			want := map[string][]string{}
			sup := 0
			for _, is := range a.base {
				var ss []issue.SuppressionInfo
				for _, x := range silencing(a.model[is.File], is) {
					ss = append(ss, issue.SuppressionInfo{Kind: "inSource", Justification: x.justification})
				}
				if externalOf(o, is.RuleID) {
					ss = append(ss, issue.SuppressionInfo{Kind: "external", Justification: "Globally suppressed."})
				}
				if len(ss) > 0 {
					sup++
				}
				k := marked(is, a.clean)
				want[k] = append(want[k], a.clean(marks(ss)))
			}
			r.Eval(kind, fmt.Sprint(a.files, o.Include, o.Exclude), sup > 0)
			r.Count("findings", int64(len(a.base)))
			r.Count("suppressed findings", int64(sup))
			res := vh.Scan(o, a.l)
			if res.Panic != "" {
				r.Violation(kind+"/panic", res.Panic, vh.SrcMap(a.files))
				return
			}
			got := map[string][]string{}
			for _, is := range res.Issues {
				c := *is
				c.File = strings.TrimPrefix(c.File, a.l.Dir+"/")
				k := marked(&c, a.clean)
				got[k] = append(got[k], a.clean(marks(c.Suppressions)))
				if is.NoSec != (show && len(c.Suppressions) > 0) {
					r.Violation(fmt.Sprintf("%s-nosec/%d", kind, i), "ignored flag and suppressions disagree: "+k, vh.SrcMap(a.files))
				}
			}
			for k, w := range want {
				sort.Strings(w)
				g := got[k]
				sort.Strings(g)
				if fmt.Sprint(w) != fmt.Sprint(g) {
					r.Violation(fmt.Sprintf("%s/%d", kind, i), fmt.Sprintf("%s include=%v exclude=%v\nmarks expected: %q\nmarks observed: %q\n%s", a.setup.name, o.Include, o.Exclude, w, g, k), vh.SrcMap(a.files))
				}
			}
			for k := range got {
				if _, ok := want[k]; !ok {
					r.Violation(fmt.Sprintf("%s-extra/%d", kind, i), fmt.Sprintf("finding that is absent without suppressions: %s", k), vh.SrcMap(a.files))
				}
			}
			if i%101 == 3 {
				r.Sample(map[string]any{"kind": kind, "findings": len(a.base), "suppressed": sup, "include": o.Include, "exclude": o.Exclude})
			}
		}
		r.Parallel(r.N(1200, 30000), func(i int, rng *rand.Rand) {
			a := newAnnotated(r, rng, vh.PickS(rng, tagSetups), vh.Opts{})
			defer a.l.Remove()
			judge(i, "sprinkled", rng, a)
		})
		r.Parallel(r.N(400, 10000), func(i int, rng *rand.Rand) {
			a := denseAnnotated(r, rng)
			defer a.l.Remove()
			judge(i, "dense", rng, a)
		})
		r.Need("suppressed findings", 300)
		c15CLI(r)
	}
}

// denseAnnotated makes a function where nested blocks with suppression
// comments of their own enclose lines on which several rules meet.
func denseAnnotated(r *vh.Run, rng *rand.Rand) *annotated {
	a := &annotated{setup: tagSetups[0], model: map[string][]annotation{}}
	n := 0
	cm := func() string {
		n++
		return fmt.Sprintf("#nosec%s -- reason %d", vh.Pick(rng, "", "", " G401", " G404", " G401 G404", " G103"), n)
	}
	stmt := func() string {
		s := vh.Pick(rng, "use(md5.New(), rand.Int())", "use(md5.New(), rand.Int(), unsafe.Pointer(nil))", "use(rand.Int())", "use(md5.New(), md5.New())",
			// several lines, and statements which share one of them
			"use(\n\t1); use(md5.\n\tNew(), 2)", "use(rand.\n\tIntn(\n\t3)); use(rand.\n\tInt())", "use(md5.\n\tNew()); use(\n\t2, rand.Int())", "use(\n\tmd5.New()); use(rand.\n\tIntn(\n\t3),\n\tunsafe.Pointer(nil))")
		if rng.Intn(2) == 0 {
			s += " // " + cm()
		}
		return s + "\n"
	}
	var block func(d int) string
	block = func(d int) string {
		var sb strings.Builder
		for k := 1 + rng.Intn(3); k > 0; k-- {
			if d > 0 && rng.Intn(3) > 0 {
				if rng.Intn(3) > 0 {
					sb.WriteString("//" + cm() + "\n")
				}
				sb.WriteString("if cond() {\n" + block(d-1) + "}")
				if rng.Intn(4) == 0 {
					sb.WriteString(" // " + cm())
				}
				sb.WriteString("\n")
			} else {
				if rng.Intn(3) == 0 {
					sb.WriteString("//" + cm() + "\n")
				}
				sb.WriteString(stmt())
			}
		}
		return sb.String()
	}
	text := "package p\n\nimport (\n\t\"crypto/md5\" // " + cm() + "\n\t\"math/rand\"\n\t\"unsafe\"\n)\n\n" + vh.Helpers + "\nvar _ unsafe.Pointer\nvar _ = rand.Int\nvar _ = md5.New\n\n"
	for k := 1 + rng.Intn(3); k > 0; k-- {
		if rng.Intn(2) == 0 {
			text += "//" + cm() + "\n"
		}
		text += fmt.Sprintf("func f%d() {\n%s}\n\n", k, block(3))
	}
	a.files = []vh.Src{{Name: "f0.go", Text: text}}
	a.neutral = []vh.Src{{Name: "f0.go", Text: neutralise(text, "#nosec")}}
	m, err := annotations("f0.go", text, []string{"#nosec"})
	if err != nil {
		r.Inconclusive("%v", err)
	}
	a.model["f0.go"] = m
	ln := loadOrDie(r, a.neutral)
	for _, i := range vh.Scan(vh.Opts{}, ln).Issues {
		i.File = "f0.go"
		a.base = append(a.base, i)
	}
	ln.Remove()
	a.l = loadOrDie(r, a.files)
	return a
}

func c15CLI(r *vh.Run) {
	src := `package main

import (
	"crypto/md5" // #nosec G501 -- needed
	"os"
)

func use(...any) {}

func main() {
	use(md5.New()) // #nosec G401 -- legacy
	os.Remove("x")%s
}
`
	for _, c := range []struct {
		name, comment string
		args          []string
		want          map[string]string
		code          int
	}{
		{"open", "", nil, map[string]string{"4:G501": `inSource:"needed"`, "11:G401": `inSource:"legacy"`, "12:G104": ""}, 1},
		{"excluded", "", []string{"-exclude=G104"}, map[string]string{"4:G501": `inSource:"needed"`, "11:G401": `inSource:"legacy"`, "12:G104": `external:"Globally suppressed."`}, 0},
		{"excluded and commented", " // #nosec -- two", []string{"-exclude=G104,G401"}, map[string]string{"4:G501": `inSource:"needed"`, "11:G401": `external:"Globally suppressed." inSource:"legacy"`, "12:G104": `external:"Globally suppressed." inSource:"two"`}, 0},
		{"included", "", []string{"-include=G401"}, map[string]string{"4:G501": `external:"Globally suppressed." inSource:"needed"`, "11:G401": `inSource:"legacy"`, "12:G104": `external:"Globally suppressed."`}, 0},
		{"commented", " //gosec:disable G104 -- x -- y", nil, map[string]string{"4:G501": `inSource:"needed"`, "11:G401": `inSource:"legacy"`, "12:G104": `inSource:"x -- y"`}, 0},
		{"override", "", []string{"-nosec", "-exclude=G104"}, map[string]string{"4:G501": "", "11:G401": "", "12:G104": `external:"Globally suppressed."`}, 1},
	} {
		dir := env(r).Dir()
		text := fmt.Sprintf(src, c.comment)
		writeModule(r, dir, map[string]string{"main.go": text})
		for _, f := range []string{"json", "sarif", "text"} {
			for _, quiet := range []bool{false, true} {
				r.Eval("cli "+f, c.name+fmt.Sprint(quiet), true)
				args := append([]string{"-track-suppressions", "-fmt=" + f}, c.args...)
				if quiet {
					args = append(args, "-quiet")
				}
				o := runCLI(r, dir, append(args, ".")...)
				fail := func(why string) {
					r.Violation("cli/"+c.name+"/"+f, fmt.Sprintf("gosec %v: %s\n%s", args, why, o.stdout), map[string]string{"main.go": text, "stdout": o.stdout, "stderr": o.stderr})
				}
				if o.code != c.code {
					fail(fmt.Sprintf("exit status %d, expected %d", o.code, c.code))
				}
				got := map[string]string{}
				open := 0
				for _, w := range c.want {
					if w == "" {
						open++
					}
				}
				if quiet && open == 0 && o.stdout == "" {
					continue
				}
				switch f {
				case "json":
					for _, i := range o.json(r).Issues {
						var ss []issue.SuppressionInfo
						for _, s := range i.Suppressions {
							ss = append(ss, issue.SuppressionInfo{Kind: s.Kind, Justification: s.Justification})
						}
						got[i.Line+":"+i.RuleID] = marks(ss)
					}
				case "sarif":
					var rep struct {
						Runs []struct {
							Results []struct {
								RuleID    string
								Locations []struct {
									PhysicalLocation struct{ Region struct{ StartLine int } }
								}
								Suppressions []issue.SuppressionInfo
							}
						}
					}
					if err := json.Unmarshal([]byte(o.stdout), &rep); err != nil || len(rep.Runs) != 1 {
						fail(fmt.Sprintf("no SARIF report: %v", err))
						continue
					}
					for _, x := range rep.Runs[0].Results {
						got[fmt.Sprintf("%d:%s", x.Locations[0].PhysicalLocation.Region.StartLine, x.RuleID)] = marks(x.Suppressions)
					}
				case "text":
					// suppressed findings are left out of the text report
					for k, w := range c.want {
						rule := k[strings.Index(k, ":")+1:]
						if strings.Contains(o.stdout, rule+" (CWE") != (w == "") {
							fail("finding " + k + " with marks " + w + " wrongly shown or missing")
						}
					}
					continue
				}
				if fmt.Sprint(got) != fmt.Sprint(c.want) {
					fail(fmt.Sprintf("marks %v, expected %v", got, c.want))
				}
			}
		}
	}
}
