package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

func plus(a, b gosec.Metrics) gosec.Metrics {
	return gosec.Metrics{NumFiles: a.NumFiles + b.NumFiles, NumLines: a.NumLines + b.NumLines, NumNosec: a.NumNosec + b.NumNosec, NumFound: a.NumFound + b.NumFound}
}

// unsuppressed counts the findings that are not marked.
func unsuppressed(is []*issue.Issue) int {
	n := 0
	for _, x := range is {
		if !x.NoSec && len(x.Suppressions) == 0 {
			n++
		}
	}
	return n
}

// statsOf is the model of the statistics of an annotated package.
func (a *annotated) statsOf(o vh.Opts, override bool, pass func(*issue.Issue) bool) gosec.Metrics {
	var m gosec.Metrics
	for _, f := range a.files {
		m.NumFiles++
		m.NumLines += lineCount(f.Text)
		if !override {
			m.NumNosec += len(a.model[f.Name])
		}
	}
	for _, is := range a.base {
		if externalOf(o, is.RuleID) || !override && len(silencing(a.model[is.File], is)) > 0 {
			continue
		}
		if pass == nil || pass(is) {
			m.NumFound++
		}
	}
	return m
}

func init() {
	All["C29"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages of corpus snippets with random suppression comments and near misses; the statistics of single scans, of scans of several packages after each of them, after a reset and after a repetition, against an independent model: files and lines of the texts, comment groups with a directive, findings of the text with blanked directives that no directive or exclusion silences; the same for the command with random options, generated and test files, thresholds and formats; non-trivial: there are directives and findings")
		r.Assume("a suppression comment is a comment group with a directive; with the override option none counts; lines are newline-terminated lines",
			"findings that are ignored or suppressed do not count as found, listed or not")
		options := func(rng *rand.Rand, setup tagSetup) (vh.Opts, bool) {
			extra := map[gosec.GlobalOption]string{}
			override := rng.Intn(5) == 0
			if override {
				extra[gosec.Nosec] = "true"
			}
			if rng.Intn(3) == 0 {
				extra[gosec.ShowIgnored] = "true"
			}
			o := vh.Opts{Track: rng.Intn(2) == 0, Conf: setup.config(extra)}
			if rng.Intn(3) == 0 {
				o.Exclude = []string{vh.PickS(rng, corpusRules), vh.PickS(rng, corpusRules)}
			}
			return o, override
		}
		r.Parallel(r.N(500, 12000), func(i int, rng *rand.Rand) {
			setup := vh.PickS(rng, tagSetups)
			o, override := options(rng, setup)
			var as []*annotated
			var wants []gosec.Metrics
			src := map[string]string{}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				a := newAnnotated(r, rng, setup, vh.Opts{})
				defer a.l.Remove()
				wants = append(wants, a.statsOf(o, override, nil))
				as = append(as, a)
				for _, f := range a.files {
					src[fmt.Sprint(len(as), "/", f.Name)] = f.Text
				}
			}
			key := fmt.Sprint(i, setup.name, override, o.Track, o.Exclude)
			var sum gosec.Metrics
			judge := func(kind string, got, want gosec.Metrics, list []*issue.Issue) {
				r.Count("statistics compared", 1)
				if got != want {
					r.Violation(kind, fmt.Sprintf("%s: %s: %+v instead of %+v", kind, key, got, want), src)
				} else if n := unsuppressed(list); n != got.NumFound {
					r.Violation(kind+"/list", fmt.Sprintf("%s: %s: %d found, %d listed", kind, key, got.NumFound, n), src)
				}
			}
			for k, a := range as {
				res := vh.Scan(o, a.l)
				if res.Panic != "" {
					r.Violation("panic", res.Panic, src)
					return
				}
				judge("single", res.Metrics, wants[k], res.Issues)
				sum = plus(sum, wants[k])
			}
			r.Count("directives", int64(sum.NumNosec))
			r.Count("findings", int64(sum.NumFound))
			r.Count("lines", int64(sum.NumLines))
			r.Eval("scan", key, sum.NumFound > 0 && sum.NumNosec > 0)
			if i%71 == 0 {
				r.Sample(map[string]any{"options": key, "packages": len(as), "statistics": sum})
			}
			// one after the other
			an := vh.NewAnalyzer(o)
			var so gosec.Metrics
			for _, k := range rng.Perm(len(as)) {
				res := vh.ScanWith(an, as[k].l)
				so = plus(so, wants[k])
				judge("several", res.Metrics, so, res.Issues)
			}
			an.Reset()
			if _, m, _ := an.Report(); *m != (gosec.Metrics{}) {
				r.Violation("reset", fmt.Sprintf("%+v after a reset", *m), src)
			}
			vh.LoadInto(an, o)
			k := rng.Intn(len(as))
			res := vh.ScanWith(an, as[k].l)
			judge("after reset", res.Metrics, wants[k], res.Issues)
		})
		c29Command(r)
		r.Need("directives", 1000)
		r.Need("findings", 1000)
		r.Need("command", 40)
	}
}

func c29Command(r *vh.Run) {
	type extra struct {
		name, text      string
		test, generated bool
		nosec           int
		rules           []string // findings left
		all             []string
	}
	extras := []extra{
		{"gen.go", "// Code generated by x. DO NOT EDIT.\n\npackage p\n\nimport \"crypto/md5\" // #nosec\n\n// Gen is generated.\nvar Gen = md5.New()\n", false, true, 1, []string{"G401"}, []string{"G501", "G401"}},
		{"x_test.go", "package p_test\n\nimport (\n\t\"crypto/sha1\"\n\t\"testing\"\n)\n\nfunc TestX(t *testing.T) {\n\tt.Log(sha1.New()) // #nosec G401 -- test\n\t/* #nosec G999 */\n\tt.Log(sha1.New())\n}\n", true, false, 2, []string{"G505", "G401"}, []string{"G505", "G401", "G401"}},
		{"i_test.go", "package p\n\nimport (\n\t\"crypto/des\"\n\t\"testing\"\n)\n\nfunc TestI(t *testing.T) {\n\tt.Log(des.NewCipher(nil)) //gosec:disable G405\n}\n", true, false, 1, []string{"G502"}, []string{"G502", "G405"}},
		{"empty.go", "package p\n", false, false, 0, nil, nil},
		{"nonl.go", "package p\n\n// #nosec\nvar X = 1", false, false, 1, nil, nil},
		{"only.go", "package p\n\n// #nosec\n\n// #nosec G101\n\n//gosec:disable\n\n// not #nosec\n", false, false, 3, nil, nil},
	}
	r.Parallel(r.N(60, 900), func(i int, rng *rand.Rand) {
		dir := env(r).Dir()
		files := map[string]string{}
		setup := tagSetups[0]
		args := []string{}
		o := vh.Opts{Track: rng.Intn(3) == 0}
		override, tests, exgen := rng.Intn(5) == 0, rng.Intn(2) == 0, rng.Intn(2) == 0
		if rng.Intn(3) == 0 {
			setup = vh.PickS(rng, tagSetups[:4])
		}
		if v, ok := setup.conf[gosec.NoSecAlternative]; ok {
			args = append(args, "-nosec-tag="+v)
		}
		if o.Track {
			args = append(args, "-track-suppressions")
		}
		if override {
			args = append(args, "-nosec")
		}
		if rng.Intn(3) == 0 {
			args = append(args, "-show-ignored")
		}
		if tests {
			args = append(args, "-tests")
		}
		if exgen {
			args = append(args, "-exclude-generated")
		}
		if rng.Intn(3) == 0 {
			o.Exclude = []string{vh.PickS(rng, corpusRules), vh.PickS(rng, corpusRules)}
			args = append(args, "-exclude="+strings.Join(o.Exclude, ","))
		}
		sev, conf := rng.Intn(3), rng.Intn(3)
		if rng.Intn(2) == 0 {
			sev, conf = 0, 0
		}
		args = append(args, "-severity="+levels[sev], "-confidence="+levels[conf], fmt.Sprint("-concurrency=", 1+rng.Intn(4)))
		pass := func(is *issue.Issue) bool { return int(is.Severity) >= sev && int(is.Confidence) >= conf }
		var want gosec.Metrics
		var pkgs []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			a := newAnnotated(r, rng, setup, vh.Opts{})
			a.l.Remove()
			d := fmt.Sprint("pk", k)
			if rng.Intn(4) == 0 {
				d = "deep/er/" + d
			}
			pkgs = append(pkgs, "./"+d)
			for _, f := range a.files {
				files[d+"/"+f.Name] = f.Text
			}
			want = plus(want, a.statsOf(o, override, pass))
			for _, e := range extras {
				if rng.Intn(4) > 0 {
					continue
				}
				files[d+"/"+e.name] = e.text
				if e.test && !tests || e.generated && exgen {
					continue
				}
				m := gosec.Metrics{NumFiles: 1, NumLines: lineCount(e.text), NumNosec: e.nosec}
				left := e.rules
				if override {
					m.NumNosec = 0
					left = e.all
				}
				for _, id := range left {
					// all of them of medium severity and high confidence
					if !externalOf(o, id) && pass(&issue.Issue{Severity: issue.Medium, Confidence: issue.High}) {
						m.NumFound++
					}
				}
				want = plus(want, m)
			}
		}
		writeModule(r, dir, files)
		format := vh.Pick(rng, "json", "json", "yaml", "text", "html")
		pk := pkgs
		if rng.Intn(2) == 0 {
			pk = []string{"./..."}
		}
		all := append(append([]string{"-no-fail", "-color=false", "-fmt=" + format}, args...), pk...)
		src := map[string]string{"args": strings.Join(all, " ")}
		for n, t := range files {
			src[n] = t
		}
		out := runCLI(r, dir, all...)
		src["stdout"], src["stderr"] = out.stdout, out.stderr
		p, err := parseReport(format, []byte(out.stdout), []string{dir})
		r.Eval("command", fmt.Sprint(i, all), want.NumFound > 0 && want.NumNosec > 0)
		r.Count("format "+format, 1)
		if err != nil || p.stats == nil || out.code != 0 {
			r.Violation("command/report", fmt.Sprintf("gosec %v: exit %d, %v", all, out.code, err), src)
			return
		}
		if len(p.errors) > 0 {
			r.Inconclusive("errors in well-formed packages: %v (gosec %v in %s)", p.errors, all, filepath.Base(dir))
		}
		if *p.stats != want {
			r.Violation("command", fmt.Sprintf("gosec %v\n%+v instead of %+v", all, *p.stats, want), src)
		}
		if format == "json" {
			n := 0
			for _, x := range out.json(r).Issues {
				if !x.NoSec && len(x.Suppressions) == 0 {
					n++
				}
			}
			if n != p.stats.NumFound {
				r.Violation("command/list", fmt.Sprintf("gosec %v\n%d found, %d listed", all, p.stats.NumFound, n), src)
			}
		}
		r.Count("statistics compared", 1)
	})
}
