package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// leftovers are snippets that make rules keep state: tracked variables,
// loops, readers, import names, versions.
var leftovers = []snippet{
	{"clean", "func clean@(n string) {\n\tc := $filepath.Clean(n)\n\tb, err := $os.ReadFile(c)\n\tuse(b, err)\n}", ""},
	{"cleaned", "func cleaned@(n string) {\n\tuse($filepath.Clean(n))\n\tb, err := $os.ReadFile(n)\n\tuse(b, err)\n}", ""},
	{"loop reuse", "func reuse@(xs []int) {\n\tx, y := 1, 2\n\tfor x, y = range xs {\n\t\tuse(x, y)\n\t}\n\tuse(&y, &x)\n}", ""},
	{"loop late", "func late@(xs []int) {\n\tvar p []*int\n\tfor _, x := range xs {\n\t\tp = append(p, &x)\n\t}\n\tfor _, x := range xs {\n\t\tx := x\n\t\tp = append(p, &x)\n\t}\n\tuse(p)\n}", ""},
	{"return alias", "func ret@(xs []int) *int {\n\tfor _, x := range xs {\n\t\treturn &x\n\t}\n\treturn nil\n}", ""},
	{"atoi", "func atoi@(s string) {\n\tv, err := $strconv.Atoi(s)\n\tuse(v, err, int16(v))\n}", ""},
	{"int32 of other", "func other@(v int) {\n\tuse(int32(v))\n}", ""},
	{"reader", "func unzip@(in $io.Reader) {\n\tr, err := $gzip.NewReader(in)\n\tuse(err)\n\tn, err := $io.Copy($os.Stdout, r)\n\tuse(n, err)\n}", ""},
	{"plain copy", "func cp@(r $io.Reader) {\n\tn, err := $io.Copy($os.Stdout, r)\n\tuse(n, err)\n}", ""},
	{"tls low", "", "use(&$tls.Config{MinVersion: $tls.VersionTLS10})"},
	{"tls good", "", "use(&$tls.Config{MinVersion: $tls.VersionTLS12, MaxVersion: $tls.VersionTLS13})"},
	{"tls max", "", "use(&$tls.Config{MinVersion: $tls.VersionTLS12, MaxVersion: $tls.VersionTLS11})"},
	{"tls none", "", "use(&$tls.Config{ServerName: \"x\"})"},
	{"crypto rand", "", "use($crand.Read(make([]byte, 3)))"},
	{"safe template", "func html@() any {\n\treturn $htemplate.HTML(\"a\")\n}", ""},
	{"text template", "func text@() any {\n\treturn $ttemplate.HTMLEscapeString(\"a\")\n}", ""},
	{"package path", "var root@ = $os.Getenv(\"A\")\n\nfunc usePath@() {\n\tb, err := $os.ReadFile(root@)\n\tuse(b, err)\n}", ""},
	{"cleaned package path", "var dir@ = \"x\"\n\nfunc cleanPath@() {\n\tdir@ = $filepath.Clean(dir@)\n\tb, err := $os.ReadFile(dir@)\n\tuse(b, err)\n}", ""},
	{"query", "const base@ = \"SELECT \"\n\nfunc q@(db *$sql.DB, s string) {\n\trows, err := db.Query(base@ + s)\n\tuse(rows, err)\n}", ""},
}

// subjectPkg is one package for composition.
func subjectPkg(rng *rand.Rand, i int) []vh.Src {
	var sn []snippet
	for k := 1 + rng.Intn(5); k > 0; k-- {
		sn = append(sn, vh.PickS(rng, leftovers))
	}
	for k := rng.Intn(5); k > 0; k-- {
		sn = append(sn, vh.PickS(rng, corpus))
	}
	name := vh.Pick(rng, "p", "q", "main", "util")
	fs := buildPkg(rng, name, sn, 1+rng.Intn(3), 2, rng.Intn(2) == 0)
	if name == "main" {
		fs[0].Text += "\nfunc main() {}\n"
	}
	shiftLines(rng, fs)
	for k := range fs {
		if rng.Intn(3) == 0 {
			fs[k].Text, _, _ = sprinkle(rng, fs[k].Text, nil, "#nosec", 4)
		}
		if rng.Intn(8) == 0 {
			fs[k].Text = "// Code generated by tool. DO NOT EDIT.\n\n" + fs[k].Text
		}
	}
	return fs
}

// unrelatedFile is a file without names in common with the others.
func unrelatedFile(rng *rand.Rand, name, pkg string) vh.Src {
	f := vh.NewFile(rng, pkg, "Z")
	for k := 1 + rng.Intn(6); k > 0; k-- {
		s := vh.PickS(rng, leftovers)
		if rng.Intn(3) == 0 {
			s = vh.PickS(rng, corpus)
		}
		u := f.Uniq("q")
		if s.decls != "" {
			f.Decl(strings.ReplaceAll(s.decls, "@", u))
		}
		if s.stmts != "" {
			f.Wrap(strings.ReplaceAll(s.stmts, "@", u), rng.Intn(3))
		}
	}
	t := f.Text()
	if rng.Intn(3) == 0 {
		t = strings.Repeat("// long\n", rng.Intn(200)) + "\n" + t
	}
	if rng.Intn(3) == 0 {
		t, _, _ = sprinkle(rng, t, nil, "#nosec", 4)
	}
	if rng.Intn(4) == 0 {
		t = "// Code generated by tool. DO NOT EDIT.\n\n" + t
	}
	return vh.Src{Name: name, Text: t}
}

func pkgName(fs []vh.Src) string {
	for _, l := range strings.Split(fs[0].Text, "\n") {
		if n, ok := strings.CutPrefix(l, "package "); ok {
			return n
		}
	}
	return ""
}

func init() {
	All["C18"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages of corpus snippets and snippets that make rules keep state (loops, cleaned paths, readers, import names, TLS versions, suppressions); one analyzer scans random sequences of them (with repetitions, after resets); the findings must be the concatenation of those of fresh single scans, field by field, the metrics their sums; a file added to a package must not change the findings in the others; the command on several packages of a module reports the union of its runs on each; non-trivial: the composition has findings in at least two parts")
		id := func(s string) string { return s }
		type subject struct {
			files []vh.Src
			l     *vh.Loaded
			opts  map[int][]string
			res   map[int]vh.Result
		}
		optss := []vh.Opts{{}, {Track: true}, {ExclGen: true}, {Track: true, Exclude: []string{"G104", "G115", "G602"}}}
		np := r.N(120, 400)
		subj := make([]*subject, np)
		r.Parallel(np, func(i int, rng *rand.Rand) {
			f := subjectPkg(rng, i)
			s := &subject{files: f, l: loadOrDie(r, f), opts: map[int][]string{}, res: map[int]vh.Result{}}
			for k, o := range optss {
				res := vh.Scan(o, s.l)
				if res.Panic != "" {
					r.Violation("panic", res.Panic, vh.SrcMap(f))
				}
				s.opts[k] = fullSorted(res.Issues, "", id)
				s.res[k] = res
				r.Count("single findings", int64(len(res.Issues)))
			}
			subj[i] = s
		})
		r.Parallel(r.N(1500, 20000), func(i int, rng *rand.Rand) {
			k := rng.Intn(len(optss))
			o := optss[k]
			a := vh.NewAnalyzer(o)
			// history before a reset
			resets := 0
			if rng.Intn(3) == 0 {
				for n := 1 + rng.Intn(3); n > 0; n-- {
					s := subj[rng.Intn(np)]
					vh.ScanWith(a, s.l)
				}
				a.Reset()
				vh.LoadInto(a, o)
				resets++
			}
			n := 2 + rng.Intn(5)
			var want []string
			var ls []*vh.Loaded
			var files, lines, nosec, found, parts int
			var idx []int
			seen := map[int]bool{}
			m := map[string]string{}
			for j := 0; j < n; j++ {
				x := rng.Intn(np)
				if j > 0 && rng.Intn(6) == 0 {
					x = idx[rng.Intn(j)]
				}
				idx = append(idx, x)
				s := subj[x]
				ls = append(ls, s.l)
				want = append(want, s.opts[k]...)
				if len(s.opts[k]) > 0 && !seen[x] {
					parts++
				}
				seen[x] = true
				files += s.res[k].Metrics.NumFiles
				lines += s.res[k].Metrics.NumLines
				nosec += s.res[k].Metrics.NumNosec
				found += s.res[k].Metrics.NumFound
				for _, f := range s.files {
					m[fmt.Sprintf("%d/%s", j, f.Name)] = f.Text
				}
			}
			res := vh.ScanWith(a, ls...)
			kind := "sequence"
			if resets > 0 {
				kind = "sequence after reset"
			}
			r.Eval(kind, fmt.Sprint(k, idx), parts > 1)
			if i%131 == 3 {
				r.Sample(map[string]any{"packages": idx, "findings": len(want), "reset": resets})
			}
			sort.Strings(want)
			miss, extra := vh.Diff(want, fullSorted(res.Issues, "", id))
			if len(miss)+len(extra) > 0 || res.Panic != "" {
				r.Violation(kind+"/"+ruleOf(append(miss, extra...)), fmt.Sprintf("packages scanned in sequence by one analyzer\nmissing: %v\nextra: %v\n%s", miss, extra, res.Panic), m)
			}
			mm := res.Metrics
			if mm.NumFiles != files || mm.NumLines != lines || mm.NumNosec != nosec || mm.NumFound != found {
				r.Violation(kind+"/metrics", fmt.Sprintf("metrics %+v instead of files %d lines %d nosec %d found %d", mm, files, lines, nosec, found), m)
			}
		})
		// unrelated files
		r.Parallel(r.N(1000, 12000), func(i int, rng *rand.Rand) {
			s := subj[i%np]
			var fs []vh.Src
			fs = append(fs, s.files...)
			add := unrelatedFile(rng, vh.Pick(rng, "a0.go", "f0a.go", "z9.go"), pkgName(s.files))
			switch rng.Intn(3) {
			case 0:
				fs = append([]vh.Src{add}, fs...)
			case 1:
				fs = append(fs, add)
			default:
				at := rng.Intn(len(fs) + 1)
				fs = append(fs[:at:at], append([]vh.Src{add}, fs[at:]...)...)
			}
			l := loadOrDie(r, fs)
			defer l.Remove()
			res := vh.Scan(optss[1], l)
			var want, got []string
			for _, is := range s.res[1].Issues {
				want = append(want, vh.Full(is, s.l.Dir+"/"))
			}
			other := 0
			for _, is := range res.Issues {
				if filepath.Base(is.File) == add.Name {
					other++
					continue
				}
				got = append(got, vh.Full(is, l.Dir+"/"))
			}
			sort.Strings(want)
			sort.Strings(got)
			r.Eval("added file", add.Text+fs[0].Text, len(want) > 0 && other > 0)
			if miss, extra := vh.Diff(want, got); len(miss)+len(extra) > 0 || res.Panic != "" {
				r.Violation("added file/"+ruleOf(append(miss, extra...)), fmt.Sprintf("with an unrelated file %s\nmissing: %v\nextra: %v\n%s", add.Name, miss, extra, res.Panic), vh.SrcMap(fs))
			}
		})
		for _, s := range subj {
			s.l.Remove()
		}
		c18CLI(r)
		c18Process(r)
		r.Need("sequence", 200)
		r.Need("added file", 200)
		r.Need("command", 4)
	}
}

// ruleOf names the rule of the first rendered finding.
func ruleOf(s []string) string {
	if len(s) == 0 {
		return ""
	}
	_, t, _ := strings.Cut(s[0], `"rule_id":"`)
	t, _, _ = strings.Cut(t, `"`)
	return t
}

func c18CLI(r *vh.Run) {
	r.Parallel(r.N(4, 24), func(i int, rng *rand.Rand) {
		p := newProject(r, rng, 5, i%2 == 0)
		for k := 0; k < 3; k++ {
			fs := subjectPkg(rng, k)
			add := map[string]string{}
			for _, f := range fs {
				add[fmt.Sprintf("x%d/%s", k, f.Name)] = f.Text
			}
			for n, t := range add {
				p.src[n] = t
			}
			p.pkgs = append(p.pkgs, fmt.Sprintf("./x%d", k))
		}
		writeModule(r, p.dir, p.src)
		opts := []string{"-fmt=json", "-track-suppressions"}
		if i%2 == 1 {
			opts = append(opts, "-exclude-generated")
		}
		var want, wantErr []string
		var stats jsonStats
		parts := 0
		for _, k := range p.pkgs {
			o := runCLI(r, p.dir, append(opts, k)...)
			rep := o.json(r)
			for _, is := range rep.Issues {
				want = append(want, jsonText(is))
			}
			for f, es := range rep.Errors {
				for _, e := range es {
					wantErr = append(wantErr, f+jsonText(e))
				}
			}
			stats.Files += rep.Stats.Files
			stats.Lines += rep.Stats.Lines
			stats.Nosec += rep.Stats.Nosec
			stats.Found += rep.Stats.Found
			if len(rep.Issues) > 0 {
				parts++
			}
		}
		sort.Strings(want)
		sort.Strings(wantErr)
		for v := 0; v < 3; v++ {
			args := append([]string{}, p.pkgs...)
			rng.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
			if v == 2 {
				args = []string{"./..."}
			}
			o := runCLI(r, p.dir, append(append([]string{}, opts...), args...)...)
			rep := o.json(r)
			var got, gotErr []string
			for _, is := range rep.Issues {
				got = append(got, jsonText(is))
			}
			for f, es := range rep.Errors {
				for _, e := range es {
					gotErr = append(gotErr, f+jsonText(e))
				}
			}
			sort.Strings(got)
			sort.Strings(gotErr)
			r.Eval("command", fmt.Sprint(i, args), parts > 1)
			m, e := vh.Diff(want, got)
			me, ee := vh.Diff(wantErr, gotErr)
			if len(m)+len(e)+len(me)+len(ee) > 0 {
				r.Violation("command", fmt.Sprintf("gosec %v\nfindings missing %v extra %v\nerrors missing %v extra %v", args, m, e, me, ee), p.src)
			}
			if rep.Stats != stats {
				r.Violation("command/stats", fmt.Sprintf("gosec %v: %+v instead of the sums %+v", args, rep.Stats, stats), p.src)
			}
		}
	})
}

// c18Process resets an analyzer between scans with broken packages.
func c18Process(r *vh.Run) {
	p := newProject(r, r.Rng, 6, true)
	dir := func(k string) string { return filepath.Join(p.dir, k) }
	o := vh.Opts{Track: true}
	report := func(a *gosec.Analyzer) string {
		is, m, errs := a.Report()
		return jsonText(fullSorted(is, "", func(s string) string { return s })) + jsonText(m) + jsonText(errs)
	}
	scan := func(a *gosec.Analyzer, k string) {
		if err := a.Process(nil, dir(k)); err != nil {
			r.Violation("process", err.Error(), p.src)
		}
	}
	fresh := map[string]string{}
	broken := 0
	for _, k := range p.pkgs {
		a := vh.NewAnalyzer(o)
		scan(a, k)
		fresh[k] = report(a)
		if _, _, e := a.Report(); len(e) > 0 {
			broken++
		}
	}
	if broken == 0 {
		r.Inconclusive("no broken package")
	}
	a := vh.NewAnalyzer(o)
	for i := 0; i < r.N(14, 80); i++ {
		k := p.pkgs[r.Rng.Intn(len(p.pkgs))]
		if i%2 == 0 {
			k = p.pkgs[3] // the broken one
		}
		scan(a, k)
		r.Eval("reset", fmt.Sprint(i, k), true)
		if got := report(a); got != fresh[k] {
			r.Violation("reset", fmt.Sprintf("after a reset the scan of %s gives\n%s\ninstead of\n%s", k, got, fresh[k]), p.src)
		}
		a.Reset()
		vh.LoadInto(a, o)
	}
}
