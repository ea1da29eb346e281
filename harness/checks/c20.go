package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/vh"
)

func init() {
	All["C20"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("random tree and text mutations of the corpus, of programs of unusual shape and of the sample programs of the repository (valid, ill-typed, not parsable) scanned in worker processes which watch for panics, deaths and endless scans and rescan a sentinel package after each; the command on modules mixing good packages with such sources: it ends by itself, findings in the good packages are those without the broken ones, every package that does not compile has an error located in one of its files, the exit status is failure; non-trivial: the source parses at least in part")
		runCrash(r, r.N(40000, 600000))
		c20CLI(r)
		r.Need("tree", 10000)
		r.Need("command", 10)
	}
}

// endedBySelf checks that a run of the command ended in an orderly way.
func endedBySelf(r *vh.Run, key string, o cliOut, src map[string]string) bool {
	if o.timeout {
		r.Violation(key+"/hang", fmt.Sprintf("gosec %v did not end", o.args), src)
		return false
	}
	if strings.Contains(o.stderr, "goroutine ") && (strings.Contains(o.stderr, "panic: ") || strings.Contains(o.stderr, "fatal error: ")) {
		site := panicSite("panic(\n" + o.stderr)
		k := "panic/" + site
		if strings.Contains(o.stderr, "fatal error: ") {
			k = "death/" + site
		}
		e := o.stderr
		if i := strings.Index(e, "panic: "); i > 0 {
			e = e[i:]
		}
		if len(e) > 5000 {
			e = e[:5000]
		}
		r.Violation(k, fmt.Sprintf("gosec %v crashed: %s", o.args, e), src)
		return false
	}
	if o.code != 0 && o.code != 1 {
		r.Violation(key+"/status", fmt.Sprintf("gosec %v: exit status %d\n%s", o.args, o.code, o.stderr), src)
		return false
	}
	return true
}

func c20CLI(r *vh.Run) {
	seeds := seedPrograms(r)
	r.Parallel(r.N(32, 300), func(i int, rng *rand.Rand) {
		dir := env(r).Dir()
		src := map[string]string{}
		var good, all []string
		for k := 0; k < 2; k++ {
			n := fmt.Sprintf("good%d", k)
			for _, f := range corpusPkg(rng, n, 1+rng.Intn(4), 1+rng.Intn(2), 1) {
				src[n+"/"+f.Name] = f.Text
			}
			good = append(good, "./"+n)
		}
		all = append(all, good...)
		compiles := map[string]bool{}
		for k := 1 + rng.Intn(4); k > 0; k-- {
			n := fmt.Sprintf(vh.Pick(rng, "bad%d", "bad%d", "bad%d", "bad %d", "bad:%d", "b:ad/x%d", "bäd'%d", "bad%d:3:4"), k)
			_, fs := hostile(rng, seeds)
			if rng.Intn(3) == 0 {
				// something not even near a program
				t := vh.Pick(rng, "", "\n", "package", "package \n", "#!/bin/sh\n", "package p\n\x00", "package p; func", "package p\n\nimport \"", "\xff\xfe", "package p\n\nimport \"no/such\"\n", "package p\n\nimport \"example.com/m/good0\"\n\nvar x int = good0.None\n", "package p\n\nvar x = \"unclosed\n", "package p\n\n/*", "package p\n\nfunc init() { return 1 }\n", "package p\n\ntype t t\n", "package p\n\ntype t struct{ t }\n", "package p\n\nimport \"example.com/m/"+n+"\"\n")
				fs = []vh.Src{{Name: "h0.go", Text: t}}
			}
			if rng.Intn(4) == 0 {
				fs = append(fs, vh.Src{Name: "ok.go", Text: "package p\n\nimport \"crypto/md5\"\n\nvar Ok = md5.New()\n"})
			}
			for _, f := range fs {
				// leave out what makes a file no part of the package
				if strings.Contains(f.Text, "//go:build") || strings.Contains(f.Text, "+build") || strings.Contains(f.Text, "import \"C\"") || strings.Contains(f.Text, "//line") {
					f.Text = "package p\n\nvar x int = true\n"
				}
				src[n+"/"+f.Name] = f.Text
			}
			all = append(all, "./"+n)
		}
		if i%8 == 5 {
			// many which do not compile
			for k := 12 + rng.Intn(30); k > 0; k-- {
				n := fmt.Sprintf("many%d", k)
				src[n+"/a.go"] = vh.Pick(rng, "package a\n", "package b\n\nfunc\n", "")
				src[n+"/b.go"] = "package b\n\nvar x int = true\n"
				all = append(all, "./"+n)
			}
		}
		writeModule(r, dir, src)
		for _, p := range all {
			if strings.HasPrefix(p, "./many") {
				continue
			}
			compiles[p] = goBuilds(r, dir, p)
		}
		for _, p := range good {
			if !compiles[p] {
				r.Inconclusive("good package does not compile")
			}
		}
		broken := 0
		for _, p := range all {
			if !compiles[p] {
				broken++
			}
		}
		ref := runCLI(r, dir, append([]string{"-fmt=json"}, good...)...)
		refRep := ref.json(r)
		if len(refRep.Errors) > 0 {
			r.Inconclusive("errors in good packages: %v", refRep.Errors)
		}
		rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		args := append([]string{"-fmt=json", fmt.Sprintf("-concurrency=%d", 1+rng.Intn(3))}, all...)
		o := runCLI(r, dir, args...)
		r.Eval("command", jsonText(src), broken > 0)
		r.Count("broken packages", int64(broken))
		if !endedBySelf(r, "command", o, src) {
			return
		}
		if strings.TrimSpace(o.stdout) == "" {
			r.Violation("command/no-report", fmt.Sprintf("gosec %v wrote no report: %s", args, o.stderr), src)
			return
		}
		rep := o.json(r)
		var want, got []string
		for _, is := range refRep.Issues {
			want = append(want, jsonText(is))
		}
		for _, is := range rep.Issues {
			if strings.HasPrefix(is.File, filepath.Join(dir, "good")) {
				got = append(got, jsonText(is))
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
			r.Violation("command/good", fmt.Sprintf("gosec %v\nfindings of the good packages missing %v extra %v", args, m, e), src)
		}
		for _, p := range all {
			pd := filepath.Join(dir, p) + "/"
			located, other := 0, 0
			for f, es := range rep.Errors {
				for _, e := range es {
					switch {
					case strings.HasPrefix(f, pd) && strings.HasSuffix(f, ".go"):
						b, err := os.ReadFile(f)
						if n := lineCount(string(b)); err != nil || e.Line < 1 || e.Line > n+1 {
							r.Violation("command/location", fmt.Sprintf("gosec %v: error at %s:%d, which has %d lines", args, f, e.Line, n), src)
						}
						located++
					case strings.HasPrefix(f+"/", pd) || f == p || strings.Contains(e.Error, filepath.Base(p)):
						other++
					}
				}
			}
			switch {
			case compiles[p] && located > 0:
				r.Violation("command/false-error", fmt.Sprintf("gosec %v: errors in %s, which compiles: %v", args, p, rep.Errors), src)
			case !compiles[p] && located+other == 0:
				r.Violation("command/no-error", fmt.Sprintf("gosec %v: no error in %s, which does not compile: %v", args, p, rep.Errors), src)
			case !compiles[p] && located == 0:
				r.Count("broken packages with errors of the package only", 1)
			}
		}
		if (broken > 0 || len(rep.Issues) > 0) != (o.code == 1) {
			r.Violation("command/exit", fmt.Sprintf("gosec %v: exit %d with %d broken packages and %d findings", args, o.code, broken, len(rep.Issues)), src)
		}
		// failure only because of errors
		q := runCLI(r, dir, append([]string{"-fmt=json", "-quiet", "-include=G307"}, all...)...)
		if endedBySelf(r, "command", q, src) && (q.code == 1) != (broken > 0) {
			r.Violation("command/exit of errors", fmt.Sprintf("gosec %v: exit %d with %d broken packages\n%s", q.args, q.code, broken, q.stdout), src)
		}
		if i%9 == 0 {
			r.Sample(map[string]any{"packages": all, "broken": broken, "errors": rep.Errors})
		}
	})
}
