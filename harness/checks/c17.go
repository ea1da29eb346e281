package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/vh"
)

// project is a module with several packages.
type project struct {
	dir  string
	pkgs []string // ./a ...
	src  map[string]string
}

// newProject writes a module of n corpus packages, some of them broken, some
// with suppression comments, some with build tags, tests or generated files.
func newProject(r *vh.Run, rng *rand.Rand, n int, broken bool) *project {
	return newProjectOf(r, rng, n, broken, true)
}

// newProjectOf is newProject, without imports between the packages unless
// linked: those resolve only in a process that runs within the module.
func newProjectOf(r *vh.Run, rng *rand.Rand, n int, broken, linked bool) *project {
	p := &project{dir: env(r).Dir(), src: map[string]string{}}
	var shared string
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("pk%c", 'a'+i)
		d := name
		if rng.Intn(4) == 0 {
			d = "sub/" + name
		}
		files := corpusPkg(rng, name, 2+rng.Intn(5), 1+rng.Intn(3), 1)
		shiftLines(rng, files)
		for k, f := range files {
			t := f.Text
			if rng.Intn(3) == 0 {
				t, _, _ = sprinkle(rng, t, nil, "#nosec", 3)
			}
			if k == 0 && linked && shared != "" && rng.Intn(3) == 0 {
				// an import between the packages of the module
				t = strings.Replace(t, "package "+name+"\n", "package "+name+"\n\nimport _ \"example.com/m/"+shared+"\"\n", 1)
			}
			p.src[d+"/"+f.Name] = t
		}
		if rng.Intn(3) == 0 {
			p.src[d+"/tagged.go"] = "//go:build special\n\npackage " + name + "\n\nimport \"crypto/md5\"\n\nvar Tagged = md5.New()\n"
		}
		if rng.Intn(4) == 0 {
			p.src[d+"/gen.go"] = "// Code generated by x. DO NOT EDIT.\n\npackage " + name + "\n\nimport \"crypto/sha1\"\n\nvar Generated = sha1.New()\n"
		}
		if broken && i%4 == 3 {
			p.src[d+"/broken.go"] = "package " + name + "\n\nimport \"math/rand\"\n\nvar Bad int = \"x\"\nvar Worse string = rand.Int()\nvar _ = undefined1\n"
		} else {
			shared = d
		}
		p.pkgs = append(p.pkgs, "./"+d)
	}
	writeModule(r, p.dir, p.src)
	return p
}

// unimportable adds n directories which cannot be imported to the project:
// their files belong to different packages, or do not parse.
func (p *project) unimportable(r *vh.Run, rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		d := fmt.Sprintf("un/dir%02d", i)
		p.src[d+"/a.go"] = "package a\n"
		if rng.Intn(4) == 0 {
			p.src[d+"/b.go"] = "package\n"
		} else {
			p.src[d+"/b.go"] = "package b\n"
		}
		// errors of importing are listed under the path as it was given
		p.pkgs = append(p.pkgs, d)
	}
	writeModule(r, p.dir, p.src)
}

// slowGo is a stand-in for the go command that waits at random before it
// runs the real one, which moves the points where packages get loaded.
func slowGo(r *vh.Run) string {
	d := env(r).Dir()
	real := ""
	for _, p := range filepath.SplitList(os.Getenv("PATH")) {
		if _, err := os.Stat(filepath.Join(p, "go")); err == nil {
			real = filepath.Join(p, "go")
			break
		}
	}
	sh := "#!/bin/bash\nsleep 0.0$((RANDOM % 10))\nexec " + real + " \"$@\"\n"
	if err := os.WriteFile(filepath.Join(d, "go"), []byte(sh), 0o755); err != nil {
		r.Inconclusive("%v", err)
	}
	return "PATH=" + d + ":" + os.Getenv("PATH")
}

var raceRe = regexp.MustCompile(`WARNING: DATA RACE`)

func init() {
	All["C17"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("modules of 5-10 corpus packages (some ill-typed, suppressed, tagged); the command runs with random concurrency, GOMAXPROCS, package order (explicit or ./...), random delays of the go command it calls, with and without the race detector; every JSON report must equal that of a sequential run byte for byte, all other formats those of a repetition; -sort=false must give the same set; non-trivial: the run differs from the reference in schedule or order")
		r.Assume("the race detector sees only the interleavings that occurred in these runs")
		slow := slowGo(r)
		np := r.N(3, 10)
		nv := r.N(14, 60)
		var ps []*project
		var refs []cliOut
		for i := 0; i < np; i++ {
			ps = append(ps, newProject(r, r.Rng, 5+r.Rng.Intn(5), i%2 == 0))
			if i%2 == 0 {
				ps[i].unimportable(r, r.Rng, 12+r.Rng.Intn(20))
			}
			ref := runCLI(r, ps[i].dir, append([]string{"-fmt=json", "-quiet", "-concurrency=1"}, ps[i].pkgs...)...)
			rep := ref.json(r)
			r.Count("findings in references", int64(len(rep.Issues)))
			r.Count("errors in references", int64(len(rep.Errors)))
			if len(rep.Issues) < 5 {
				r.Inconclusive("reference has %d findings: %s", len(rep.Issues), ref.stderr)
			}
			refs = append(refs, ref)
		}
		formats := []string{"yaml", "csv", "junit-xml", "html", "sonarqube", "golint", "sarif", "text"}
		r.Parallel(np*nv, func(i int, rng *rand.Rand) {
			p, ref := ps[i%np], refs[i%np]
			conc := vh.Pick(rng, 1, 2, 3, 4, 8, 16, 64)
			args := append([]string{}, p.pkgs...)
			rng.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
			rec := rng.Intn(4) == 0
			if rec {
				args = []string{"./..."}
			}
			envv := []string{fmt.Sprintf("GOMAXPROCS=%d", vh.Pick(rng, 1, 2, 4, 8))}
			if rng.Intn(2) == 0 {
				envv = append(envv, slow)
			}
			bin := r.CLI
			race := r.RaceCLI != "" && i/np%3 == 0
			if race {
				bin = r.RaceCLI
			}
			key := fmt.Sprintf("project %d concurrency %d race %v order %v env %v", i%np, conc, race, args, envv[0])
			kind := "schedule"
			if race {
				kind = "race detector"
			}
			r.Eval(kind, key, true)
			if i%11 == 0 {
				r.Sample(key)
			}
			files := func(o cliOut) map[string]string {
				m := map[string]string{"reference.json": ref.stdout, "this.out": o.stdout, "stderr": o.stderr}
				for k, v := range p.src {
					m[k] = v
				}
				return m
			}
			o := runCLIEnv(r, bin, p.dir, envv, append([]string{"-fmt=json", "-quiet", fmt.Sprintf("-concurrency=%d", conc)}, args...)...)
			if raceRe.MatchString(o.stderr) {
				r.Violation("race", "data race: "+key+"\n"+o.stderr, files(o))
				return
			}
			if o.timeout {
				r.Violation("hang", "the run did not end: "+key, files(o))
				return
			}
			if o.stdout != ref.stdout || o.code != ref.code {
				r.Violation("differs/"+fmt.Sprint(i%np), fmt.Sprintf("%s: exit %d instead of %d; %s", key, o.code, ref.code, firstDifference(ref.stdout, o.stdout)), files(o))
			}
			if i/np%4 == 1 {
				u := runCLIEnv(r, r.CLI, p.dir, envv, append([]string{"-fmt=json", "-quiet", "-sort=false", fmt.Sprintf("-concurrency=%d", conc)}, args...)...)
				var a, b []string
				for _, x := range ref.json(r).Issues {
					a = append(a, jsonText(x))
				}
				for _, x := range u.json(r).Issues {
					b = append(b, jsonText(x))
				}
				sort.Strings(a)
				sort.Strings(b)
				if m, e := vh.Diff(a, b); len(m)+len(e) > 0 {
					r.Violation("unsorted", fmt.Sprintf("%s: missing %v extra %v", key, m, e), files(u))
				}
			}
			if i/np < len(formats) {
				f := formats[i/np]
				a := runCLIEnv(r, r.CLI, p.dir, envv, append([]string{"-fmt=" + f, "-quiet", "-concurrency=1"}, p.pkgs...)...)
				b := runCLIEnv(r, r.CLI, p.dir, envv, append([]string{"-fmt=" + f, "-quiet", fmt.Sprintf("-concurrency=%d", conc)}, p.pkgs...)...)
				r.Eval("format "+f, key, true)
				if x, y := stripTimes(a.stdout), stripTimes(b.stdout); x != y {
					r.Violation("format/"+f, key+": "+firstDifference(x, y), map[string]string{"a": a.stdout, "b": b.stdout})
				}
			}
		})
	}
}

var timeRe = regexp.MustCompile(`\d{4}[-/]\d\d[-/]\d\d[T ]\d\d:\d\d:\d\d[^"<\s]*`)

func stripTimes(s string) string { return timeRe.ReplaceAllString(s, "TIME") }

// firstDifference shows where two texts part.
func firstDifference(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("first difference in line %d:\n- %s\n+ %s", i+1, p, q)
		}
	}
	return "no difference"
}
