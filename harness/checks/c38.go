package checks

import (
	"fmt"
	"math/rand"
	"os"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

func init() {
	All["C38"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages with findings of all rules, the repository's sample programs, programs of the monitors of the rules, and findings of every kind in nested closures, literals of package variables, methods and instantiated generics, alone and several in one scan, with tracked suppressions, ignored findings shown, audit mode and repeated rule lists; modules with internal and external test packages scanned by the command with -tests and overlapping arguments; no two findings agree in file, lines, column, rule and message; non-trivial: there are findings")
		type source struct {
			sampleProgram
			kind string
		}
		var src []source
		for k := 0; k < r.N(1, 12); k++ {
			for _, s := range samplePrograms() {
				src = append(src, source{s, "sample programs"})
			}
		}
		for _, p := range generatedPrograms(r, r.N(80, 1000)) {
			src = append(src, source{p, "programs of rule monitors"})
		}
		for i := 0; i < r.N(400, 8000); i++ {
			src = append(src, source{sampleProgram{name: "corpus"}, "corpus"})
		}
		for i := 0; i < r.N(60, 1500); i++ {
			src = append(src, source{sampleProgram{name: "places"}, "places"})
		}
		place := func(is *issue.Issue) string {
			return fmt.Sprintf("%s:%s:%s %s %q", is.File, is.Line, is.Col, is.RuleID, is.What)
		}
		r.Parallel(len(src), func(i int, rng *rand.Rand) {
			kind := src[i].kind
			one := func(j int) (files []vh.Src) {
				if kind == "places" {
					files = []vh.Src{{Name: "f0.go", Text: placesProgram(rng)}}
				} else if kind == "corpus" {
					files = corpusPkg(rng, "p", 2+rng.Intn(9), 1+rng.Intn(3), rng.Intn(2))
				} else {
					files = src[j].files
				}
				if rng.Intn(3) == 0 {
					// some of it suppressed
					for k := range files {
						ls := strings.Split(files[k].Text, "\n")
						for n := range ls {
							if t := strings.TrimSpace(ls[n]); strings.HasPrefix(t, "use(") && !strings.Contains(t, "`") && strings.HasSuffix(t, ")") && rng.Intn(3) == 0 {
								ls[n] += vh.Pick(rng, " // #nosec", " // #nosec G401 G404 -- x", " //gosec:disable G401")
							}
						}
						files[k].Text = strings.Join(ls, "\n")
					}
				}
				return files
			}
			var pkgs []*vh.Loaded
			n := vh.Pick(rng, 1, 1, 1, 3)
			text := ""
			srcs := map[string]string{}
			for k := 0; k < n; k++ {
				j := i
				if k > 0 {
					j = rng.Intn(len(src))
					if src[j].kind != "sample programs" && src[j].kind != "programs of rule monitors" {
						continue
					}
				}
				files := append([]vh.Src{}, one(j)...)
				ld, err := env(r).Load(files, nil)
				if err != nil || len(ld.TypeErr) > 0 {
					continue
				}
				defer ld.Remove()
				pkgs = append(pkgs, ld)
				for _, f := range files {
					text += f.Text
					srcs[fmt.Sprintf("p%d_%s", k, f.Name)] = f.Text
				}
			}
			o := vh.Opts{Track: rng.Intn(2) == 0, Conf: gosec.NewConfig()}
			for k, v := range src[i].conf {
				o.Conf[k] = v
			}
			if _, ok := o.Conf["global"]; !ok {
				o.Conf["global"] = map[gosec.GlobalOption]string{}
			}
			for _, g := range []gosec.GlobalOption{gosec.Audit, gosec.ShowIgnored, gosec.Nosec} {
				if rng.Intn(4) == 0 {
					o.Conf.SetGlobal(g, "true")
				}
			}
			if rng.Intn(4) == 0 {
				o.Include = append(append([]string{}, ruleIDs...), ruleIDs[:rng.Intn(len(ruleIDs))]...)
			}
			res := vh.Scan(o, pkgs...)
			seen := map[string]int{}
			for _, is := range res.Issues {
				seen[place(is)]++
			}
			r.Eval(kind, text, len(seen) > 0)
			r.Count("findings", int64(len(res.Issues)))
			if kind == "places" && len(seen) > 0 {
				r.Count("places with findings", 1)
			}
			for k, c := range seen {
				if c > 1 {
					r.Violation("twice/"+strings.Fields(k)[1], fmt.Sprintf("%s (options %+v): reported %d times: %s", kind, o, c, k), srcs)
				}
			}
			if res.Panic != "" {
				r.Violation("panic", res.Panic, srcs)
			}
			if i%197 == 5 {
				r.Sample(map[string]any{"kind": kind, "packages": len(pkgs), "findings": len(res.Issues)})
			}
		})
		// whole modules
		r.Parallel(r.N(6, 40), func(i int, rng *rand.Rand) {
			dir := env(r).Dir()
			defer os.RemoveAll(dir)
			files := map[string]string{"go.mod": "module example.com/m\n\ngo 1.21\n"}
			for _, p := range []string{"", "a/", "a/b/"} {
				bad := "\t_ = md5.New()\n\t_ = os.Mkdir(\"a\", 0o777)\n\t_ = rand.Int()\n\tvar x int64 = int64(len(os.Args))\n\t_ = int8(x)\n\tos.Remove(\"x\")\n}\n"
				imp := "import (\n\t\"crypto/md5\"\n\t\"math/rand\"\n\t\"os\"\n)\n\n"
				files[p+"x.go"] = "package x\n\n" + imp + "func F() {\n" + bad
				if rng.Intn(3) > 0 {
					files[p+"x_test.go"] = "package x\n\n" + imp + "func g() {\n" + bad + "\nvar _ = g\n"
				}
				if rng.Intn(3) > 0 {
					files[p+"y_test.go"] = "package x_test\n\n" + imp + "func g() {\n" + bad + "\nvar _ = g\n"
				}
			}
			writeModule(r, dir, files)
			args := []string{"-fmt=json", "-quiet", "-no-fail"}
			if rng.Intn(3) > 0 {
				args = append(args, "-tests")
			}
			if rng.Intn(3) == 0 {
				args = append(args, "-track-suppressions")
			}
			args = append(args, "-concurrency="+vh.Pick(rng, "1", "3", "8"))
			var pats []string
			for n := 1 + rng.Intn(4); n > 0; n-- {
				pats = append(pats, vh.Pick(rng, "./...", ".", "./a", "./a/...", "a/b", "./a/b/", dir+"/a", dir+"/...", "a/../a"))
			}
			seen := map[string]int{}
			rep := runCLI(r, dir, append(args, pats...)...).json(r)
			for _, is := range rep.Issues {
				seen[fmt.Sprintf("%s:%s:%s %s %q", is.File, is.Line, is.Column, is.RuleID, is.Details)]++
			}
			r.Eval("modules", fmt.Sprint(args, pats, sortedKeys(files)), len(seen) > 0)
			r.Count("findings in modules", int64(len(rep.Issues)))
			for k, c := range seen {
				if c > 1 {
					r.Violation("twice/module", fmt.Sprintf("gosec %v %v: reported %d times: %s", args, pats, c, k), files)
				}
			}
		})
		r.Need("places with findings", 20)
		r.Need("findings", 10000)
		r.Need("findings in modules", 50)
	}
}

// placesProgram has statements of every kind of rule in every place a statement can be: closures in closures to any
// depth, function literals of package variables, methods, instantiated generics, deferred and concurrent calls.
func placesProgram(rng *rand.Rand) string {
	stmts := func() string {
		return strings.Join([]string{
			"{ b := make([]byte, 3); use(b[7]); use(b[:9]) }",
			"{ x := int64(len(os.Args)); use(int8(x)); use(uint16(x)) }",
			"{ c, _ := aes.NewCipher(make([]byte, 16)); g, _ := cipher.NewGCM(c); use(g.Seal(nil, []byte(\"0123456789ab\"), nil, nil)) }",
			"{ use(md5.New()) }",
			"{ os.Remove(\"x\") }",
			"{ use(exec.Command(os.Args[0])) }",
			"{ password := \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"; use(password) }",
		}[rng.Intn(7):], "\n")
	}
	fill := func(d int) string {
		t := "%s"
		for ; d > 0; d-- {
			w := vh.Pick(rng, "func() {\n%s\n}()", "f := func() {\n%s\n}\nf()\nuse(f)", "defer func() {\n%s\n}()", "go func() {\n%s\n}()",
				"for i := range os.Args {\nuse(i)\n%s\n}", "if len(os.Args) > 2 {\n%s\n}", "use(func() {\n%s\n})", "switch len(os.Args) {\ncase 1, 2:\n%s\n}", "select {\ndefault:\n%s\n}")
			if rng.Intn(3) == 0 {
				w = stmts() + "\n" + w
			}
			t = strings.Replace(t, "%s", w, 1)
		}
		return strings.Replace(t, "%s", stmts(), 1)
	}
	var b strings.Builder
	b.WriteString("package p\n\nimport (\n\"crypto/aes\"\n\"crypto/cipher\"\n\"crypto/md5\"\n\"os\"\n\"os/exec\"\n)\n\nfunc use(a ...any) bool { return true }\n\ntype T struct{ f func() }\ntype G[E any] struct{ e E }\n\nvar _ = aes.BlockSize\nvar _ cipher.Block\nvar _ = md5.Size\nvar _ exec.Cmd\nvar _ os.File\n")
	for n := 3 + rng.Intn(4); n > 0; n-- {
		body := fill(rng.Intn(6))
		fmt.Fprintf(&b, "\n"+vh.Pick(rng,
			"func f%[1]d() {\n%[2]s\n}\n",
			"func (t *T) m%[1]d() {\n%[2]s\n}\n",
			"func (t T) v%[1]d() {\n%[2]s\n}\nvar _ = T.v%[1]d\nvar _ = T{}.v%[1]d\n",
			"func g%[1]d[E any](e E) {\n%[2]s\n}\nvar _ = use(g%[1]d[int], g%[1]d[string])\n",
			"func (g G[E]) w%[1]d() {\n%[2]s\n}\nvar _ = use(G[int]{}.w%[1]d, G[string]{}.w%[1]d)\n",
			"func init() {\n%[2]s\n}\n",
			"var l%[1]d = func() {\n%[2]s\n}\n",
			"var s%[1]d = T{f: func() {\n%[2]s\n}}\n",
			"var t%[1]d = map[string][]func(){\"a\": {func() {\n%[2]s\n}}}\n",
			"var c%[1]d = use(func() {\n%[2]s\n})\n"), n, body)
	}
	return b.String()
}
