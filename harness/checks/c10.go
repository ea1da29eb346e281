package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// tval is a string operand of known status.
type tval struct {
	pre     string // declarations it needs
	x       string
	tainted bool // its declaration does not resolve to constants
	param   bool // a parameter or result used directly
	pkgvar  bool
	isConst bool // a literal or a constant
}

func tvar(rng *rand.Rand, n string, depth int) tval {
	if rng.Intn(8) == 0 {
		return vh.Pick(rng, tval{x: "gconst", pkgvar: true}, tval{x: "gvar", pkgvar: true, tainted: true}, tval{x: "gzero", pkgvar: true, tainted: true}, tval{x: "gcat", pkgvar: true})
	}
	if rng.Intn(4) == 0 {
		return vh.Pick(rng, tval{x: "pa", param: true, tainted: true}, tval{x: "pb", param: true, tainted: true}, tval{x: "res", param: true, tainted: true})
	}
	if depth > 0 && rng.Intn(3) == 0 {
		y := tvar(rng, n+"y", depth-1)
		d := vh.Pick(rng, "%s := %s", "var %s = %s", "var %s string = %s", "%s := \"/a\" + %s", "%s := %s + cname")
		return tval{pre: y.pre + fmt.Sprintf(d, n, y.x) + "\nuse(" + n + ")\n", x: n, tainted: y.tainted}
	}
	if rng.Intn(2) == 0 {
		d := vh.Pick(rng, "%s := `lit`", "var %s = \"lit\"", "var %s string = \"lit\"", "%s := cname", "%s := \"a\" + `b` + cname", "%s := (\"a\" + cname)", "%s := $os.DevNull + \"x\"", "%s := string(cname)", "var %s = lname + \"x\"", "%s, %so := \"a\", cname\nuse(%so)", "var %s, %so = \"a\", \"b\"\nuse(%so)")
		return tval{pre: strings.ReplaceAll(d, "%s", n) + "\nuse(" + n + ")\n", x: n}
	}
	d := vh.Pick(rng, "%s := $os.Args[1]", "%s := str()", "%s := $os.Getenv(\"A\")", "var %s = str()", "var %s string", "%s, _ := two()", "%s := \"a\" + str()", "%s := st1.name",
		"%s := <-make(chan string)", "%s := *ptr", "%s := arr[0]", "%s := \"abc\"[1:]", "%s := $strings.ToUpper(\"a\")", "%s := string(bs)", "%s := func() string { return `a` }()", "%s, ok%s := mp[`a`]\nuse(ok%s)", "var %so, %s = \"a\", str()\nuse(%so)", "%s, %so := str(), `a`\nuse(%so)", "%so, %s := cname, $os.Getenv(\"B\")\nuse(%so)", "var %s, %so = str(), \"b\"\nuse(%so)", "%s := any(`a`).(string)")
	return tval{pre: strings.ReplaceAll(d, "%s", n) + "\nuse(" + n + ")\n", x: n, tainted: true}
}

func tconst(rng *rand.Rand) tval {
	return tval{x: vh.Pick(rng, "\"ls\"", "`/bin/x`", "cname", "lname", "\"\"", "(cname)", "(\"a\" + `b`)", "string(lname)", "$http.MethodPost", "$os.DevNull"), isConst: true}
}

func init() {
	All["C10"] = func(r *vh.Run) {
		r.Rule("random calls of every listed command, file and HTTP function, in plain and aliased imports, whose arguments are literals, constants, variables of known origin (constant or unresolvable: call result, environment, field, element, parameter, range variable, multi-value), concatenations, joins and cleaned paths; oracle: which arguments can be resolved to constants by construction; non-trivial: distinct (call, argument construction)")
		r.Parallel(r.N(4500, 30000), func(i int, rng *rand.Rand) {
			f := vh.NewFile(rng, "p", "A")
			f.Twice = rng.Intn(4) == 0
			for k := 0; k < longer(i, 12); k++ {
				u := f.Uniq("v")
				kind := rng.Intn(3)
				var pre, call string
				bad, multi := false, false
				rule := ""
				switch kind {
				case 0: // commands
					rule = "G204"
					fn := vh.Pick(rng, "$exec.Command", "$exec.CommandContext", "$execabs.Command", "$execabs.CommandContext", "$syscall.Exec", "$syscall.ForkExec", "$syscall.StartProcess")
					n := 1 + rng.Intn(3)
					lowlevel := strings.HasPrefix(fn, "$syscall")
					if lowlevel {
						n = 1
					}
					var args []string
					if strings.HasSuffix(fn, "Context") {
						args = append(args, vh.Pick(rng, "$context.Background()", "ctx", "$context.TODO()", "$context.WithValue(ctx, 1, str())", "gctx"))
					}
					arg := func(j int, inLit bool) string {
						v := tvar(rng, fmt.Sprintf("%s_%d", u, j), 2)
						switch rng.Intn(6) {
						case 0, 1:
							return tconst(rng).x
						case 2, 3:
							pre += v.pre
							bad = bad || (v.tainted && (inLit || !v.param))
							return v.x
						case 4:
							pre += v.pre
							bad = bad || v.tainted
							return vh.Pick(rng, "\"a\" + ", "cname + \"b\" + ", "") + v.x + " + " + tconst(rng).x
						default:
							if rng.Intn(2) == 0 {
								bad = true
								return vh.Pick(rng, "$os.Args[1]", "str()", "$os.Getenv(\"A\")", "st1.name", "$strings.ToUpper(\"x\")", "\"a\" + str()", "arr[1]", "\"x\" + $os.Args[2] + \"y\"")
							}
							return vh.Pick(rng, "\"a\" + \"b\"", "cname + `x`", "lname + cname + \"b\"")
						}
					}
					for j := 0; j < n; j++ {
						args = append(args, arg(j, false))
					}
					if lowlevel {
						args = append(args, "[]string{"+arg(7, true)+", "+arg(8, true)+"}", "nil")
						switch {
						case strings.HasSuffix(fn, ".Exec"):
							pre += "\n"
						case strings.HasSuffix(fn, ".ForkExec"):
							multi = true
						default:
							multi = true
						}
					}
					call = fn + "(" + strings.Join(args, ", ") + ")"
					if strings.HasSuffix(fn, ".StartProcess") {
						call = "_, _, " + u + "e := " + call + "%M\nuse(" + u + "e)"
					} else if multi {
						call = "_, " + u + "e := " + call + "%M\nuse(" + u + "e)"
					} else if rng.Intn(3) == 0 && !lowlevel {
						call = vh.Pick(rng, "_ = "+call+".Run()%M", "if e := "+call+".Start(); e != nil {%M\n\tuse(e)\n}", "use(1, "+call+")%M")
					} else {
						call = "use(" + call + ")%M"
					}
				case 1: // files
					rule = "G304"
					fn := vh.Pick(rng, "$os.Open", "$os.ReadFile", "$ioutil.ReadFile", "$os.OpenFile", "$os.Create")
					v := tvar(rng, u+"p", 2)
					var arg string
					how := rng.Intn(9)
					if how > 5 && v.pkgvar {
						// cleaning it would hold for the rest of the file
						v.pre = u + "l := " + v.x + "\nuse(" + u + "l)\n"
						v.x = u + "l"
					}
					switch how {
					case 0:
						arg = tconst(rng).x
					case 1, 2:
						pre, arg, bad = v.pre, v.x, v.tainted
					case 3:
						pre, bad = v.pre, v.tainted
						arg = vh.Pick(rng, "\"/tmp/\" + "+v.x, v.x+" + \"/blob\"", "\"/a/\" + "+v.x+" + `/b`", "cname + "+v.x+" + \"b\" + lname", "\"/\" + cname + "+v.x)
					case 4: // joined
						w := tvar(rng, u+"w", 1)
						pre, bad = v.pre+w.pre, v.tainted || w.tainted
						arg = vh.Pick(rng, "$filepath.Join", "$path.Join") + "(" + vh.Pick(rng, "\"/var\", "+v.x+", "+w.x, v.x+", cname, "+w.x, w.x+", \"/b/\" + "+v.x, "\"/\" + "+w.x+" + `a`, "+v.x) + ")"
					case 5:
						arg = vh.Pick(rng, "$filepath.Join(\"/a\", `b`)", "$path.Join(\"/a\", cname, lname)", "$filepath.Join(\"/a\" + cname, \"b\")")
					case 6: // cleaned
						pre = v.pre
						arg = "$filepath.Clean(" + v.x + ")"
					case 7:
						pre = v.pre
						pre += vh.Pick(rng, v.x+" = $filepath.Clean("+v.x+")", "use($filepath.Clean("+v.x+"))", "_, "+u+"e := $filepath.EvalSymlinks("+v.x+")\nuse("+u+"e)") + "\n"
						arg = v.x
					case 8: // the cleaned result, its neighbours stay as they are
						pre = v.pre
						switch rng.Intn(5) {
						case 0:
							pre += u + "c := $filepath.Clean(" + v.x + ")\n"
							arg = u + "c"
						case 1:
							pre += u + "c, " + u + "e := $filepath.Rel(\"/a\", " + v.x + ")\nuse(" + u + "e)\n"
							arg = u + "c"
						case 2:
							pre += u + "c, " + u + "d := $filepath.Clean(" + v.x + "), str()\nuse(" + u + "c)\n"
							arg, bad = u+"d", true
						case 3:
							pre += u + "d, " + u + "c := str(), $filepath.Clean(" + v.x + ")\nuse(" + u + "d)\n"
							arg = u + "c"
						case 4:
							pre += u + "d, " + u + "c := str(), str()\n" + u + "c = $filepath.Clean(" + u + "c)\nuse(" + u + "c)\n"
							arg, bad = u+"d", true
						}
					}
					if fn == "$os.OpenFile" {
						arg += vh.Pick(rng, ", $os.O_RDONLY, 0600", ", 0, 0o600", ", $os.O_RDWR|$os.O_CREATE, 0")
					}
					call = "_, " + u + "x := " + fn + "(" + arg + ")%M\nuse(" + u + "x)"
					if rng.Intn(3) == 0 {
						call = "if f, err := " + fn + "(" + arg + "); err == nil {%M\n\tuse(f)\n}"
					}
				case 2: // requests
					rule = "G107"
					fn, rest := vh.Pick(rng, "Get", "Head", "Post", "PostForm"), ""
					switch fn {
					case "Post":
						rest = ", " + vh.Pick(rng, "\"text/plain\"", "str()", "pa") + ", nil"
					case "PostForm":
						rest = ", nil"
					}
					v := tvar(rng, u+"u", 2)
					arg := v.x
					pre = v.pre
					bad = v.tainted || v.pkgvar
					switch rng.Intn(5) {
					case 0:
						arg, bad = tconst(rng).x, false
					case 1: // a local variable named like a package object
						nm := vh.Pick(rng, "gconst", "gcat", "fake", "lookalike", "two")
						if rng.Intn(2) == 0 {
							pre, bad = nm+" := \"http://a\"\n", false
						} else {
							pre, bad = nm+" := $os.Getenv(\"B\")\n", true
						}
						arg = nm
					}
					call = "_, " + u + "x := $http." + fn + "(" + arg + rest + ")%M\nuse(" + u + "x)"
				}
				mark := ""
				if bad {
					mark = " //~ " + rule
				}
				body := pre + strings.Replace(call, "%M", mark, 1)
				if pre != "" && rng.Intn(5) == 0 {
					body = "{\n" + body + "\n}"
				}
				head := "const lname = `l`\narr, bs, ptr, mp := []string{`a`, `b`}, []byte{1}, new(string), map[string]string{}\nvar st1 st\nctx := $context.Background()\nuse(arr, bs, ptr, mp, st1, ctx, lname)\n"
				c := vh.Pick(rng, "func(pa, pb string) (res string) {\n%%\nreturn\n}", "func(pa string, pb string) (res string) {\n%%\nreturn res\n}", "func(pa, pb string, _ int) (res string, err error) {\n%%\nreturn\n}")
				f.Wrap("use("+strings.Replace(c, "%%", head+body, 1)+")", rng.Intn(2))
				r.Eval(rule, pre+call, true)
			}
			shared := "type st struct{ name string }\n\nconst cname = `tbl`\n\nvar gconst = \"http://x\"\n\nvar gvar, gzero = str(), \"\"[0:]\n\nvar gcat = \"a\" + cname\n\nvar gctx $context.Context\n\nfunc str() string { return `x` }\n\nfunc two() (string, error) { return ``, nil }"
			files := []vh.Src{{Name: "f0.go"}}
			if rng.Intn(3) == 0 { // declared in another file of the package
				g := vh.NewFile(rng, "p", "B")
				g.Decl(shared)
				files = append(files, vh.Src{Name: vh.Pick(rng, "f1.go", "a.go"), Text: g.Text()})
			} else {
				f.Decl(shared)
			}
			f.Decl("type fake struct{}\n\nfunc (fake) Command(a ...string) string { return `` }\n\nfunc (fake) Open(a string) string { return `` }\n\nfunc (fake) Get(a string) string { return `` }\n\nfunc Command(a ...string) string { return `` }\n\nfunc Open(a string) string { return `` }\n\nfunc Get(a string) string { return `` }\n\nfunc lookalike(p string) {\n\tvar exec, os, http fake\n\tuse(exec.Command(str(), p), os.Open(p), http.Get(p), Command(p, str()), Open(p), Get(gvar))\n}")
			f.Decl(vh.Helpers)
			files[0].Text = f.Text()
			if i%200 == 11 {
				r.Sample(map[string]any{"expected": vh.Expected(files, nil), "program": files[0].Text})
			}
			markCheck(r, "taint", "taint", files, vh.Set("G107", "G204", "G304"), vh.Opts{NoAnalyzers: true, Include: []string{"G107", "G204", "G304"}})
		})
		r.Need("findings observed", 3000)
	}
}
