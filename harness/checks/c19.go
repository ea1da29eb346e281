package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/harness/vh"
)

// srcFile is a file with the conditions under which it belongs to a scan.
type srcFile struct {
	pkg, name, text string
	goFile          bool            // a Go file at all
	when            func(tags) bool // build constraint
	test, generated bool
	lined           bool     // with a line directive
	dep             string   // tag on which the size of a value from another package depends
	rules           []string // findings expected in it
}

type tags map[string]bool

// bexpr is a build constraint with its meaning.
func bexpr(rng *rand.Rand, depth int) (string, func(tags) bool) {
	if depth == 0 || rng.Intn(3) == 0 {
		switch rng.Intn(8) {
		case 0:
			return "linux", func(tags) bool { return true }
		case 1:
			return "windows", func(tags) bool { return false }
		case 2:
			return "go1.18", func(tags) bool { return true }
		case 3:
			return "ignore", func(t tags) bool { return t["ignore"] }
		default:
			x := vh.Pick(rng, "alpha", "beta", "gamma")
			return x, func(t tags) bool { return t[x] }
		}
	}
	a, fa := bexpr(rng, depth-1)
	b, fb := bexpr(rng, depth-1)
	switch rng.Intn(4) {
	case 0:
		return "!(" + a + ")", func(t tags) bool { return !fa(t) }
	case 1:
		return "(" + a + " || " + b + ")", func(t tags) bool { return fa(t) || fb(t) }
	default:
		return "(" + a + " && " + b + ")", func(t tags) bool { return fa(t) && fb(t) }
	}
}

var findingLines = []struct{ rule, imp, expr string }{
	{"G401", "crypto/md5", "md5.New()"}, {"G404", "math/rand", "rand.Int()"}, {"G103", "unsafe", "unsafe.Pointer(nil)"},
	{"G401", "crypto/sha1", "sha1.New()"},
	{"G405", "crypto/rc4", "func() any { c, err := rc4.NewCipher(nil); return []any{c, err} }()"},
	{"G115", "os", "int8(os.Getpid())"}, // found by the SSA analyzers only in functions
}

var importRules = map[string]string{"crypto/md5": "G501", "crypto/sha1": "G505", "crypto/rc4": "G503"}

var generatedHeads = []struct {
	text string
	gen  bool
}{
	{"// Code generated by tool. DO NOT EDIT.\n\n", true},
	{"// Code generated by protoc-gen-go v1. DO NOT EDIT.\n// source: a.proto\n\n", true},
	{"// Copyright\n\n// Code generated from x DO NOT EDIT.\n\n", true},
	{"/* licence */\n\n// Code generated . DO NOT EDIT.\n", true},
	{"// Code generated by tool.\n\n", false},
	{"// Code generated by tool. DO NOT EDIT\n\n", false},
	{"// code generated by tool. DO NOT EDIT.\n\n", false},
	{"/* Code generated by tool. DO NOT EDIT. */\n\n", false},
	{"// This is Code generated by tool. DO NOT EDIT.\n\n", false},
}

// randSrcFile makes one file of the package.
func randSrcFile(rng *rand.Rand, pkg string, n int, tests string) srcFile {
	f := srcFile{pkg: pkg, goFile: true, when: func(tags) bool { return true }}
	head := ""
	name := fmt.Sprintf("f%d", n)
	clause := pkg
	kind := rng.Intn(12)
	if tests != "" && n > 1 && rng.Intn(2) == 0 {
		kind = 4
	}
	switch kind {
	case 0, 1:
		var x string
		x, f.when = bexpr(rng, 2)
		head += "//go:build " + x + "\n\n"
	case 2:
		name += "_linux"
	case 3:
		name += vh.Pick(rng, "_windows", "_darwin", "_js_wasm", "_linux_arm")
		f.when = func(tags) bool { return false }
	case 4, 5:
		name += "_test"
		f.test = true
		if tests == "outside" || tests == "" && rng.Intn(3) == 0 {
			clause += "_test"
		}
	case 6:
		x, w := bexpr(rng, 1)
		head += "//go:build " + x + "\n\n"
		f.when = w
		name += "_test"
		f.test = true
	case 7:
		name = vh.Pick(rng, "_", ".") + name
		f.goFile = false
	case 8:
		name += vh.Pick(rng, ".txt", ".go.bak", ".gox")
		f.goFile = false
	}
	if rng.Intn(3) == 0 {
		g := vh.PickS(rng, generatedHeads)
		head += g.text
		f.generated = g.gen
	}
	if strings.Contains(name, ".go") || strings.HasSuffix(name, ".txt") {
		f.name = name
	} else {
		f.name = name + ".go"
	}
	var sb strings.Builder
	sb.WriteString(head)
	if f.generated && rng.Intn(3) == 0 {
		// the positions of a generated file may be those of its source
		fmt.Fprintf(&sb, "//line src%d.y:%d\n\n", n, 1+rng.Intn(20))
		f.lined = true
	}
	fmt.Fprintf(&sb, "package %s\n\n", clause)
	used := map[string]bool{}
	var body strings.Builder
	for k := 1 + rng.Intn(3); k > 0; k-- {
		l := vh.PickS(rng, findingLines)
		if !used[l.imp] {
			used[l.imp] = true
			fmt.Fprintf(&sb, "import %q\n", l.imp)
			if g := importRules[l.imp]; g != "" {
				f.rules = append(f.rules, g)
			}
		}
		fmt.Fprintf(&body, "\nfunc F%d_%d() any {\n\treturn %s\n}\n", n, k, l.expr)
		f.rules = append(f.rules, l.rule)
	}
	if rng.Intn(3) == 0 {
		f.dep = vh.Pick(rng, "alpha", "beta", "gamma")
		fmt.Fprintf(&sb, "import \"example.com/m/dep\"\n")
		fmt.Fprintf(&body, "\nfunc D%d() int8 {\n\treturn int8(dep.%s())\n}\n", n, strings.ToUpper(f.dep))
	}
	// rc4 users are reported for the call
	f.text = sb.String() + body.String()
	if rng.Intn(4) == 0 {
		f.text = strings.TrimSuffix(f.text, "\n")
	}
	return f
}

func lineCount(t string) int {
	n := strings.Count(t, "\n")
	if !strings.HasSuffix(t, "\n") {
		n++
	}
	return n
}

// selection is a module of packages whose files belong to a scan or not, with
// the options of the scan.
type selection struct {
	dir          string
	files        map[string]string
	all          []srcFile
	args         []string // packages
	opts         []string
	tags         tags
	tests, exgen bool
}

func newSelection(r *vh.Run, rng *rand.Rand) *selection {
	dir := env(r).Dir()
	files := map[string]string{}
	var all []srcFile
	np := 1 + rng.Intn(4)
	var args []string
	for k := 0; k < np; k++ {
		pkg := fmt.Sprintf("pk%d", k)
		// packages may have mostly tests, all within or all outside them
		tests := vh.Pick(rng, "", "", "within", "outside")
		for n := 1 + rng.Intn(7); n > 0; n-- {
			f := randSrcFile(rng, pkg, n, tests)
			all = append(all, f)
			files[pkg+"/"+f.name] = f.text
		}
		if rng.Intn(3) == 0 {
			// not part of the package
			files[pkg+"/testdata/t.go"] = "package t\n\nimport \"crypto/md5\"\n\nvar X = md5.New()\n"
			files[pkg+"/inner/t.go"] = "package inner\n\nimport \"crypto/md5\"\n\nvar X = md5.New()\n"
		}
		args = append(args, "./"+pkg)
	}
	// a package which is not scanned and depends on the tags
	for _, x := range []string{"alpha", "beta", "gamma"} {
		fn := fmt.Sprintf("package dep\n\nfunc %s() ", strings.ToUpper(x))
		files["dep/"+x+"with.go"] = "//go:build " + x + "\n\n" + fn + "int64 { return 1 }\n"
		files["dep/"+x+"without.go"] = "//go:build !" + x + "\n\n" + fn + "int8 { return 1 }\n"
	}
	writeModule(r, dir, files)
	tg := tags{}
	var given []string
	for _, x := range []string{"alpha", "beta", "gamma", "ignore"} {
		if rng.Intn(5) < 2 {
			tg[x] = true
			given = append(given, x)
		}
	}
	for k := range all {
		if all[k].dep != "" && tg[all[k].dep] {
			all[k].rules = append(all[k].rules, "G115")
		}
	}
	if rng.Intn(4) == 0 {
		given = append(given, "unused")
	}
	rng.Shuffle(len(given), func(a, b int) { given[a], given[b] = given[b], given[a] })
	tests, exgen := rng.Intn(2) == 0, rng.Intn(2) == 0
	opts := []string{"-fmt=json", fmt.Sprintf("-concurrency=%d", 1+rng.Intn(4))}
	if len(given) > 0 {
		opts = append(opts, "-tags="+strings.Join(given, ","))
	}
	if tests {
		opts = append(opts, "-tests")
	}
	if exgen {
		opts = append(opts, "-exclude-generated")
	}
	return &selection{dir, files, all, args, opts, tg, tests, exgen}
}

func init() {
	All["C19"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("modules of several packages whose files carry random build constraints, name suffixes, test suffixes, generated headers (and near misses), ignored names, nested testdata; the command runs with random tags, -tests, -exclude-generated on all packages in random order; findings per file, files and lines must be those of the model of file selection; non-trivial: the options drop some file")
		r.Assume("files that use cgo are outside (the code skips their expansions on purpose)", "GOOS=linux GOARCH=amd64")
		r.Parallel(r.N(90, 700), func(i int, rng *rand.Rand) {
			m := newSelection(r, rng)
			dir, files, all, args, opts, tg, tests, exgen := m.dir, m.files, m.all, m.args, m.opts, m.tags, m.tests, m.exgen
			rng.Shuffle(len(args), func(a, b int) { args[a], args[b] = args[b], args[a] })
			var want []string
			nf, nl, dropped := 0, 0, 0
			for _, f := range all {
				if !f.goFile || !f.when(tg) || (f.test && !tests) || (f.generated && exgen) {
					dropped++
					continue
				}
				nf++
				nl += lineCount(f.text)
				for _, g := range f.rules {
					want = append(want, f.pkg+"/"+f.name+" "+g)
				}
			}
			o := runCLI(r, dir, append(opts, args...)...)
			rep := o.json(r)
			var got []string
			for _, is := range rep.Issues {
				rel, err := filepath.Rel(dir, is.File)
				if err != nil {
					rel = is.File
				}
				got = append(got, rel+" "+is.RuleID)
			}
			sort.Strings(want)
			sort.Strings(got)
			key := fmt.Sprint(i, opts)
			r.Eval("selection", key, dropped > 0 && nf > 0)
			r.Count("files scanned", int64(nf))
			r.Count("files dropped", int64(dropped))
			if i%17 == 0 {
				r.Sample(map[string]any{"options": opts, "files": nf, "dropped": dropped})
			}
			fm := map[string]string{"args": fmt.Sprint(opts, args), "report": o.stdout, "stderr": o.stderr}
			for n, t := range files {
				fm[n] = t
			}
			if len(rep.Errors) > 0 {
				r.Violation("errors", fmt.Sprintf("gosec %v %v\nerrors for well-formed files: %v", opts, args, rep.Errors), fm)
				return
			}
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
				r.Violation("selection", fmt.Sprintf("gosec %v %v\nmissing: %v\nextra: %v", opts, args, m, e), fm)
			}
			if rep.Stats.Files != nf || rep.Stats.Lines != nl {
				r.Violation("metrics", fmt.Sprintf("gosec %v %v\nfiles %d instead of %d, lines %d instead of %d", opts, args, rep.Stats.Files, nf, rep.Stats.Lines, nl), fm)
			}
		})
		r.Need("selection", 50)
	}
}
