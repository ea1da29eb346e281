package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// treeDir is a directory of a generated tree.
type treeDir struct {
	rel   string // "." is the root
	goDir bool   // holds a Go file
	scan  bool   // holds one that is no test
	files []string
}

var treeNames = []string{"cmd", "mycmd", "cmd2", "cmd-tool", "cm", "rules", "rules_old", "pkg", "gen", "generated", "a", "b", "ab", "vendor", "vendors", "myvendor", "vendor2", ".git", ".github", "x.git", "testdata", "_obj", "internal", "v1.2", "Cmd", "with space", "ünï", "golang", "c++", "g++"}

// goNames are names of Go files which always belong to their package.
var goNames = []string{"f0.go", "f1.go", "x.go", "main.go", "doc.go", "a_b.go", "v1.2.go", "ünï.go", "zz_generated.go", "a-b.go", "test.go", "mytest.go", "linux.go", "Xy.go", "a_testing.go", "go.go", "y_1.go", "Upper.go", "windows.go"}

// tree makes a directory tree and writes it.
func tree(r *vh.Run, rng *rand.Rand, dir string) []treeDir {
	dirs := []treeDir{{rel: "."}}
	seen := map[string]bool{".": true}
	size, deep := 2+rng.Intn(14), 6
	switch rng.Intn(25) {
	case 0:
		size = 100
	case 1:
		size, deep = 40, 20
	}
	for n := size; n > 0; n-- {
		from := dirs
		if deep > 6 {
			from = dirs[max(0, len(dirs)-3):]
		}
		p := filepath.Join(vh.PickS(rng, from).rel, vh.PickS(rng, treeNames))
		if rng.Intn(6) == 0 {
			p = filepath.Join(p, vh.PickS(rng, treeNames))
		}
		if !seen[p] && strings.Count(p, "/") < deep {
			seen[p] = true
			dirs = append(dirs, treeDir{rel: p})
		}
	}
	files := map[string]string{}
	for i := range dirs {
		d := &dirs[i]
		put := func(name, text string) { files[filepath.ToSlash(filepath.Join(d.rel, name))] = text }
		switch rng.Intn(6) {
		case 0:
		case 1:
			put(vh.Pick(rng, "x.gox", "go", "a.go.txt", "README.md", "go.work.bak", "x.GO", "xgo"), "nothing\n")
		case 2:
			d.goDir = true
			put(vh.Pick(rng, "only_test.go", "x_test.go", "a_b_test.go"), "package p\n\nimport \"crypto/md5\"\n\nvar X = md5.New()\n")
		default:
			d.goDir, d.scan = true, true
			nm := rng.Perm(len(goNames))
			for k := 1 + rng.Intn(2); k > 0; k-- {
				d.files = append(d.files, goNames[nm[k]])
				put(goNames[nm[k]], fmt.Sprintf("package p\n\nimport \"crypto/md5\"\n\nvar X%d = md5.New()\n", k))
			}
			if rng.Intn(3) == 0 {
				put("f_test.go", "package p\n")
			}
			if rng.Intn(4) == 0 {
				put("notes.txt", "x\n")
			}
		}
		if err := os.MkdirAll(filepath.Join(dir, d.rel), 0o755); err != nil {
			r.Inconclusive("%v", err)
		}
	}
	writeModule(r, dir, files)
	return dirs
}

// exclusion is an option for exclusion with its meaning: the path elements it
// matches in a row.
type exclusion struct {
	text string
	re   *regexp.Regexp
}

func randExclusion(rng *rand.Rand, dirs []treeDir) exclusion {
	lit := func(s string) *regexp.Regexp { return regexp.MustCompile("^(?:" + regexp.QuoteMeta(s) + ")$") }
	if rng.Intn(5) == 0 {
		p := vh.Pick(rng, "cmd.*", "[a-b]", "cmd|rules", ".*_old", "c(m|md)", "gen(erated)?", "rules/.*", "(a|b)/(a|b)", "vendor[s2]", "^cmd", "internal$")
		return exclusion{p, regexp.MustCompile("^(?:" + p + ")$")}
	}
	s := vh.PickS(rng, treeNames)
	switch rng.Intn(4) {
	case 0:
		s = vh.PickS(rng, dirs).rel
	case 1:
		s += "/" + vh.PickS(rng, treeNames)
	}
	if s == "." {
		s = "cmd"
	}
	x := exclusion{s, lit(s)}
	switch rng.Intn(6) {
	case 0:
		x.text += "/"
	case 1:
		x.text = "./" + x.text
	}
	return x
}

var defaultExclusions = []exclusion{{"vendor", regexp.MustCompile("^vendor$")}, {"\\.git/", regexp.MustCompile("^\\.git$")}}

// excludedBy tells whether a directory below the root is excluded, with its
// subdirectories.
func excludedBy(rel string, xs []exclusion) bool {
	if rel == "." {
		return false
	}
	el := strings.Split(filepath.ToSlash(rel), "/")
	for i := range el {
		for j := i + 1; j <= len(el); j++ {
			for _, x := range xs {
				if x.re.MatchString(strings.Join(el[i:j], "/")) {
					// anchors of the pattern refer to the whole path
					if strings.HasPrefix(x.text, "^") && i > 0 || strings.HasSuffix(x.text, "$") && j < len(el) {
						continue
					}
					return true
				}
			}
		}
	}
	return false
}

func init() {
	All["C30"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("random directory trees with Go files, test files, near misses (x.gox, go, x.GO), vendored and similarly named directories, dots, spaces; random exclusions (names, paths, with leading ./ and trailing slash, patterns); the packages found against an independent model over path elements; the command with recursive, plain, overlapping and absolute arguments, -r, -exclude-dir: reported files, each once, and the number of scanned files; non-trivial: something is excluded")
		r.Assume("an exclusion matches whole elements of the path as walked from the current directory; roots that match themselves are outside",
			"a directory given as a plain argument is scanned though excluded", "directories named like a Go file are recorded as a known finding")
		roots := func(dir string, rng *rand.Rand) string {
			return vh.Pick(rng, dir+"/...", dir+"/./...", dir+"//...")
		}
		r.Parallel(r.N(600, 15000), func(i int, rng *rand.Rand) {
			dir := env(r).Dir()
			defer os.RemoveAll(dir)
			dirs := tree(r, rng, dir)
			var xs []exclusion
			var given []string
			for k := rng.Intn(4); k > 0; k-- {
				x := randExclusion(rng, dirs)
				if x.text[0] == '^' {
					continue // refers to the absolute path here
				}
				xs = append(xs, x)
			}
			if rng.Intn(2) == 0 {
				xs = append(xs, defaultExclusions...)
			}
			for _, x := range xs {
				given = append(given, x.text)
			}
			var want []string
			out := 0
			for _, d := range dirs {
				if d.goDir && !excludedBy(d.rel, xs) {
					want = append(want, d.rel)
				} else if d.goDir {
					out++
				}
			}
			arg := roots(dir, rng)
			got, err := gosec.PackagePaths(arg, gosec.ExcludedDirsRegExp(given))
			src := map[string]string{"tree": jsonText(dirs) + "\n" + fmt.Sprint(dirs), "exclusions": strings.Join(given, "\n")}
			r.Eval("tree", fmt.Sprint(dirs, given), out > 0)
			r.Count("directories found", int64(len(want)))
			r.Count("directories excluded", int64(out))
			if i%97 == 0 {
				r.Sample(map[string]any{"directories": len(dirs), "exclusions": given, "found": want, "excluded": out})
			}
			if err != nil {
				r.Violation("walk/error", err.Error(), src)
				return
			}
			for k := range got {
				if got[k], err = filepath.Rel(dir, got[k]); err != nil {
					r.Violation("walk/outside", err.Error(), src)
				}
			}
			sort.Strings(want)
			sort.Strings(got)
			if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
				r.Violation("walk", fmt.Sprintf("exclusions %q: missing %q, extra %q", given, m, e), src)
			}
			// a plain argument
			plain := filepath.Join(dir, vh.PickS(rng, dirs).rel)
			got, err = gosec.PackagePaths(plain, gosec.ExcludedDirsRegExp(given))
			if err != nil || len(got) != 1 || got[0] != plain {
				r.Violation("plain", fmt.Sprintf("%s becomes %v, %v", plain, got, err), src)
			}
		})
		c30Command(r)
		// a directory named like a Go file
		dir := env(r).Dir()
		writeModule(r, dir, map[string]string{"a/socket.go/x.txt": "x\n", "b/b.go": "package b\n"})
		got, _ := gosec.PackagePaths(dir+"/...", nil)
		if len(got) != 1 {
			r.Violation("walk/directory named like a Go file", fmt.Sprintf("%v for one directory with a Go file", got), nil)
		}
		r.Need("directories found", 1000)
		r.Need("directories excluded", 300)
		r.Need("command", 50)
	}
}

func c30Command(r *vh.Run) {
	r.Parallel(r.N(110, 1500), func(i int, rng *rand.Rand) {
		dir := env(r).Dir()
		defer os.RemoveAll(dir)
		dirs := tree(r, rng, dir)
		xs := append([]exclusion{}, defaultExclusions...)
		var opts []string
		for k := rng.Intn(4); k > 0; k-- {
			x := randExclusion(rng, dirs)
			if x.text[0] == '^' || strings.Contains(x.text, "|") {
				continue
			}
			xs = append(xs, x)
			opts = append(opts, vh.Pick(rng, "-exclude-dir=", "--exclude-dir=")+x.text)
		}
		covered := map[string][]string{}
		below := func(root string) {
			for _, d := range dirs {
				rel, err := filepath.Rel(root, d.rel)
				if err != nil || rel == ".." || strings.HasPrefix(rel, "../") {
					continue
				}
				if d.scan && !excludedBy(d.rel, xs) {
					covered[d.rel] = d.files
				}
			}
		}
		var args []string
		rec := rng.Intn(3) == 0
		if rec {
			opts = append(opts, "-r")
		}
		for k := rng.Intn(3); k >= 0; k-- {
			d := vh.PickS(rng, dirs)
			if excludedBy(d.rel, xs) && rng.Intn(2) == 0 {
				continue
			}
			arg := vh.Pick(rng, d.rel, "./"+d.rel, dir+"/"+d.rel, d.rel+"/")
			if d.rel == "." {
				arg = vh.Pick(rng, ".", "./", dir)
			}
			if rec || rng.Intn(2) == 0 {
				if excludedBy(d.rel, xs) {
					continue // the root of a walk is excluded itself
				}
				if !rec || rng.Intn(2) == 0 {
					arg = strings.TrimSuffix(arg, "/") + "/..."
				}
				below(d.rel)
			} else {
				if !d.goDir {
					continue // an error
				}
				if d.scan {
					covered[d.rel] = d.files
				}
			}
			args = append(args, arg)
		}
		if len(args) == 0 {
			if !rec || rng.Intn(2) == 0 {
				args = append(args, vh.Pick(rng, "./...", dir+"/..."))
			}
			below(".")
		}
		all := append(append([]string{"-fmt=json", "-no-fail", "-include=G401", fmt.Sprint("-concurrency=", 1+rng.Intn(4))}, opts...), args...)
		o := runCLI(r, dir, all...)
		key := fmt.Sprintf("gosec %q", all)
		src := map[string]string{"tree": fmt.Sprint(dirs), "args": key, "stdout": o.stdout, "stderr": o.stderr}
		var want, got []string
		n := 0
		for d := range covered {
			m := covered[d]
			n += len(m)
			for _, f := range m {
				want = append(want, filepath.Join(d, f))
			}
		}
		r.Eval("command", fmt.Sprint(i, all), len(covered) < len(dirs))
		if o.stdout == "" {
			if n > 0 {
				r.Violation("command/nothing", fmt.Sprintf("%s: no report for %q\n%s", key, want, firstBytes(o.stderr, 500)), src)
			}
			return
		}
		rep := o.json(r)
		if len(rep.Errors) > 0 {
			r.Violation("command/errors", fmt.Sprintf("%s: %v", key, rep.Errors), src)
		}
		for _, x := range rep.Issues {
			rel, err := filepath.Rel(dir, x.File)
			if err != nil {
				rel = x.File
			}
			got = append(got, rel)
		}
		sort.Strings(want)
		sort.Strings(got)
		r.Count("files reported", int64(len(got)))
		if m, e := vh.Diff(want, got); len(m)+len(e) > 0 {
			r.Violation("command", fmt.Sprintf("%s: missing %q, extra %q", key, m, e), src)
		} else if rep.Stats.Files != n {
			r.Violation("command/files", fmt.Sprintf("%s: %d files instead of %d", key, rep.Stats.Files, n), src)
		}
		if i%23 == 0 {
			r.Sample(map[string]any{"command": all, "directories": len(dirs), "covered": sortedKeys(covered)})
		}
	})
}
