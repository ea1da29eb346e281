package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif/harness/vh"
)

// listing is what the utility has to print for a file: the lines in any order
// or, for a text, as it is.
type listing struct {
	text    string
	lines   []string
	ordered bool
}

// utilListings says what every tool has to print about a file.
func utilListings(file string) (map[string]listing, error) {
	res := map[string]listing{}
	fset := token.NewFileSet()
	plain, err := parser.ParseFile(fset, file, nil, 0)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	ast.Fprint(&b, fset, plain, ast.NotNilFilter)
	res["ast"] = listing{text: b.String(), ordered: true}
	fset = token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var c strings.Builder
	for _, g := range f.Comments {
		c.WriteString(g.Text() + "\n")
	}
	res["comments"] = listing{text: c.String(), ordered: true}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.Default()}
	pkg, err := conf.Check("main.go", fset, []*ast.File{f}, info)
	if err != nil {
		return nil, err
	}
	var uses, defs, exprs, objs []string
	for id, o := range info.Uses {
		uses = append(uses, fmt.Sprintf("%s %v", id.Name, o))
	}
	for id, o := range info.Defs {
		defs = append(defs, fmt.Sprintf("%s %v", id.Name, o))
	}
	for _, tv := range info.Types {
		exprs = append(exprs, fmt.Sprint(tv))
	}
	obj := func(o types.Object) {
		if o != nil {
			objs = append(objs, fmt.Sprintf("%s %v %s", o.Name(), o.Type(), o.Id()))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			obj(info.ObjectOf(x))
		case *ast.SelectorExpr:
			obj(info.ObjectOf(x.Sel))
		}
		return true
	})
	res["uses"], res["defs"], res["types"], res["callobj"] = listing{lines: uses}, listing{lines: defs}, listing{lines: exprs}, listing{lines: objs, ordered: false}
	var imps []string
	for _, p := range pkg.Imports() {
		imps = append(imps, p.Path()+" "+p.Name())
		for _, n := range p.Scope().Names() {
			imps = append(imps, "=> "+n)
		}
	}
	res["imports"] = listing{lines: imps}
	return res, nil
}

var (
	lineNumber = regexp.MustCompile(`(?m)^ *\d+  `)
	printedAt  = regexp.MustCompile(`\(obj @ \d+\)`)
)

// textLines are the lines of a text, those of a syntax tree without their
// numbers and sorted: the tree contains maps, whose order is not specified.
func textLines(tool, s string) []string {
	if tool == "ast" {
		s = printedAt.ReplaceAllString(lineNumber.ReplaceAllString(s, ""), "")
	}
	l := strings.Split(s, "\n")
	if tool == "ast" {
		sort.Strings(l)
		return l
	}
	for k := range l {
		l[k] = fmt.Sprintf("%d %s", k, l[k])
	}
	sort.Strings(l)
	return l
}

// utilLines reads a listing of the utility.
func utilLines(tool, out string) []string {
	var res []string
	switch tool {
	case "callobj":
		for k, o := range strings.Split(out, "OBJECT\n") {
			if k == 0 {
				continue
			}
			v := map[string]string{}
			for _, l := range strings.Split(o, "\n") {
				if k, x, ok := strings.Cut(l, " = "); ok {
					// the name of the object comes after that of its package
					v[strings.TrimSpace(k)] = strings.TrimSpace(x)
				}
			}
			res = append(res, fmt.Sprintf("%s %s %s", v["Name"], v["Type"], v["Id"]))
		}
		return res
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		switch tool {
		case "uses", "defs":
			l = strings.TrimPrefix(l, "IDENT: ")
			n, o, ok := strings.Cut(l, ", OBJECT: ")
			if !ok {
				n, o, _ = strings.Cut(l, ", OBJ: ")
			}
			l = n + " " + o
		case "types":
			if k := strings.LastIndex(l, ", TYPE: "); k >= 0 {
				l = l[k+len(", TYPE: "):]
			}
		case "imports":
			l = strings.Join(strings.Fields(l), " ")
		}
		if l != "" {
			res = append(res, l)
		}
	}
	return res
}

func init() {
	All["C41"] = func(r *vh.Run) {
		r.Rule("the utility for the development of rules is built and run with every tool on programs of the other monitors, the corpus and the sample programs, several files, directories and missing files; its listings are compared, as multisets, with those of an independent parse and type check of the same files; non-trivial: a file type checks")
		var src []sampleProgram
		for _, p := range generatedPrograms(r, r.N(3, 60)) {
			if len(p.files) > 0 {
				src = append(src, p)
			}
		}
		for i := 0; i < r.N(8, 200); i++ {
			src = append(src, sampleProgram{name: "corpus"})
		}
		for k, p := range samplePrograms() {
			if k%r.N(20, 2) == 0 {
				src = append(src, p)
			}
		}
		tools := []string{"ast", "callobj", "uses", "types", "defs", "comments", "imports"}
		r.Parallel(len(src), func(i int, rng *rand.Rand) {
			p := src[i]
			if p.name == "corpus" {
				p.files = corpusPkg(rng, "p", 2+rng.Intn(6), 1, rng.Intn(3))
			}
			dir := env(r).Dir()
			defer os.RemoveAll(dir)
			type one struct {
				name string
				want map[string]listing
			}
			var good []one
			texts := map[string]string{}
			for k, f := range p.files {
				n := filepath.Join(dir, fmt.Sprintf("f%d.go", k))
				os.WriteFile(n, []byte(f.Text), 0o644)
				w, err := utilListings(n)
				if err == nil {
					good = append(good, one{n, w})
					texts[f.Name] = f.Text
				}
				if len(good) == 2 {
					break
				}
			}
			if len(good) == 0 {
				r.Count("programs that need their other files", 1)
				return
			}
			for _, tool := range tools {
				var args []string
				var want []listing
				use := []string{tool}
				if rng.Intn(4) == 0 {
					use = append(use, vh.Pick(rng, tools...))
				}
				if rng.Intn(5) == 0 {
					args = append(args, filepath.Join(dir, "missing.go"))
				}
				if tool == "ast" && rng.Intn(2) == 0 {
					// a file with syntax errors is left out
					bad := filepath.Join(dir, "bad.go")
					os.WriteFile(bad, []byte("package p\n\nfunc f( {\n"), 0o644)
					args = append(args, bad)
				}
				for _, g := range good {
					args = append(args, g.name)
					if rng.Intn(5) == 0 {
						args = append(args, dir)
					}
				}
				var opts []string
				for _, u := range use {
					opts = append(opts, "-tool="+u)
				}
				run := func(opts ...string) (string, string, error) {
					cmd := exec.Command(os.Getenv("VH_TOOL"), append(opts, args...)...)
					cmd.Dir = r.Repo
					var ob, eb bytes.Buffer
					cmd.Stdout, cmd.Stderr = &ob, &eb
					err := cmd.Run()
					return ob.String(), eb.String(), err
				}
				out, msg, err := run(opts...)
				r.Eval(tool, tool+good[0].name, true)
				fail := func(f string, a ...any) {
					r.Violation("gosecutil/"+tool, fmt.Sprintf("gosecutil %v on %s: %s\n%s", use, p.name, fmt.Sprintf(f, a...), msg), texts)
				}
				if err != nil {
					fail("%v", err)
					continue
				}
				if len(use) > 1 {
					// one listing after the other, each as it is on its own
					n := 0
					for _, o := range opts {
						one, _, err := run(o)
						if err != nil {
							fail("%s alone: %v", o, err)
						}
						n += strings.Count(one, "\n")
					}
					if m := strings.Count(out, "\n"); m != n {
						fail("%d lines instead of %d", m, n)
					}
					r.Count("listings of several tools", 1)
					continue
				}
				for _, g := range good {
					want = append(want, g.want[tool])
				}
				if want[0].ordered {
					var b strings.Builder
					for _, w := range want {
						b.WriteString(w.text)
					}
					m, e := vh.Diff(textLines(tool, b.String()), textLines(tool, out))
					if len(m)+len(e) > 0 {
						fail("missing: %.2000q, not there: %.2000q", m, e)
					}
					r.Count("texts compared", 1)
					continue
				}
				var w []string
				for _, x := range want {
					w = append(w, x.lines...)
				}
				g := utilLines(tool, out)
				sort.Strings(w)
				sort.Strings(g)
				m, e := vh.Diff(w, g)
				if len(m)+len(e) > 0 {
					fail("missing: %q, not there: %q", m, e)
				}
				r.Count("lines compared", int64(len(w)))
			}
		})
		// an unknown tool is an error
		for _, u := range []string{"nothing", "", "AST", "uses,defs", "ast "} {
			cmd := exec.Command(os.Getenv("VH_TOOL"), "-tool="+u)
			if out, err := cmd.CombinedOutput(); err == nil {
				r.Violation("gosecutil/unknown", fmt.Sprintf("-tool=%q is accepted: %s", u, out), nil)
			}
		}
		r.Need("lines compared", 5000)
		r.Need("texts compared", 50)
	}
}
