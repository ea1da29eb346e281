package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// prober is a rule which calls the helpers for rules on everything it is shown.
type prober struct {
	probe func(ast.Node, *gosec.Context)
}

func (p *prober) ID() string { return "G990" }

func (p *prober) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
	p.probe(n, c)
	return nil, nil
}

// literalForms are literals and expressions of them in all the ways to write them.
func literalForms(rng *rand.Rand, u string) string {
	var b strings.Builder
	digits := func(set string, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += string(set[rng.Intn(len(set))])
			if i+1 < n && rng.Intn(5) == 0 {
				s += "_"
			}
		}
		return s
	}
	str := func() string {
		var v []byte
		for k := rng.Intn(9); k > 0; k-- {
			v = append(v, vh.Pick(rng, "a", "b", " ", "\"", "`", "\\", "\n", "\t", "é", "\x00", "\xff", "日", "%", "\r", "'", "SELECT ")...)
		}
		return spellString(rng, string(v))
	}
	char := func() string {
		return vh.Pick(rng, `'a'`, `'Z'`, `'0'`, `' '`, `'\''`, `'"'`, `'\\'`, `'\n'`, `'\x00'`, `'\x7f'`, `'\xff'`, `'\377'`, `'\000'`, `'é'`, `'ÿ'`, `'Ā'`, `'日'`, `'\u00ff'`, `'\u0100'`, `'\U0001F600'`, `'\t'`, `'\a'`, `'~'`)
	}
	num := func() string {
		switch rng.Intn(8) {
		case 0:
			return digits("123456789", 1+rng.Intn(22))
		case 1:
			return "0x" + digits("0123456789abcdefABCDEF", 1+rng.Intn(18))
		case 2:
			return "0" + digits("01234567", 1+rng.Intn(23))
		case 3:
			return "0o" + digits("01234567", 1+rng.Intn(23))
		case 4:
			return "0B" + digits("01", 1+rng.Intn(66))
		case 5:
			return vh.Pick(rng, "0", "00", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0x8000000000000000", "0X_1", "18446744073709551616", "1_0")
		case 6:
			return digits("123456789", 1+rng.Intn(9)) + "." + digits("0123456789", rng.Intn(20)+1) + vh.Pick(rng, "", "e5", "E-3", "e+120", "e-300")
		}
		return vh.Pick(rng, ".5", "1.", "1e3", "0x1p-2", "0X.8P1", "0x1.8p3", "1e308", "1_0.2_5", "017e0", "08.5", "2.2250738585072014e-308", "4.9e-324", "0.1", "1e-400", "0x_1F.p0")
	}
	for k := 2 + rng.Intn(6); k > 0; k-- {
		fmt.Fprintf(&b, "const n%s%d = %s\n\n", u, k, num())
		fmt.Fprintf(&b, "const c%s%d = %s\n\n", u, k, char())
		fmt.Fprintf(&b, "const s%s%d = %s\n\n", u, k, str())
		// concatenations, some with parentheses and constants in between
		e := str()
		for j := rng.Intn(5); j >= 0; j-- {
			o := str()
			switch rng.Intn(12) {
			case 0:
				o = fmt.Sprintf("s%s%d", u, k)
			case 1:
				o = "(" + o + ")"
			case 2:
				o = "(" + o + " + " + str() + ")"
			case 3:
				e = "(" + e + ")"
			}
			e += " + " + o
		}
		fmt.Fprintf(&b, "var e%s%d = %s\n\n", u, k, e)
		// a call with texts
		fmt.Fprintf(&b, "func f%s%d() bool {\n\tv, w := %s, %s\n\tconst x = %s\n\tvar y = %s\n\treturn use(v, %s, w, x, 1, y, 'c', v+w, use(y), \"%s\" + v)\n}\n\n", u, k, str(), str(), str(), str(), str(), u)
	}
	return b.String()
}

func init() {
	All["C42"] = func(r *vh.Run) {
		r.Rule("a rule of its own, registered for all expressions, calls the exported helpers on every node of programs of the other monitors, the corpus, the sample programs and programs full of literals and concatenations; the answers are compared with go/types, go/constant and the text of the program; non-trivial: a helper gives an answer")
		gen := append(samplePrograms(), generatedPrograms(r, r.N(60, 500))...)
		r.Parallel(r.N(1200, 15000), func(i int, rng *rand.Rand) {
			files := vh.PickS(rng, gen).files
			switch rng.Intn(3) {
			case 0:
				files = corpusPkg(rng, "p", 2+rng.Intn(8), 1+rng.Intn(3), rng.Intn(3))
			case 1:
				f := vh.NewFile(rng, "p", "L")
				f.Raw = true
				f.Decl(vh.Helpers)
				f.Decl(literalForms(rng, "q"))
				files = []vh.Src{{Name: "f0.go", Text: f.Text()}}
			}
			ld, err := env(r).Load(files, nil)
			if err != nil || len(ld.TypeErr) > 0 {
				r.Count("programs that need other packages", 1)
				return
			}
			defer ld.Remove()
			h := &helperCheck{r: r, rng: rng, ld: ld, files: files}
			a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, 1, log.New(&bytes.Buffer{}, "", 0))
			p := &prober{probe: h.probe}
			a.LoadRules(map[string]gosec.RuleBuilder{"G990": func(string, gosec.Config) (gosec.Rule, []ast.Node) {
				return p, []ast.Node{(*ast.File)(nil), (*ast.BasicLit)(nil), (*ast.Ident)(nil), (*ast.CallExpr)(nil), (*ast.BinaryExpr)(nil), (*ast.CompositeLit)(nil), (*ast.ParenExpr)(nil), (*ast.SelectorExpr)(nil)}
			}}, nil)
			func() {
				defer func() {
					if p := recover(); p != nil {
						h.fail("panic", nil, "%v\n%s", p, debug.Stack())
					}
				}()
				a.CheckRules(ld.Pkg)
			}()
			r.Eval("program", files[0].Text, h.answers > 0)
			r.Count("answers", int64(h.answers))
			for k, n := range h.kinds {
				r.Count(k, int64(n))
			}
		})
		// call lists are sets of pairs
		for i := 0; i < r.N(300, 5000); i++ {
			rng := r.Sub(100000 + i)
			l, want := gosec.NewCallList(), map[[2]string]bool{}
			name := func() string {
				return vh.Pick(rng, "os", "os/exec", "*os.File", "os.File", "", "Open", "*", "a.B", "*a.B", "**a.B")
			}
			for k := rng.Intn(12); k > 0; k-- {
				s := name()
				var ids []string
				for j := rng.Intn(4); j > 0; j-- {
					ids = append(ids, name())
				}
				if rng.Intn(2) == 0 {
					l.AddAll(s, ids...)
				} else {
					for _, id := range ids {
						l.Add(s, id)
					}
				}
				for _, id := range ids {
					want[[2]string{s, id}] = true
				}
			}
			for k := 0; k < 30; k++ {
				s, id := name(), name()
				if l.Contains(s, id) != want[[2]string{s, id}] {
					r.Violation("helpers/list", fmt.Sprintf("Contains(%q, %q) is %v for a list with %v", s, id, l.Contains(s, id), want), nil)
				}
				p := strings.HasPrefix(s, "*") && (want[[2]string{s, id}] || want[[2]string{s[1:], id}])
				if l.ContainsPointer(s, id) != p {
					r.Violation("helpers/pointer", fmt.Sprintf("ContainsPointer(%q, %q) is %v for a list with %v", s, id, !p, want), nil)
				}
			}
			r.Eval("lists", fmt.Sprint(want), len(want) > 0)
		}
		// places of packages
		old, had := os.LookupEnv("GOPATH")
		for i := 0; i < r.N(500, 5000); i++ {
			rng := r.Sub(200000 + i)
			var bases []string
			for k := rng.Intn(4); k >= 0; k-- {
				bases = append(bases, vh.Pick(rng, "/tmp/vh-g", "/tmp/vh-g/src/x", "/tmp/vh-g2", "/tmp/vh g/ö", "vh-rel", "/tmp/vh-g/../vh-h/"))
			}
			os.Setenv("GOPATH", strings.Join(bases, string(os.PathListSeparator)))
			var abs []string
			for _, b := range bases {
				x, _ := filepath.Abs(b)
				abs = append(abs, x)
			}
			if got := gosec.Gopath(); !reflect.DeepEqual(got, abs) {
				r.Violation("helpers/gopath", fmt.Sprintf("GOPATH=%q gives %q", bases, got), nil)
			}
			p := vh.PickS(rng, bases) + vh.Pick(rng, "/src/", "/src", "/srcs/", "/", "/src//", "/./src/") + vh.Pick(rng, "a/b", "a/b/c.go", "a.go", "x.gox/y", "", "a/../b/x_test.go", "src/src")
			at, _ := filepath.Abs(p)
			if strings.HasSuffix(at, ".go") {
				at = filepath.Dir(at)
			}
			want, ok := "", false
			for _, b := range abs {
				if rel, err := filepath.Rel(filepath.Join(b, "src"), at); err == nil && rel != "." && rel != ".." && !strings.HasPrefix(rel, "../") && !ok {
					want, ok = rel, true
				}
			}
			if got, err := gosec.GetPkgRelativePath(p); (err == nil) != ok || got != want {
				r.Violation("helpers/relative", fmt.Sprintf("GOPATH=%q: GetPkgRelativePath(%q) gives %q, %v instead of %q", bases, p, got, err, want), nil)
			}
			r.Eval("package places", strings.Join(bases, ":")+" "+p, ok)
		}
		if had {
			os.Setenv("GOPATH", old)
		} else {
			os.Unsetenv("GOPATH")
		}
		r.Need("answers", 50000)
		for _, k := range []string{"integers", "floats", "characters", "texts", "concatenations", "operands", "import names", "calls of packages", "calls of methods", "places", "string arguments", "variables in expressions"} {
			r.Need(k, 200)
		}
	}
}

// helperCheck compares the answers of the helpers.
type helperCheck struct {
	r       *vh.Run
	rng     *rand.Rand
	ld      *vh.Loaded
	files   []vh.Src
	answers int
	kinds   map[string]int
	failed  bool
	file    *ast.File
	decls   map[types.Object]ast.Node // what the only declaration gives to an object
}

func (h *helperCheck) fail(kind string, n ast.Node, f string, a ...any) {
	if h.failed {
		return
	}
	h.failed = true
	at := ""
	if n != nil {
		at = h.ld.Pkg.Fset.PositionFor(n.Pos(), false).String() + ": " + types.ExprString(asExpr(n)) + ": "
	}
	h.r.Violation("helpers/"+kind, at+fmt.Sprintf(f, a...), vh.SrcMap(h.files))
}

func asExpr(n ast.Node) ast.Expr {
	if e, ok := n.(ast.Expr); ok {
		return e
	}
	return &ast.Ident{Name: fmt.Sprintf("%T", n)}
}

func (h *helperCheck) count(kind string) {
	if h.kinds == nil {
		h.kinds = map[string]int{}
	}
	h.kinds[kind]++
	h.answers++
}

func (h *helperCheck) probe(n ast.Node, c *gosec.Context) {
	info := h.ld.Pkg.TypesInfo
	pos := h.ld.Pkg.Fset.PositionFor(n.Pos(), false)
	if f, l := gosec.GetLocation(n, c); f != pos.Filename || l != pos.Line {
		h.fail("place", n, "is at %s:%d, not %s:%d", pos.Filename, pos.Line, f, l)
	}
	h.count("places")
	h.literal(n)
	switch x := n.(type) {
	case *ast.File:
		h.file = x
		h.imports(x, c)
	case *ast.BinaryExpr:
		h.binary(x, c)
	case *ast.CallExpr:
		h.call(x, c)
	case *ast.CompositeLit:
		t := info.TypeOf(x).String()
		for _, w := range []string{t, "*" + t, t + "x", strings.TrimPrefix(t, "["), "net/http.Server", ""} {
			got := gosec.MatchCompLit(n, c, w)
			if (got != nil) != (w == t) || got != nil && got != x {
				h.fail("composite", n, "of type %s matches %s: %v", t, w, got != nil)
			}
		}
		h.count("composite literals")
	}
	if e, ok := n.(ast.Expr); ok && info.Types[e].Value != nil {
		if !gosec.TryResolve(e, c) {
			h.fail("resolve", n, "a constant is not resolved")
		}
		h.count("constants")
	}
	if _, ok := n.(*ast.CallExpr); ok && info.Types[n.(ast.Expr)].Value == nil && gosec.TryResolve(n, c) {
		h.fail("resolve", n, "a call is taken for a constant")
	}
}

// literal checks what is said about the value of a literal.
func (h *helperCheck) literal(n ast.Node) {
	lit, _ := n.(*ast.BasicLit)
	kind := token.ILLEGAL
	var v constant.Value
	if lit != nil {
		kind = lit.Kind
		v = constant.MakeFromLiteral(lit.Value, lit.Kind, 0)
	}
	i, err := gosec.GetInt(n)
	if want, fits := int64(0), false; kind == token.INT {
		want, fits = constant.Int64Val(v)
		if fits != (err == nil) || fits && i != want {
			h.fail("int", n, "GetInt gives %d, %v", i, err)
		}
		h.count("integers")
	} else if err == nil {
		h.fail("int", n, "GetInt gives %d for something else", i)
	}
	f, err := gosec.GetFloat(n)
	if kind == token.FLOAT {
		if want, _ := constant.Float64Val(v); err == nil && f != want {
			h.fail("float", n, "GetFloat gives %v", f)
		}
		// ParseFloat knows no underscores in decimal numbers
		if err != nil && !strings.Contains(lit.Value, "_") {
			h.fail("float", n, "GetFloat gives %v", err)
		}
		h.count("floats")
	} else if err == nil {
		h.fail("float", n, "GetFloat gives %v for something else", f)
	}
	b, err := gosec.GetChar(n)
	if kind == token.CHAR {
		want, _ := constant.Int64Val(v)
		if (want < 256) != (err == nil) || err == nil && int64(b) != want {
			h.fail("char", n, "GetChar gives %d, %v", b, err)
		}
		h.count("characters")
	} else if err == nil {
		h.fail("char", n, "GetChar gives %v for something else", b)
	}
	s, err := gosec.GetString(n)
	if kind == token.STRING {
		if err != nil || s != constant.StringVal(v) {
			h.fail("string", n, "GetString gives %q, %v", s, err)
		}
		if s, err = gosec.GetStringRecursive(n); err != nil || s != constant.StringVal(v) {
			h.fail("string", n, "GetStringRecursive gives %q, %v", s, err)
		}
		h.count("texts")
	} else if err == nil {
		h.fail("string", n, "GetString gives %q for something else", s)
	}
}

// leaves are the operands of an expression.
func leaves(e ast.Expr) []ast.Expr {
	e = ast.Unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok {
		return append(leaves(b.X), leaves(b.Y)...)
	}
	return []ast.Expr{e}
}

func (h *helperCheck) binary(x *ast.BinaryExpr, c *gosec.Context) {
	info := h.ld.Pkg.TypesInfo
	want := leaves(x)
	got := gosec.GetBinaryExprOperands(x)
	same := len(got) == len(want)
	for i := range want {
		same = same && got[i] == ast.Node(want[i])
	}
	if !same {
		h.fail("operands", x, "has %d operands, not %d, or others", len(want), len(got))
	}
	h.count("operands")
	texts, parens := true, false
	ast.Inspect(x, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.BinaryExpr:
			texts = texts && y.Op == token.ADD
		case *ast.ParenExpr:
			parens = true
		}
		return true
	})
	vars := map[*ast.Ident]bool{}
	for _, l := range want {
		b, ok := l.(*ast.BasicLit)
		texts = texts && ok && b.Kind == token.STRING
		if id, ok := l.(*ast.Ident); ok {
			if _, ok := info.ObjectOf(id).(*types.Var); ok {
				vars[id] = true
			}
		}
	}
	if texts {
		v := constant.StringVal(info.Types[x].Value)
		if s, err := gosec.GetStringRecursive(x); err != nil || s != v {
			h.fail("concat", x, "GetStringRecursive gives %q, %v", s, err)
		}
		if s, ok := gosec.ConcatString(x); !parens && (!ok || s != v) {
			h.fail("concat", x, "ConcatString gives %q, %v", s, ok)
		}
		h.count("concatenations")
	}
	ids, ok := gosec.FindVarIdentities(x, c)
	seen := map[*ast.Ident]bool{}
	for _, id := range ids {
		if !vars[id] || seen[id] || gosec.TryResolve(id, c) {
			h.fail("variables", x, "%s is no unknown variable of it, or is there twice", id.Name)
		}
		seen[id] = true
	}
	if ok != (len(ids) > 0) {
		h.fail("variables", x, "%d variables and %v", len(ids), ok)
	}
	if !parens {
		// the operands of a chain of operators; other operands are not looked into
		for e := ast.Expr(x); ; {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				break
			}
			for _, o := range []ast.Expr{b.X, b.Y} {
				if id, ok := o.(*ast.Ident); ok && vars[id] && !seen[id] && !gosec.TryResolve(id, c) {
					h.fail("variables", x, "the variable %s is missing", id.Name)
				}
			}
			e = b.X
		}
		h.count("variables in expressions")
	}
}

func (h *helperCheck) imports(f *ast.File, c *gosec.Context) {
	info := h.ld.Pkg.TypesInfo
	names, path := map[string][]string{}, map[string]string{}
	blank := map[string]bool{}
	for _, s := range f.Imports {
		var o types.Object = info.Implicits[s]
		if s.Name != nil {
			if s.Name.Name == "_" {
				p := constant.StringVal(constant.MakeFromLiteral(s.Path.Value, token.STRING, 0))
				blank[p] = true
				continue
			}
			o = info.Defs[s.Name]
		}
		p := constant.StringVal(constant.MakeFromLiteral(s.Path.Value, token.STRING, 0))
		n := "."
		if o != nil {
			n = o.Name()
		}
		names[p] = append(names[p], n)
		path[n] = p
	}
	for p := range blank {
		if names[p] == nil {
			names[p] = nil
		}
	}
	for _, p := range []string{"os", "crypto/md5", "rand", "", "net/http/x"} {
		if _, ok := names[p]; !ok {
			names[p] = nil
		}
	}
	for p, want := range names {
		got, ok := gosec.GetImportedNames(p, c)
		got = append([]string(nil), got...)
		sort.Strings(got)
		sort.Strings(want)
		if ok != (len(want) > 0) || !reflect.DeepEqual(got, want) && len(got)+len(want) > 0 {
			h.fail("imports", f, "GetImportedNames(%q) gives %q, %v instead of %q", p, got, ok, want)
		}
		h.count("import names")
	}
	for n, p := range path {
		if n == "." {
			continue
		}
		if got, ok := gosec.GetImportPath(n, c); !ok || got != p {
			h.fail("imports", f, "GetImportPath(%q) gives %q, %v instead of %q", n, got, ok, p)
		}
		h.count("import names")
	}
	for _, n := range []string{"os", "rand", "nothing", ""} {
		if got, ok := gosec.GetImportPath(n, c); ok != (path[n] != "") || got != path[n] {
			h.fail("imports", f, "GetImportPath(%q) gives %q, %v instead of %q", n, got, ok, path[n])
		}
	}
}

func (h *helperCheck) call(x *ast.CallExpr, c *gosec.Context) {
	info := h.ld.Pkg.TypesInfo
	// the object that is called
	var obj types.Object
	found := true
	switch f := x.Fun.(type) {
	case *ast.Ident:
		obj = info.Uses[f]
	case *ast.SelectorExpr:
		obj = info.Uses[f.Sel]
	default:
		found = false
	}
	if n, o := gosec.GetCallObject(x, c); found && (n != x || o != obj) || !found && (n != nil || o != nil) {
		h.fail("object", x, "calls %v, not %v", obj, o)
	}
	// the texts among its arguments
	var texts []string
	known := true
	for _, a := range x.Args {
		switch a := a.(type) {
		case *ast.BasicLit:
			if a.Kind == token.STRING {
				texts = append(texts, constant.StringVal(info.Types[a].Value))
			}
		case *ast.Ident:
			// one with a declaration of its own which nothing else shares
			switch v := h.single(a).(type) {
			case *ast.BasicLit:
				if v.Kind == token.STRING {
					texts = append(texts, constant.StringVal(constant.MakeFromLiteral(v.Value, v.Kind, 0)))
				}
			case nil:
				known = false
			}
		}
	}
	if known {
		if got := gosec.GetCallStringArgsValues(x, c); strings.Join(got, "\x00|") != strings.Join(texts, "\x00|") || len(got) != len(texts) {
			h.fail("texts", x, "has the texts %q as arguments, not %q", texts, got)
		}
		h.count("string arguments")
	}
	sel, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		for _, p := range h.ld.Pkg.Types.Imports() {
			if id, ok := x.Fun.(*ast.Ident); ok {
				if _, ok := gosec.MatchCallByPackage(x, c, p.Path(), id.Name); ok {
					h.fail("match", x, "is taken for a call of package %s", p.Path())
				}
			}
		}
		return
	}
	id, ok := sel.X.(*ast.Ident)
	if !ok {
		return
	}
	name := sel.Sel.Name
	switch o := info.ObjectOf(id).(type) {
	case *types.PkgName:
		path := o.Imported().Path()
		h.count("calls of packages")
		if p, n, err := gosec.GetCallInfo(x, c); err != nil || p != id.Name || n != name {
			h.fail("info", x, "GetCallInfo gives %q %q %v", p, n, err)
		}
		h.matches(x, c, path, name)
	case *types.Var:
		h.count("calls of methods")
		t := info.TypeOf(id).String()
		if p, n, err := gosec.GetCallInfo(x, c); err != nil || p != t || n != name {
			h.fail("info", x, "GetCallInfo gives %q %q %v instead of %q", p, n, err, t)
		}
		h.matches(x, c, "", name)
		l := gosec.NewCallList()
		l.Add(t, name)
		if l.ContainsCallExpr(x, c) != x {
			h.fail("method", x, "is not a call of %s.%s", t, name)
		}
		if strings.HasPrefix(t, "*") {
			l = gosec.NewCallList()
			l.Add(t[1:], name)
			if l.ContainsCallExpr(x, c) != x {
				h.fail("method", x, "is not a call of %s.%s for a pointer", t[1:], name)
			}
		}
		l = gosec.NewCallList()
		l.Add(t, name+"x")
		l.Add(t+"x", name)
		l.Add("*"+t, name)
		if l.ContainsCallExpr(x, c) != nil {
			h.fail("method", x, "is taken for a call of another method than %s.%s", t, name)
		}
	}
}

// matches checks which package a call is said to be of: the given one, or none.
func (h *helperCheck) matches(x *ast.CallExpr, c *gosec.Context, path, name string) {
	paths := []string{"os", "crypto/md5", "math/rand", "net/http", "example.com/none"}
	for _, s := range h.file.Imports {
		paths = append(paths, constant.StringVal(constant.MakeFromLiteral(s.Path.Value, token.STRING, 0)))
	}
	for _, p := range paths {
		is := p == path
		names := []string{"Nothing", name, "Close"}
		h.rng.Shuffle(3, func(i, j int) { names[i], names[j] = names[j], names[i] })
		if got, ok := gosec.MatchCallByPackage(x, c, p, names...); ok != is || ok && got != x {
			h.fail("match", x, "is a call of %s in package %q, and MatchCallByPackage says %v for %s", name, path, ok, p)
		}
		if _, ok := gosec.MatchCallByPackage(x, c, p, name+"x", strings.ToLower(name)+"_", ""); ok {
			h.fail("match", x, "MatchCallByPackage finds another function in %s", p)
		}
		l := gosec.NewCallList()
		l.AddAll(p, names...)
		l.Add("somewhere/else", name)
		for _, strip := range []bool{false, true} {
			if got := l.ContainsPkgCallExpr(x, c, strip); (got != nil) != is || got != nil && got != x {
				h.fail("list", x, "is a call of %s in package %q, and ContainsPkgCallExpr says %v for %s", name, path, got != nil, p)
			}
		}
		l = gosec.NewCallList()
		l.AddAll(p, name+"x", "Nothing")
		if l.ContainsPkgCallExpr(x, c, false) != nil {
			h.fail("list", x, "ContainsPkgCallExpr finds another function in %s", p)
		}
	}
	h.count("packages compared")
}

// single is the expression which the only declaration of a variable or constant
// gives to it; it is nil if that is not known here.
func (h *helperCheck) single(id *ast.Ident) ast.Node {
	info := h.ld.Pkg.TypesInfo
	if h.decls == nil {
		h.decls = map[types.Object]ast.Node{}
		for _, f := range h.ld.Pkg.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch d := n.(type) {
				case *ast.ValueSpec:
					if len(d.Names) == 1 && len(d.Values) == 1 {
						h.decls[info.Defs[d.Names[0]]] = d.Values[0]
					}
				case *ast.AssignStmt:
					if len(d.Lhs) == 1 && len(d.Rhs) == 1 && d.Tok == token.DEFINE {
						if id, ok := d.Lhs[0].(*ast.Ident); ok {
							h.decls[info.Defs[id]] = d.Rhs[0]
						}
					}
				}
				return true
			})
		}
		delete(h.decls, nil)
	}
	return h.decls[info.ObjectOf(id)]
}

// spellString writes a text in one of the ways there are.
func spellString(rng *rand.Rand, s string) string {
	if strconv.CanBackquote(s) && rng.Intn(2) == 0 {
		return "`" + s + "`"
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case rng.Intn(8) == 0:
			fmt.Fprintf(&b, vh.Pick(rng, `\x%02x`, `\%03o`), s[i])
		case s[i] < 0x80 && rng.Intn(8) == 0:
			fmt.Fprintf(&b, vh.Pick(rng, `\u%04x`, `\U%08X`), s[i])
		case s[i] == '"' || s[i] == '\\':
			b.WriteString(`\` + s[i:i+1])
		case s[i] < 0x20 || s[i] >= 0x7f:
			fmt.Fprintf(&b, `\x%02x`, s[i])
		default:
			b.WriteByte(s[i])
		}
	}
	return `"` + b.String() + `"`
}
