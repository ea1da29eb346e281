package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ast/astutil"

	"github.com/securego/gosec/v2"

	"verif/harness/vh"
)

// seedPrograms are the texts the hostile sources are derived from: the
// corpus, and the sample programs that come with the repository.
func seedPrograms(r *vh.Run) []string {
	var out []string
	rng := rand.New(rand.NewSource(7))
	p13, n13 := c13Snippets()
	p14, n14 := c14Snippets()
	for _, l := range [][]snippet{corpus, leftovers, p13, n13, p14, n14} {
		for _, s := range l {
			for _, f := range buildPkg(rng, "p", []snippet{s}, 1, 1, rng.Intn(2) == 0) {
				out = append(out, f.Text)
			}
		}
	}
	out = append(out, oddPrograms...)
	m, _ := filepath.Glob(filepath.Join(r.Repo, "testutils", "*.go"))
	for _, f := range m {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(af, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && strings.Contains(l.Value, "package ") {
				if s, err := strconv.Unquote(l.Value); err == nil {
					out = append(out, s)
				}
			}
			return true
		})
	}
	return out
}

// oddPrograms are valid programs of unusual shape.
var oddPrograms = []string{
	"package p\n",
	"package p\n\nfunc f()\n",
	"package p\n\nimport \"os\"\n\nfunc two() (string, os.FileMode) { return \"\", 0 }\nfunc wr() (string, []byte, os.FileMode) { return \"\", nil, 0 }\n\nvar _ = os.Mkdir(two())\nvar _ = os.Chmod(two())\nvar _ = os.WriteFile(wr())\nvar _ = os.MkdirAll(two())\n",
	"package p\n\nimport (\n\t\"crypto/rsa\"\n\t\"io\"\n)\n\nfunc a() (io.Reader, int) { return nil, 0 }\n\nvar k, err = rsa.GenerateKey(a())\n",
	"package p\n\nimport \"net\"\n\nfunc a() (string, string) { return \"\", \"\" }\n\nvar l, err = net.Listen(a())\n",
	"package p\n\nimport \"database/sql\"\n\nfunc a() (string, int) { return \"\", 0 }\n\nfunc f(db *sql.DB) {\n\tr, err := db.Query(a())\n\t_, _ = r, err\n\tg := db.Query\n\tg(\"SELECT * FROM \" + \"x\")\n}\n",
	"package p\n\nimport (\n\t\"context\"\n\t\"os/exec\"\n)\n\nfunc a() (string, string) { return \"\", \"\" }\nfunc b() (context.Context, string, string) { return nil, \"\", \"\" }\n\nvar x = exec.Command(a())\nvar y = exec.CommandContext(b())\nvar z = exec.Command(\"a\", []string{}...)\n",
	"package p\n\nimport \"net/http\"\n\nfunc a() (string, http.Handler) { return \"\", nil }\nfunc u() (string, string) { return \"\", \"\" }\n\nvar e = http.ListenAndServe(a())\n\nfunc f() {\n\thttp.Handle(a())\n}\n",
	"package p\n\nimport (\n\t\"fmt\"\n\t\"os\"\n)\n\nfunc a() (*os.File, string) { return nil, \"\" }\n\nfunc f() {\n\tfmt.Fprintf(os.Stderr, \"%s\", os.Args[1])\n\tfmt.Sprintf(\"SELECT\", \"x\")\n\tfmt.Println()\n\tfmt.Fprint(nil)\n}\n",
	"package p\n\nimport (\n\t. \"crypto/md5\"\n\t. \"math/rand\"\n\t. \"os\"\n\t. \"unsafe\"\n)\n\nvar _ = New()\nvar _ = Int()\nvar _ = Mkdir(\"a\", 0o777)\nvar _ Pointer\n",
	"package p\n\nimport (\n\t_ \"crypto/md5\"\n\t_ \"net/http/pprof\"\n)\n",
	"package p\n\nimport (\n\ta \"crypto/md5\"\n\tb \"crypto/md5\"\n)\n\nvar _ = a.New\nvar _ = b.New()\n",
	"package p\n\nimport \"io\"\n\nfunc a() (io.Writer, io.Reader) { return nil, nil }\n\nfunc f() {\n\tio.Copy(a())\n\tn, err := io.Copy(a())\n\t_, _ = n, err\n}\n",
	"package p\n\nimport \"strconv\"\n\nfunc f() {\n\tvar a [3]int\n\tvar err error\n\ta[0], err = strconv.Atoi(\"1\")\n\t_ = int32(a[0])\n\t_ = err\n\t_, _ = strconv.Atoi(\"\")\n\tvar m = map[string]int{}\n\tm[\"a\"], _ = strconv.Atoi(\"1\")\n}\n",
	"package p\n\nimport \"crypto/tls\"\n\ntype c = tls.Config\n\nvar _ = c{}\nvar _ = []tls.Config{{}, {MinVersion: 1 << 3}}\nvar _ = map[string]*tls.Config{\"a\": {InsecureSkipVerify: !true}}\nvar x tls.Config\n\nfunc f() {\n\tx.MinVersion, x.MaxVersion = f2()\n\tx.InsecureSkipVerify = 1 > 0\n\tx.CipherSuites = nil\n\tx.CipherSuites = []uint16{1, 2}\n\tx.CipherSuites = append(x.CipherSuites, 3)\n}\n\nfunc f2() (uint16, uint16) { return 1, 2 }\n",
	"package p\n\nfunc f(xs []int, m map[int]int, c chan int) {\n\tfor range xs {\n\t}\n\tfor i := range 3 {\n\t\t_ = &i\n\t}\n\tfor i, _ := range xs {\n\t\t_ = &i\n\t}\n\tvar a [2]int\n\tfor a[0], a[1] = range xs {\n\t}\n\tfor x := range c {\n\t\t_ = &x\n\t}\n\tfor k, v := range m {\n\t\t_, _ = &k, &v\n\t}\n}\n",
	"package p\n\nfunc f(n int) {\n\ts := make([]int, 2, 4)\n\t_ = s[1:2:3]\n\t_ = s[n:]\n\t_ = s[:n]\n\t_ = s[n]\n\tvar z []int\n\t_ = z[0]\n\t_ = make([]int, n)[3]\n\tt := s\n\tfor i := 0; i < 5; i++ {\n\t\tt = t[1:]\n\t\t_ = t[i]\n\t}\n\tvar a [4]int\n\t_ = a[n:][2]\n\tp := &a\n\t_ = p[:3]\n\tq := \"abc\"\n\t_ = q[n:]\n}\n",
	"package p\n\ntype T[P any] struct{ x P }\n\nfunc (t *T[P]) m(n int64) int32 { return int32(n) }\n\nfunc g[S ~[]E, E ~int64](s S) []int32 {\n\tvar o []int32\n\tfor _, e := range s {\n\t\to = append(o, int32(e))\n\t}\n\treturn o\n}\n\nfunc conv[A, B ~int | ~uint8](a A) B { return B(a) }\n\nvar _ = conv[int, uint8](3)\nvar _ = g[[]int64]\n",
	"package p\n\nimport \"crypto/cipher\"\n\nfunc rec(a cipher.AEAD, n []byte, d int) []byte {\n\tif d == 0 {\n\t\treturn a.Seal(nil, n, nil, nil)\n\t}\n\treturn rec2(a, n, d-1)\n}\n\nfunc rec2(a cipher.AEAD, n []byte, d int) []byte { return rec(a, n, d) }\n\nfunc loop(n []byte) []byte {\n\tfor {\n\t\tn = append(n, n...)\n\t\tif len(n) > 3 {\n\t\t\treturn n\n\t\t}\n\t}\n}\n\nfunc use(a cipher.AEAD) {\n\trec(a, loop(nil), 2)\n\tvar arr [12]byte\n\ta.Seal(nil, arr[:], nil, nil)\n\tf := a.Seal\n\tf(nil, nil, nil, nil)\n\tcipher.AEAD.Seal(a, nil, arr[:], nil, nil)\n\tdefer a.Seal(nil, arr[3:], nil, nil)\n\tgo a.Seal(nil, arr[:2], nil, nil)\n}\n",
	"package p\n\nfunc f(x int64) {\n\tvar y int32\n\tdefer func() { y = int32(x) }()\n\tswitch {\n\tcase x > 3, x < -4:\n\t\ty = int32(x)\n\tcase x == 1<<40:\n\t}\nL:\n\tfor {\n\t\tselect {\n\t\tdefault:\n\t\t\tbreak L\n\t\t}\n\t}\n\tgoto M\nM:\n\t_ = y\n\tvar i interface{ M() }\n\tif z, ok := i.(interface{ N() int64 }); ok {\n\t\t_ = uint8(z.N())\n\t}\n}\n",
	"package p\n\nimport \"text/template\"\nimport \"html/template\"\n",
	"package p\n\nimport \"os\"\n\nfunc (t undefinedType) m() { os.Remove(\"x\") }\n\nvar x = undefinedFn(os.Open(y))\n\nfunc g() { return 1, os.Chmod() }\n",
	"package p\n\nvar password = `f62e5bcda4fae4f82370da0c6f20697b8f8447ef`\nvar a, password2 = f()\nvar m = map[string]string{\"password\": \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"}\n\nfunc f() (string, string) { return \"\", \"\" }\n\nfunc g(s struct{ token string }) bool {\n\tm[\"token\"] = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"\n\ts.token, m[\"x\"] = \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\", \"\"\n\ttoken := func() string { return \"x\" }()\n\tvar secret = []string{\"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\"}\n\treturn token == \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\" || \"f62e5bcda4fae4f82370da0c6f20697b8f8447ef\" == s.token && secret[0] != \"\"\n}\n",
}

// mutateAST makes n random changes of the tree.
func mutateAST(rng *rand.Rand, text string, donor string, n int) (string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", text, parser.SkipObjectResolution)
	if err != nil {
		return text, false
	}
	var donors []ast.Expr
	if d, err := parser.ParseFile(fset, "d.go", donor, parser.SkipObjectResolution); err == nil {
		ast.Inspect(d, func(n ast.Node) bool {
			if e, ok := n.(ast.Expr); ok {
				donors = append(donors, e)
			}
			return true
		})
	}
	id := func(s string) ast.Expr { return &ast.Ident{Name: s} }
	lit := func() ast.Expr {
		k := rng.Intn(9)
		return &ast.BasicLit{Kind: []token.Token{token.INT, token.STRING, token.STRING, token.CHAR, token.FLOAT, token.IMAG, token.INT, token.INT, token.STRING}[k],
			Value: []string{"99999999999999999999999999", "\"\\xff\\x00\"", "``", "'\\u0000'", "1e400", "3i", "0o777", "-0", "\"SELECT * FROM x WHERE y = \""}[k]}
	}
	expr := func() ast.Expr {
		switch rng.Intn(12) {
		case 0:
			return id("nil")
		case 1:
			return &ast.CallExpr{Fun: id(vh.Pick(rng, "two", "undefinedF", "use", "num", "str"))}
		case 2:
			return id(vh.Pick(rng, "undefinedX", "_", "iota", "true", "x", "err", "string"))
		case 3:
			return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}
		case 4:
			return &ast.CompositeLit{Type: &ast.ArrayType{Elt: id("int")}}
		case 5:
			return &ast.CompositeLit{}
		case 6, 7, 8:
			if len(donors) > 0 {
				return donors[rng.Intn(len(donors))]
			}
		}
		return lit()
	}
	wrap := func(e ast.Expr) ast.Expr {
		switch rng.Intn(12) {
		case 0:
			return &ast.ParenExpr{X: e}
		case 1:
			return &ast.UnaryExpr{Op: []token.Token{token.AND, token.SUB, token.NOT, token.ARROW, token.XOR}[rng.Intn(5)], X: e}
		case 2:
			return &ast.StarExpr{X: e}
		case 3:
			return &ast.IndexExpr{X: e, Index: expr()}
		case 4:
			return &ast.SliceExpr{X: e, Low: nil, High: expr()}
		case 5:
			return &ast.TypeAssertExpr{X: e, Type: id("string")}
		case 6:
			return &ast.SelectorExpr{X: e, Sel: &ast.Ident{Name: vh.Pick(rng, "Open", "Query", "Name", "x")}}
		case 7:
			return &ast.CallExpr{Fun: e}
		case 8:
			return &ast.CallExpr{Fun: e, Args: []ast.Expr{expr(), expr()}}
		case 9:
			return &ast.BinaryExpr{X: e, Op: []token.Token{token.ADD, token.EQL, token.LAND, token.SHL, token.QUO, token.NEQ}[rng.Intn(6)], Y: expr()}
		case 10:
			return &ast.CallExpr{Fun: &ast.ParenExpr{X: id(vh.Pick(rng, "int32", "string", "uint8", "any"))}, Args: []ast.Expr{e}}
		}
		return expr()
	}
	total := 0
	ast.Inspect(f, func(n ast.Node) bool {
		total++
		return true
	})
	for ; n > 0; n-- {
		at, k := rng.Intn(total), 0
		done := false
		astutil.Apply(f, func(c *astutil.Cursor) bool {
			k++
			if done || k < at {
				return !done
			}
			switch t := c.Node().(type) {
			case *ast.CallExpr:
				done = true
				switch rng.Intn(8) {
				case 0:
					t.Args = nil
				case 1:
					if len(t.Args) > 0 {
						t.Args = t.Args[:rng.Intn(len(t.Args))]
					}
				case 2:
					t.Args = append(append([]ast.Expr{}, t.Args...), expr(), expr())
				case 3:
					if len(t.Args) > 0 {
						t.Args[rng.Intn(len(t.Args))] = expr()
					}
				case 4:
					if len(t.Args) > 0 {
						j := rng.Intn(len(t.Args))
						t.Args[j] = wrap(t.Args[j])
					}
				case 5:
					t.Args = []ast.Expr{&ast.CallExpr{Fun: id("two")}}
				case 6:
					t.Fun = wrap(t.Fun)
				case 7:
					rng.Shuffle(len(t.Args), func(a, b int) { t.Args[a], t.Args[b] = t.Args[b], t.Args[a] })
				}
			case *ast.AssignStmt:
				done = true
				switch rng.Intn(5) {
				case 0:
					t.Lhs = append(append([]ast.Expr{}, t.Lhs...), id(vh.Pick(rng, "_", "extra", "err")))
				case 1:
					t.Rhs = append(append([]ast.Expr{}, t.Rhs...), expr())
				case 2:
					if len(t.Lhs) > 1 {
						t.Lhs = t.Lhs[1:]
					}
				case 3:
					t.Rhs = []ast.Expr{expr()}
				case 4:
					t.Tok = []token.Token{token.ASSIGN, token.DEFINE, token.ADD_ASSIGN}[rng.Intn(3)]
				}
			case *ast.ValueSpec:
				done = true
				switch rng.Intn(4) {
				case 0:
					t.Names = append(append([]*ast.Ident{}, t.Names...), &ast.Ident{Name: "password2"})
				case 1:
					t.Values = append(append([]ast.Expr{}, t.Values...), expr())
				case 2:
					t.Values = nil
				case 3:
					t.Type = expr()
				}
			case *ast.CompositeLit:
				done = true
				switch rng.Intn(5) {
				case 0:
					t.Type = nil
				case 1:
					t.Elts = nil
				case 2:
					t.Elts = append(append([]ast.Expr{}, t.Elts...), expr())
				case 3:
					for j, e := range t.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							t.Elts[j] = kv.Value
						}
					}
				case 4:
					t.Elts = append(append([]ast.Expr{}, t.Elts...), &ast.KeyValueExpr{Key: expr(), Value: expr()})
				}
			case *ast.KeyValueExpr:
				done = true
				if rng.Intn(2) == 0 {
					t.Value = wrap(t.Value)
				} else {
					t.Key = wrap(t.Key)
				}
			case *ast.RangeStmt:
				done = true
				switch rng.Intn(4) {
				case 0:
					t.Key, t.Value, t.Tok = nil, nil, token.ILLEGAL
				case 1:
					t.Value = nil
				case 2:
					t.X = expr()
				case 3:
					if t.Key != nil {
						t.Key = wrap(t.Key)
						t.Tok = token.ASSIGN
					}
				}
			case *ast.ReturnStmt:
				done = true
				if rng.Intn(2) == 0 {
					t.Results = nil
				} else {
					t.Results = append(append([]ast.Expr{}, t.Results...), expr())
				}
			case *ast.FuncDecl:
				if rng.Intn(3) == 0 {
					done = true
					switch rng.Intn(3) {
					case 0:
						t.Body = nil
					case 1:
						t.Type.Params = &ast.FieldList{}
					case 2:
						t.Recv = &ast.FieldList{List: []*ast.Field{{Type: expr()}}}
					}
				}
			case *ast.ImportSpec:
				done = true
				switch rng.Intn(4) {
				case 0:
					t.Name = &ast.Ident{Name: vh.Pick(rng, ".", "_", "x", "fmt")}
				case 1:
					t.Path = &ast.BasicLit{Kind: token.STRING, Value: vh.Pick(rng, `"no/such/package"`, `""`, `"./rel"`, `"unsafe"`, "`os`", `"a b"`, `"C"`)}
				case 2:
					t.Name = nil
				}
				return false
			case *ast.SelectorExpr:
				if c.Name() == "Fun" || c.Name() == "X" || c.Name() == "Args" || c.Name() == "Rhs" {
					done = true
					switch rng.Intn(3) {
					case 0:
						t.X = wrap(t.X)
					case 1:
						t.Sel = &ast.Ident{Name: vh.Pick(rng, "Query", "New", "Open", "X", "Seal", "MinVersion")}
					case 2:
						c.Replace(expr())
					}
					return false
				}
			case *ast.ExprStmt, *ast.IfStmt, *ast.BlockStmt, *ast.DeclStmt:
				if c.Index() >= 0 && rng.Intn(3) == 0 {
					done = true
					if rng.Intn(2) == 0 {
						c.Delete()
					} else {
						c.InsertBefore(&ast.ExprStmt{X: expr()})
					}
					return false
				}
			case *ast.Ident:
				if c.Name() == "Args" || c.Name() == "X" || c.Name() == "Y" || c.Name() == "Rhs" || c.Name() == "Value" || c.Name() == "Elts" || c.Name() == "Results" {
					done = true
					c.Replace(wrap(t))
					return false
				}
			case *ast.BasicLit:
				if c.Name() != "Path" && c.Name() != "Tag" {
					done = true
					if rng.Intn(2) == 0 {
						c.Replace(lit())
					} else {
						c.Replace(wrap(t))
					}
					return false
				}
			}
			return !done
		}, nil)
	}
	var sb bytes.Buffer
	func() {
		defer func() { _ = recover() }()
		err = format.Node(&sb, fset, f)
	}()
	if sb.Len() == 0 {
		return text, false
	}
	out := sb.String()
	if rng.Intn(3) == 0 && !strings.Contains(out, "func two(") {
		out += "\nfunc two() (string, int) { return \"\", 0 }\n"
	}
	return out, true
}

// mutateText makes n random changes of the text.
func mutateText(rng *rand.Rand, t string, donor string, n int) string {
	for ; n > 0; n-- {
		if len(t) == 0 {
			return t
		}
		a := rng.Intn(len(t))
		b := min(len(t), a+rng.Intn(30))
		switch rng.Intn(8) {
		case 0:
			t = t[:a] + t[b:]
		case 1:
			t = t[:a] + t[a:b] + t[a:]
		case 2:
			t = t[:a] + vh.Pick(rng, "(", ")", "{", "}", ",", ".", "...", ":=", "\"", "`", "/*", "//", "\n", "func ", "[", "]", "\x00", "\xff\xfe", "\ufeff", "é", "$", "#nosec", "range ", "type ", "~") + t[a:]
		case 3:
			t = t[:a]
		case 4:
			t = t[:a] + donor[:min(len(donor), rng.Intn(60))] + t[a:]
		case 5:
			l := strings.Split(t, "\n")
			i, j := rng.Intn(len(l)), rng.Intn(len(l))
			l[i], l[j] = l[j], l[i]
			t = strings.Join(l, "\n")
		case 6:
			l := strings.Split(t, "\n")
			i := rng.Intn(len(l))
			t = strings.Join(append(l[:i:i], l[i+1:]...), "\n")
		case 7:
			l := strings.Split(t, "\n")
			i := rng.Intn(len(l))
			t = strings.Join(append(append(l[:i:i], l[i]), l[i:]...), "\n")
		}
	}
	return t
}

// hostile makes the sources of case i.
func hostile(rng *rand.Rand, seeds []string) (kind string, files []vh.Src) {
	a, b := vh.PickS(rng, seeds), vh.PickS(rng, seeds)
	t := a
	switch k := rng.Intn(10); {
	case k == 0:
		kind = "sample"
	case k < 7:
		var ok bool
		kind = "tree"
		t, ok = mutateAST(rng, a, b, 1+rng.Intn(4))
		if !ok {
			kind = "text"
			t = mutateText(rng, a, b, 1+rng.Intn(4))
		}
	case k < 9:
		kind = "text"
		t = mutateText(rng, a, b, 1+rng.Intn(5))
	default:
		kind = "tree and text"
		t, _ = mutateAST(rng, a, b, 1+rng.Intn(3))
		t = mutateText(rng, t, b, 1+rng.Intn(2))
	}
	files = []vh.Src{{Name: "h0.go", Text: t}}
	if rng.Intn(5) == 0 {
		files = append(files, vh.Src{Name: "h1.go", Text: b})
	}
	return
}

var sentinelSrc = []vh.Src{{Name: "s.go", Text: `package s

import (
	"crypto/md5"
	"math/rand"
	"os"
	"unsafe"
)

func F(x int64, n string, db interface{ Query(string) }) {
	_ = int32(x)
	_ = md5.New()
	os.Remove("a")
	_ = os.Mkdir("a", 0o777)
	_, _ = os.Open(n)
	var password = "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"
	_ = password
	_ = unsafe.Pointer(nil)
	_ = rand.Int() // #nosec
	s := make([]int, 1)
	_ = s[4]
}
`}}

// crashWorker scans cases [from,to) and reports each; it dies with the case.
func crashWorker(args []string) {
	debug.SetMaxStack(200 << 20)
	os.Setenv("GOSECGOVERSION", "1.21")
	repo, tmp := args[0], args[1]
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	from, _ := strconv.Atoi(args[3])
	to, _ := strconv.Atoi(args[4])
	r := &vh.Run{ID: "C20", Seed: seed, Repo: repo, Tmp: tmp}
	seeds := seedPrograms(r)
	e, err := vh.NewEnv(filepath.Join(tmp, "w"), repo)
	if err != nil {
		fmt.Println("FATAL", err)
		os.Exit(4)
	}
	sent, err := e.Load(sentinelSrc, nil)
	if err != nil {
		fmt.Println("FATAL", err)
		os.Exit(4)
	}
	id := func(s string) string { return s }
	audit := gosec.NewConfig()
	audit.SetGlobal(gosec.Audit, "enabled")
	var opts []vh.Opts
	var sentWants []string
	for _, o := range []vh.Opts{{Track: true}, {Track: true, Conf: audit}} {
		w := jsonText(fullSorted(vh.Scan(o, sent).Issues, "", id))
		if len(w) < 1000 {
			fmt.Println("FATAL sentinel", w)
			os.Exit(4)
		}
		opts, sentWants = append(opts, o), append(sentWants, w)
	}
	out := bufio.NewWriter(os.Stdout)
	for i := from; i < to; i++ {
		rng := r.Sub(i)
		kind, files := hostile(rng, seeds)
		for _, f := range files {
			_ = os.WriteFile(filepath.Join(tmp, "case-"+f.Name), []byte(f.Text), 0o600)
		}
		fmt.Fprintf(out, "CASE\t%d\t%s\n", i, kind)
		out.Flush()
		l, err := e.Load(files, nil)
		if err != nil {
			fmt.Fprintf(out, "UNPARSED\t%d\n", i)
			if l != nil {
				l.Remove()
			}
			continue
		}
		k := rng.Intn(4) / 3
		a, sentWant := vh.NewAnalyzer(opts[k]), sentWants[k]
		res := vh.ScanWith(a, l)
		if res.Panic != "" {
			fmt.Fprintf(out, "PANIC\t%d\t%s\n", i, strconv.Quote(res.Panic))
		} else {
			n := len(res.Issues)
			res2 := vh.ScanWith(a, sent)
			if got := jsonText(fullSorted(res2.Issues[min(n, len(res2.Issues)):], "", id)); res2.Panic != "" || got != sentWant {
				fmt.Fprintf(out, "SENTINEL\t%d\t%s\n", i, strconv.Quote(res2.Panic+"\n"+got+"\ninstead of\n"+sentWant))
			}
			fmt.Fprintf(out, "OK\t%d\t%d\t%d\n", i, n, len(l.TypeErr))
		}
		l.Remove()
	}
	fmt.Fprintf(out, "END\n")
	out.Flush()
}

// panicSite names the first frame of gosec itself in a panic trace.
func panicSite(trace string) string {
	lines := strings.Split(trace, "\n")
	started := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.goPanic") || strings.Contains(l, "stack overflow") {
			started = true
		}
		if started && strings.HasPrefix(l, "golang.org/x/tools/go/ssa.") && strings.Contains(trace, "stack overflow") {
			l = strings.TrimPrefix(l, "golang.org/x/tools/go/")
			if strings.Contains(trace, "go/ssa.typeset(") {
				return "ssa.typeset" // the functions of this recursion overflow in turns
			}
			return l[:strings.Index(l, "(")]
		}
		if started && strings.HasPrefix(l, "github.com/securego/gosec/") && i+1 < len(lines) {
			fn := l
			if k := strings.LastIndex(fn, "("); k > 0 {
				fn = fn[:k]
			}
			return fn[strings.LastIndex(fn, "/")+1:]
		}
	}
	return "?"
}

// runCrash distributes n cases over worker processes.
func runCrash(r *vh.Run, n int) {
	exe, err := os.Executable()
	if err != nil {
		r.Inconclusive("%v", err)
	}
	const chunk = 400
	var jobs [][2]int
	for a := 0; a < n; a += chunk {
		jobs = append(jobs, [2]int{a, min(n, a+chunk)})
	}
	ch := make(chan [2]int, len(jobs))
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				tmp := env(r).Dir()
				for from := j[0]; from < j[1]; {
					from = crashChunk(r, exe, tmp, from, j[1])
				}
				os.RemoveAll(tmp)
			}
		}()
	}
	wg.Wait()
}

// crashChunk runs one worker and gives the case to continue with.
func crashChunk(r *vh.Run, exe, tmp string, from, to int) int {
	cmd := exec.Command(exe, "worker", "crash", r.Repo, tmp, fmt.Sprint(r.Seed), fmt.Sprint(from), fmt.Sprint(to))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	p, err := cmd.StdoutPipe()
	if err != nil {
		r.Inconclusive("%v", err)
	}
	if err := cmd.Start(); err != nil {
		r.Inconclusive("%v", err)
	}
	srcs := func() map[string]string {
		m := map[string]string{}
		for _, n := range []string{"h0.go", "h1.go"} {
			if b, err := os.ReadFile(filepath.Join(tmp, "case-"+n)); err == nil {
				m[n] = string(b)
			}
		}
		return m
	}
	cur, ended, hung := from, false, false
	var mu sync.Mutex
	last := time.Now()
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
				mu.Lock()
				idle := time.Since(last)
				mu.Unlock()
				if idle > 60*time.Second {
					mu.Lock()
					hung = true
					mu.Unlock()
					_ = cmd.Process.Kill()
					return
				}
			}
		}
	}()
	sc := bufio.NewScanner(p)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	kind := ""
	for sc.Scan() {
		mu.Lock()
		last = time.Now()
		mu.Unlock()
		f := strings.SplitN(sc.Text(), "\t", 4)
		switch f[0] {
		case "CASE":
			cur, _ = strconv.Atoi(f[1])
			kind = f[2]
		case "UNPARSED":
			r.Eval("not parsed at all", fmt.Sprint(cur), false)
		case "OK":
			r.Eval(kind, fmt.Sprint(cur), true)
			k, _ := strconv.Atoi(f[2])
			r.Count("findings in hostile sources", int64(k))
			if f[3] != "0" {
				r.Count("sources with errors", 1)
			} else {
				r.Count("valid sources", 1)
			}
		case "PANIC":
			t, _ := strconv.Unquote(f[2])
			r.Eval(kind, fmt.Sprint(cur), true)
			r.Violation("panic/"+panicSite(t), fmt.Sprintf("case %d: the scan panicked: %s", cur, t), map[string]string{"seed": fmt.Sprint(cur)})
			if os.Getenv("VH_DEBUG") != "" {
				fmt.Println(panicSite(t), strings.SplitN(t, "\n", 2)[0], srcs())
			}
		case "SENTINEL":
			t, _ := strconv.Unquote(f[2])
			r.Violation("sentinel", fmt.Sprintf("case %d changes the findings of the package scanned after it: %s", cur, t), srcs())
		case "FATAL":
			r.Inconclusive("worker: %s", sc.Text())
		case "END":
			ended = true
		}
	}
	_ = cmd.Wait()
	close(stop)
	mu.Lock()
	h := hung
	mu.Unlock()
	if ended {
		return to
	}
	if h {
		r.Violation("hang", fmt.Sprintf("case %d: the scan did not end within 60 s", cur), srcs())
	} else {
		e := eb.String()
		if len(e) > 6000 {
			e = e[:6000]
		}
		r.Violation("death/"+panicSite("panic(\n"+e), fmt.Sprintf("case %d: the process died: %s", cur, e), srcs())
	}
	return cur + 1
}
