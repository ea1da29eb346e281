package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// apiCall is one documented call: expression (single line) and result count.
type apiCall struct {
	rule, expr string
	results    int
}

var c01Calls = []apiCall{
	{"G401", "$md5.New()", 1}, {"G401", "$md5.Sum(nil)", 1}, {"G401", "$sha1.New()", 1}, {"G401", "$sha1.Sum([]byte(`x`))", 1},
	{"G405", "$des.NewCipher(nil)", 2}, {"G405", "$des.NewTripleDESCipher([]byte{1})", 2}, {"G405", "$rc4.NewCipher(nil)", 2},
	{"G406", "$md4.New()", 1}, {"G406", "$ripemd160.New()", 1},
	{"G404", "$mrand.New(nil)", 1}, {"G404", "$mrand.Read(nil)", 2}, {"G404", "$mrand.Float32()", 1}, {"G404", "$mrand.Float64()", 1},
	{"G404", "$mrand.Int()", 1}, {"G404", "$mrand.Int31()", 1}, {"G404", "$mrand.Int31n(3)", 1}, {"G404", "$mrand.Int63()", 1}, {"G404", "$mrand.Int63n(9)", 1},
	{"G404", "$mrand.Intn(7)", 1}, {"G404", "$mrand.NormFloat64()", 1}, {"G404", "$mrand.Uint32()", 1}, {"G404", "$mrand.Uint64()", 1},
	{"G404", "$mrand2.New(nil)", 1}, {"G404", "$mrand2.Float32()", 1}, {"G404", "$mrand2.Float64()", 1}, {"G404", "$mrand2.Int()", 1}, {"G404", "$mrand2.Int32()", 1},
	{"G404", "$mrand2.Int32N(3)", 1}, {"G404", "$mrand2.Int64()", 1}, {"G404", "$mrand2.Int64N(3)", 1}, {"G404", "$mrand2.IntN(3)", 1}, {"G404", "$mrand2.N(int64(3))", 1},
	{"G404", "$mrand2.NormFloat64()", 1}, {"G404", "$mrand2.Uint32()", 1}, {"G404", "$mrand2.Uint32N(3)", 1}, {"G404", "$mrand2.Uint64()", 1}, {"G404", "$mrand2.Uint64N(5)", 1}, {"G404", "$mrand2.UintN(5)", 1},
	{"G103", "$unsafe.Pointer(new(int))", 1}, {"G103", "$unsafe.String(new(byte), 1)", 1}, {"G103", "$unsafe.StringData(`a`)", 1}, {"G103", "$unsafe.Slice(new(int), 1)", 1}, {"G103", "$unsafe.SliceData([]int{1})", 1},
	{"G114", "$http.ListenAndServe(`x:1`, nil)", 1}, {"G114", "$http.ListenAndServeTLS(`x:1`, `c`, `k`, nil)", 1}, {"G114", "$http.Serve(nil, nil)", 1}, {"G114", "$http.ServeTLS(nil, nil, `c`, `k`)", 1},
	{"G106", "$ssh.InsecureIgnoreHostKey()", 1},
	{"G403", "$rsa.GenerateKey($crand.Reader, 1024)", 2}, {"G403", "$rsa.GenerateKey($crand.Reader, 2047)", 2}, {"G403", "$rsa.GenerateKey(nil, 0x400)", 2}, {"G403", "$rsa.GenerateKey(nil, 0)", 2}, {"G403", "$rsa.GenerateKey(nil, 0b10000000000)", 2}, {"G403", "$rsa.GenerateKey(nil, 1_024)", 2},
	{"G203", "$htemplate.CSS($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.HTML($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.HTMLAttr($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.JS($strings.ToUpper(`s`))", 1},
	{"G203", "$htemplate.JSStr($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.Srcset($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.URL($strings.ToUpper(`s`))", 1}, {"G203", "$htemplate.HTML(`<b>` + $strings.ToUpper(`s`))", 1},
}

// look-alikes and safe uses
var c01Safe = []apiCall{
	{"", "$sha256.New()", 1}, {"", "$sha256.Sum256(nil)", 1}, {"", "$aes.NewCipher(nil)", 2}, {"", "$crand.Read(nil)", 2}, {"", "$crand.Int($crand.Reader, $big.NewInt(9))", 2},
	{"", "$md5.Size", 0}, {"", "$sha1.BlockSize", 0}, {"", "$rc4.KeySizeError(3)", 1}, {"", "$des.KeySizeError(1)", 1},
	{"", "$mrand.NewSource(1)", 1}, {"", "$mrand2.NewPCG(1, 2)", 1}, {"", "(*$mrand.Rand)(nil)", 0}, {"", "$unsafe.Sizeof(1)", 1},
	{"", "$http.NewServeMux()", 1}, {"", "(&$http.Server{ReadTimeout: 1}).ListenAndServe()", 1}, {"", "$ssh.FixedHostKey(nil)", 1},
	{"", "$rsa.GenerateKey($crand.Reader, 2048)", 2}, {"", "$rsa.GenerateKey(nil, 2049)", 2}, {"", "$rsa.GenerateKey(nil, 4096)", 2}, {"", "$rsa.GenerateKey(nil, 0x800)", 2}, {"", "$rsa.GenerateKey(nil, 1<<12)", 2},
	{"", "$htemplate.HTML(`<b>`)", 1}, {"", "$htemplate.JS(\"x\")", 1}, {"", "$htemplate.HTMLEscapeString($strings.ToUpper(`s`))", 1}, {"", "$htemplate.New($strings.ToUpper(`s`))", 1}, {"", "$ttemplate.HTMLEscapeString($strings.ToUpper(`s`))", 1},
	{"", "(&hasher@{}).New()", 1}, {"", "hasher@{}.Sum(nil)", 1}, {"", "holder@.md5.New()", 1}, {"", "holder@.New()", 1}, {"", "(*$mrand.Rand).Intn($mrand2Holder@, 3)", 0},
}

// expression contexts: %s is the expression, the finding is on the %s line
var expr1 = []string{
	"_ = %s%m", "use(%s)%m", "v@ := %s%m\nuse(v@)", "if use(%s) {%m\n}", "var v@ = %s%m\nuse(v@)", "var v@ any = %s%m\nuse(v@)",
	"use(\n\t1,\n\t%s,%m\n\t2)", "use(use(use(%s)))%m", "for use(%s) {%m\n}", "switch %s {%m\ndefault:\n}", "use([]any{%s})%m",
	"use([]any{\n1,\n%s,%m\n})", "use(map[string]any{`a`: %s})%m", "use(struct{ a any }{a: %s})%m", "use(&struct{ a any }{%s})%m", "defer use(%s)%m", "go use(%s)%m",
	"c@ := make(chan any, 1)\nc@ <- %s%m", "func() any {\n\treturn %s%m\n}()", "x@ := func() any { return %s }%m\nuse(x@)", "sink = append(sink, %s)%m", "sink[0] = %s%m",
	"select {\ncase sinkc@ <- %s:%m\ndefault:\n}", "var a@, b@ = 1, any(%s)%m\nuse(a@, b@)", "a@, b@ := any(%s), 3%m\nuse(a@, b@)", "switch x@ := any(%s).(type) {%m\ncase int:\nuse(x@)\n}",
	"switch {\ncase use(%s):%m\n}", "for i@ := any(%s); use(i@); {%m\n}", "if x@ := any(%s); use(x@) {%m\n}", "use(any(%s) == nil)%m", "use(any(%s).(error))%m", "use(1, func() bool {\n\treturn use(1,\n%s)%m\n})",
}
var expr2 = []string{
	"_, _ = %s%m", "v@, err@ := %s%m\nuse(v@, err@)", "if _, err@ := %s; err@ != nil {%m\n}", "use(%s)%m", "var v@, e@ = %s%m\nuse(v@, e@)", "func() (any, any) {\n\treturn %s%m\n}()",
	"var v@ any\nvar e@ error\nv@, e@ = %s%m\nuse(v@, e@)", "defer func() {\n\tuse(%s)%m\n}()", "switch _, e@ := %s; e@ {%m\n}", "for v@, e@ := %s; use(v@, e@); {%m\n}",
}

func apiSnippet(rng *rand.Rand, c apiCall) snippet {
	forms := expr1
	if c.results == 2 {
		forms = expr2
	}
	f := vh.PickS(rng, forms)
	if strings.HasPrefix(f, "switch %s") && (strings.Contains(c.expr, "unsafe.Slice(") || strings.Contains(c.expr, "Sum")) {
		f = "use(%s)%m"
	}
	m := ""
	if c.rule != "" {
		m = " //~ " + c.rule
	}
	return snippet{name: c.rule + ":" + strings.ReplaceAll(c.expr, "/", "|"), stmts: strings.Replace(strings.Replace(f, "%s", c.expr, 1), "%m", m, 1)}
}

func init() {
	All["C01"] = func(r *vh.Run) {
		r.Rule("one documented call (or look-alike) per snippet, placed in a random expression context, statement nesting and top-level context, under random import aliases; mixes of 2-9 snippets over 1-3 files; non-trivial: distinct program text")
		only := vh.Set("G103", "G106", "G114", "G203", "G401", "G403", "G404", "G405", "G406")
		const decls = `type hasher@ struct{}

func (hasher@) New() int { return 1 }

func (hasher@) Sum(b []byte) int { return 1 }

var holder@ struct {
	md5 hasher@
	hasher@
}
`
		negExtra := []snippet{
			{name: "shadow-var", decls: decls, stmts: "{\nuse($md5.Size)\n%MD5% := hasher@{}\nuse(%MD5%.New(), %MD5%.Sum(nil))\n}"},
			{name: "shadow-rand", decls: "type rnd@ struct{}\n\nfunc (rnd@) Int() int { return 1 }\nfunc (rnd@) Intn(int) int { return 1 }\nfunc (rnd@) Read([]byte) (int, error) { return 1, nil }\n", stmts: "use($mrand.NewSource(1))\nfunc(%RAND% rnd@) {\nuse(%RAND%.Int())\nuse(%RAND%.Intn(4))\nuse(%RAND%.Read(nil))\n}(rnd@{})"},
			{name: "shadow-range", decls: decls, stmts: "use($sha1.Size)\nfor _, %SHA1% := range []hasher@{{}} {\nuse(%SHA1%.New())\n}"},
			{name: "shadow-const", decls: "type cnum@ int\n\nfunc (cnum@) Int() int { return 1 }\nfunc (cnum@) Read([]byte) int { return 1 }\n", stmts: "use($mrand.NewSource(1))\n{\nconst %RAND% = cnum@(1)\nuse(%RAND%.Int(), %RAND%.Read(nil))\n}"},
			{name: "shadow-type", decls: decls, stmts: "use($md5.Size)\n{\ntype %MD5% struct{ hasher@ }\nuse(%MD5%.New(%MD5%{}), %MD5%.Sum(%MD5%{}, nil))\n}"},
			{name: "shadow-alias", decls: decls, stmts: "use($sha1.Size)\n{\ntype %SHA1% = hasher@\nuse(%SHA1%.New(%SHA1%{}))\n}"},
			{name: "rand-method", stmts: "func(r@ *$mrand.Rand) {\nuse(r@.Intn(3), r@.Int(), r@.Float64())\n}(nil)"},
			{name: "rand2-method", stmts: "var r@ $mrand2.Rand\nuse(r@.IntN(3), r@.Int())"},
			{name: "server-method", stmts: "s@ := $http.Server{ReadTimeout: 3}\nuse(s@.ListenAndServe(), s@.Serve(nil))"},
			{name: "field-method", decls: decls, stmts: "use(holder@.md5.New(), holder@.New(), holder@.Sum(nil))"},
			{name: "func-value", stmts: "f@ := $sha256.New\nuse(f@())"},
			{name: "iface", decls: "type ifc@ interface {\n\tNewCipher([]byte) (int, error)\n\tGenerateKey(any, int) int\n}\n", stmts: "func(des, rsa ifc@) {\nuse(des.NewCipher(nil))\nuse(rsa.GenerateKey(nil, 512))\n}(nil, nil)"},
			{name: "other-template", stmts: "use($ttemplate.JSEscapeString($strings.ToUpper(`a`)))"},
		}
		mkNeg := func(rng *rand.Rand, f *vh.FileGen, s snippet) snippet {
			for k, p := range map[string]string{"%MD5%": "crypto/md5", "%RAND%": "math/rand", "%SHA1%": "crypto/sha1"} {
				if strings.Contains(s.stmts, k) {
					s.stmts = strings.ReplaceAll(s.stmts, k, f.Imp(p))
				}
			}
			return s
		}
		var safe []apiCall
		for _, c := range c01Safe {
			if !strings.Contains(c.expr, "@") {
				safe = append(safe, c)
			}
		}
		nCtx := r.N(14, 120)
		type job struct {
			calls []apiCall
			neg   []snippet
			kind  string
		}
		var jobs []job
		for _, c := range append(append([]apiCall{}, c01Calls...), safe...) {
			for k := 0; k < nCtx; k++ {
				jobs = append(jobs, job{calls: []apiCall{c}, kind: "single"})
			}
		}
		for _, s := range negExtra {
			for k := 0; k < nCtx; k++ {
				jobs = append(jobs, job{neg: []snippet{s}, kind: "lookalike"})
			}
		}
		for k := 0; k < r.N(250, 4000); k++ {
			var j job
			j.kind = "mix"
			for n := 2 + r.Rng.Intn(7); n > 0; n-- {
				switch r.Rng.Intn(6) {
				case 0:
					j.calls = append(j.calls, vh.PickS(r.Rng, safe))
				case 1:
					j.neg = append(j.neg, vh.PickS(r.Rng, negExtra))
				default:
					j.calls = append(j.calls, vh.PickS(r.Rng, c01Calls))
				}
			}
			jobs = append(jobs, j)
		}
		r.Parallel(len(jobs), func(i int, rng *rand.Rand) {
			j := jobs[i]
			nf := 1
			if j.kind == "mix" {
				nf = 1 + rng.Intn(3)
			}
			var fs []*vh.FileGen
			for k := 0; k < nf; k++ {
				fs = append(fs, vh.NewFile(rng, vh.Pick(rng, "p", "main", "crypt", "weak"), string(rune('A'+k))))
				fs[k].Pkg = fs[0].Pkg
			}
			for _, f := range fs {
				f.Twice = len(j.neg) == 0 && rng.Intn(2) == 0
			}
			var nm []string
			put := func(s snippet) {
				f := vh.PickS(rng, fs)
				s = mkNeg(rng, f, s)
				u := f.Uniq("q")
				if s.decls != "" {
					f.Decl(strings.ReplaceAll(s.decls, "@", u))
				}
				if strings.Contains(s.stmts, "sinkc@") {
					f.Decl("var sinkc" + u + " chan any")
				}
				f.Wrap(strings.ReplaceAll(s.stmts, "@", u), rng.Intn(4))
				nm = append(nm, s.name)
			}
			for _, c := range j.calls {
				put(apiSnippet(rng, c))
				for fs[0].Twice && rng.Intn(2) == 0 {
					put(apiSnippet(rng, c))
				}
			}
			for _, s := range j.neg {
				put(s)
			}
			// the package's own functions, in a package called like an import
			if j.kind == "lookalike" && rng.Intn(3) == 0 {
				own := []struct{ pkg, use, fn string }{
					{"md5", "use($md5.Size)", "New"}, {"sha1", "use($sha1.Size)", "Sum"}, {"rand", "use($mrand.NewSource(1))", "Intn"}, {"rand", "use($mrand2.NewPCG(1, 2))", "IntN"},
					{"rc4", "use($rc4.KeySizeError(1))", "NewCipher"}, {"des", "use($des.BlockSize)", "NewCipher"}, {"http", "use($http.StatusOK)", "ListenAndServe"}, {"template", "use($htemplate.New(`x`))", "HTML"},
					{"rsa", "use($rsa.ErrDecryption)", "GenerateKey"}, {"ssh", "use($ssh.Marshal)", "InsecureIgnoreHostKey"},
				}
				o := vh.PickS(rng, own)
				fs[0].Plain = true
				fs[0].Pkg = o.pkg
				fs[0].Decl("func " + o.fn + "(xs ...any) int { return len(xs) }")
				fs[0].Wrap(o.use+"\nuse("+o.fn+"())\nuse("+o.fn+"(use, 1024))", rng.Intn(3))
				nm = append(nm, "own:"+o.pkg)
			}
			// package-level initialiser form
			if len(j.calls) == 1 && rng.Intn(4) == 0 {
				c := j.calls[0]
				f := fs[0]
				u := f.Uniq("pv")
				m := ""
				if c.rule != "" {
					m = " //~ " + c.rule
				}
				if c.results == 2 {
					f.Decl(fmt.Sprintf("var %s, _ = %s%s", u, c.expr, m))
				} else {
					f.Decl(fmt.Sprintf("var (\n\t%s any = %s%s\n)", u, c.expr, m))
				}
			}
			var files []vh.Src
			for k, f := range fs {
				if k == 0 {
					f.Decl(vh.Helpers)
				}
				files = append(files, vh.Src{Name: fmt.Sprintf("f%d.go", k), Text: f.Text()})
			}
			r.Eval(j.kind, files[0].Text, true)
			if i%997 == 3 {
				r.Sample(map[string]any{"kind": j.kind, "snippets": nm, "program": files[0].Text})
			}
			markCheck(r, j.kind, j.kind+"/"+strings.Join(nm, "+"), files, only, vh.Opts{NoAnalyzers: true})
		})
		r.Need("findings observed", 500)
	}
}
