package checks

import (
	"math/rand"
	"strings"

	"verif/harness/vh"
)

// ssaOuter are contexts whose bodies the SSA based analyzers see.
var ssaOuter = []string{
	"func fn@() {\n%%\n}",
	"func fn@(a, b int) (n int, err error) {\n%%\n\treturn 0, nil\n}",
	"type ty@ struct{ a int }\n\nfunc (t *ty@) method() {\n%%\n}",
	"type ty@ int\n\nfunc (ty@) method(x string) string {\n%%\n\treturn x\n}",
	"func fn@() func() {\n\treturn func() {\n%%\n\t}\n}",
	"func fn@() func() {\n\treturn func() {\n\t\tfunc() {\n%%\n\t\t}()\n\t}\n}",
	"func init() {\n%%\n}",
	"func fn@[T any](t T) T {\n%%\n\treturn t\n}",
	"type ty@[T any] struct{ t T }\n\nfunc (t *ty@[T]) method() T {\n%%\n\treturn t.t\n}",
	"var fn@ = func() {\n%%\n}",
	"var fn@ = map[string]func(x int) string{\"a\": nil, \"b\": func(x int) string {\n%%\n\treturn \"\"\n}}",
	"var fn@ = struct{ run func() error }{run: func() error {\n%%\n\treturn nil\n}}",
}

// wrapSSA puts statements into nested contexts seen by the SSA analyzers.
func wrapSSA(f *vh.FileGen, stmts string, depth int) {
	s := f.Expand(stmts)
	for d := 0; d < depth; d++ {
		c := vh.PickS(f.Rng, vh.InnerContexts)
		s = strings.Replace(strings.ReplaceAll(c, "@", f.Uniq("")), "%%", s, 1)
	}
	f.Decl(strings.Replace(strings.ReplaceAll(vh.PickS(f.Rng, ssaOuter), "@", f.Uniq("")), "%%", s, 1))
}

func init() {
	All["C12"] = func(r *vh.Run) {
		r.Rule("random calls of AEAD Seal and the CBC/CFB/CTR/OFB encrypter constructors whose nonce is obtained by every listed way (literals, conversions, arrays, zeroed memory, package variables, function results, parameters over several helper levels) or filled from crypto/rand in every documented way, plus unrelated uses; oracle: the way of construction; non-trivial: distinct (entry point, way, helper depth)")
		// ways of getting a nonce: statements and expression
		type way struct{ name, pre, x string }
		lit := func(rng *rand.Rand) string {
			return vh.Pick(rng, "[]byte(`ILoveMyNonce`)", "[]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}", "[]byte(cnonce)", "[]byte{}", "[]byte{0: 1, 15: 2}", "[]byte(\"a\" + cnonce)")
		}
		fixed := func(rng *rand.Rand) way {
			return vh.Pick(rng,
				way{"inline", "", lit(rng)}, way{"local", "n@ := " + lit(rng), "n@"}, way{"local", "var n@ []byte = " + lit(rng), "n@"}, way{"local array", "n@ := [12]byte{1, 2, 3}", "n@[:]"}, way{"zero array", "var n@ [16]byte", "n@[:]"},
				way{"zeroed", "n@ := make([]byte, 12)", "n@"}, way{"zeroed", "", "make([]byte, 16)"}, way{"package array", "", "garr[:]"}, way{"package variable", "", "gnonce"}, way{"package variable", "", "gnonce2"}, way{"closure result", "", "func() []byte { return " + lit(rng) + " }()"},
				way{"helper result", "", "fixedNonce()"}, way{"helper result", "n@ := fixedNonce()", "n@"}, way{"string variable", "s@ := str()\nn@ := []byte(s@)", "n@"}, way{"copied into", "n@ := make([]byte, 12)\ncopy(n@, `fixed`)", "n@"},
				way{"part", "n@ := make([]byte, 32)", vh.Pick(rng, "n@[4:16]", "n@[16:]", "n@[:12:12]")}, way{"part", "n@ := " + lit(rng) + "\nn@ = append(n@, n@...)", vh.Pick(rng, "n@[0:]", "n@[0:0]")}, way{"part", "n@ := [32]byte{7: 1}", vh.Pick(rng, "n@[4:16]", "n@[20:]")}, way{"part", "", "garr[2:]"}, way{"part", "", "gnonce[1:]"},
				way{"filled otherwise", "n@ := make([]byte, 12)\n" + vh.Pick(rng, "_, _ = $io.ReadFull($strings.NewReader(`0123456789abcdef`), n@)", "_, _ = $io.ReadAtLeast($bytes.NewReader(n@), n@, 12)", "_, _ = $strings.NewReader(cnonce).Read(n@)", "_, _ = $mrand.Read(n@)", "_, _ = ownrand.Read(n@)", "_, _ = ownrand.Reader.Read(n@)", "_, _ = $io.ReadFull(ownrand.Reader, n@)", "use($crand.Reader)", "_, _ = $crand.Read(make([]byte, 12))", "_, _ = $io.ReadFull($crand.Reader, key())"), "n@"})
		}
		random := func(rng *rand.Rand) way {
			mk := vh.Pick(rng, "n@ := make([]byte, 12)", "n@ := make([]byte, num())", "n@ := make([]byte, 16)", "var n@ = make([]byte, 12)")
			fill := vh.Pick(rng, "$crand.Read(n@)", "_, _ = $crand.Read(n@)", "if _, e := $crand.Read(n@); e != nil {\n\tpanic(e)\n}", "_, _ = $io.ReadFull($crand.Reader, n@)", "if _, e := $io.ReadFull($crand.Reader, n@); e != nil {\n\tpanic(e)\n}", "_, _ = $crand.Reader.Read(n@)", "_, _ = $io.ReadAtLeast($crand.Reader, n@, 12)")
			return vh.Pick(rng, way{"filled", mk + "\n" + fill, "n@"}, way{"filled", mk + "\n" + fill, "n@"}, way{"filled array", "var n@ [16]byte\n" + strings.ReplaceAll(fill, "n@", "n@[:]"), "n@[:]"},
				way{"random helper", "", "randNonce()"}, way{"random helper", "n@ := randNonce2(12)", "n@"}, way{"random helper", "n@, _ := randNonce3()", "n@"}, way{"random closure", "", "func() []byte { b := make([]byte, 12); _, _ = $crand.Read(b); return b }()"})
		}
		r.Parallel(r.N(4000, 20000), func(i int, rng *rand.Rand) {
			f := vh.NewFile(rng, "p", "A")
			f.Twice = rng.Intn(4) == 0
			for k := 0; k < longer(i, 8); k++ {
				u := f.Uniq("v")
				bad := rng.Intn(2) == 0
				var w way
				if bad {
					w = fixed(rng)
				} else {
					w = random(rng)
				}
				entry := vh.Pick(rng, "gcm@.Seal(nil, %n, msg@, nil)", "gcm@.Seal(msg@[:0], %n, msg@, []byte(`ad`))", "$cipher.NewCBCEncrypter(blk@, %n)", "$cipher.NewCFBEncrypter(blk@, %n)", "$cipher.NewCTR(blk@, %n)", "$cipher.NewOFB(blk@, %n)")
				head := "blk@, _ := $aes.NewCipher(key())\ngcm@, _ := $cipher.NewGCM(blk@)\nmsg@ := []byte(`message`)\nuse(gcm@, msg@)\n"
				pre := w.pre
				if pre != "" {
					pre += "\n"
				}
				mark := ""
				if bad {
					mark = " //~ G407"
				}
				levels := rng.Intn(4)
				name := strings.TrimSuffix(strings.TrimPrefix(entry[:strings.Index(entry, "(")], "$"), "(")
				switch {
				case levels == 3:
					levels = 0
					fallthrough
				case levels == 0:
					body := head + pre + vh.Pick(rng, "use("+entry+")", "x@ := "+entry+mark+"\nuse(x@)")
					body = strings.ReplaceAll(body, "%n", w.x)
					if !strings.Contains(body, "//~") {
						body += mark
					}
					wrapSSA(f, strings.ReplaceAll(body, "@", u), rng.Intn(3))
				default:
					// the nonce is a parameter of one or two helpers
					inner := "func " + vh.Pick(rng, "helper@(p []byte)", "helper@(q int, p []byte)", "helper@(p, q []byte)") + " {\n" + head + "use(" + entry + ")\n}"
					args := func(x string) string {
						switch {
						case strings.Contains(inner, "(q int"):
							return "1, " + x
						case strings.Contains(inner, "(p, q"):
							return x + ", nil"
						}
						return x
					}
					f.Decl(strings.ReplaceAll(strings.ReplaceAll(inner, "%n", "p"), "@", u))
					call := "helper@(" + args(w.x) + ")"
					if levels == 2 {
						f.Decl(strings.ReplaceAll("func outer@(k string, p []byte) {\n\thelper@("+args("p")+")\n}", "@", u))
						call = "outer@(`k`, " + w.x + ")"
					}
					wrapSSA(f, strings.ReplaceAll(pre+call+mark, "@", u), rng.Intn(3))
				}
				r.Eval(w.name, name+"/"+w.pre+w.x+"/"+string(rune('0'+levels)), true)
			}
			if rng.Intn(2) == 0 { // other uses of fixed bytes
				wrapSSA(f, strings.ReplaceAll("blk@, _ := $aes.NewCipher([]byte(`0123456789abcdef`))\ngcm@, _ := $cipher.NewGCM(blk@)\nn@ := []byte(`fixed`)\n_, _ = gcm@.Open(nil, n@, n@, nil)\nuse($cipher.NewCBCDecrypter(blk@, n@), $cipher.NewCFBDecrypter(blk@, n@))\nuse(n@)\nfixedOnly(n@)\nsealer{}.Seal(nil, n@, n@, nil)\nvar o@ boxer = box{}\nuse(o@.Seal(nil, n@, n@, nil))\nownrand.NewCTR(blk@, n@)\nownrand.NewOFB(blk@, n@)", "@", f.Uniq("v")), 1)
				f.Decl("type boxer interface{ Seal(a, b, c, d []byte) []byte }\n\ntype box struct{}\n\nfunc (box) Seal(a, b, c, d []byte) []byte { return b }\n\nfunc (own) NewCTR(b $cipher.Block, n []byte) {}\n\nfunc (own) NewOFB(b $cipher.Block, n []byte) {}")
				f.Decl("type sealer struct{}\n\nfunc (sealer) Other(a, b, c, d []byte) {}\n\nfunc fixedOnly(n []byte) { use(n) }")
			}
			f.Decl("type own struct{ Reader $io.Reader }\n\nvar ownrand = own{$strings.NewReader(`x`)}\n\nfunc (own) Read(b []byte) (int, error) { return 0, nil }")
			f.Decl("const cnonce = `ILoveMyNonce`\n\nvar garr = [12]byte{1, 2}\n\nvar gnonce = []byte{1, 2, 3}\n\nvar gnonce2 = []byte(`abc`)\n\nfunc key() []byte { return nil }\n\nfunc str() string { return `x` }\n\nfunc fixedNonce() []byte { return []byte(`ILoveMyNonce`) }")
			f.Decl("func randNonce() []byte {\n\tb := make([]byte, 12)\n\tif _, err := $crand.Read(b); err != nil {\n\t\tpanic(err)\n\t}\n\treturn b\n}\n\nfunc randNonce2(n int) []byte {\n\tb := make([]byte, n)\n\t_, _ = $io.ReadFull($crand.Reader, b)\n\treturn b\n}\n\nfunc randNonce3() ([]byte, error) {\n\tb := make([]byte, 12)\n\t_, err := $crand.Read(b)\n\treturn b, err\n}")
			f.Decl(vh.Helpers)
			files := []vh.Src{{Name: "f0.go", Text: strings.ReplaceAll(f.Text(), "sealer{}.Seal(", "sealer{}.Other(")}}
			if i%200 == 11 {
				r.Sample(map[string]any{"expected": vh.Expected(files, nil), "program": files[0].Text})
			}
			markCheck(r, "nonce", "nonce", files, vh.Set("G407"), vh.Opts{NoRules: true, Include: []string{"G407"}})
		})
		r.Need("findings observed", 1000)
	}
}
