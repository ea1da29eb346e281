package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/vh"
)

var tlsSuites = map[string]bool{ // name -> allowed
	"TLS_RSA_WITH_RC4_128_SHA": false, "TLS_RSA_WITH_3DES_EDE_CBC_SHA": false, "TLS_RSA_WITH_AES_128_CBC_SHA": false, "TLS_RSA_WITH_AES_256_CBC_SHA": false,
	"TLS_RSA_WITH_AES_128_CBC_SHA256": false, "TLS_RSA_WITH_AES_128_GCM_SHA256": false, "TLS_RSA_WITH_AES_256_GCM_SHA384": false,
	"TLS_ECDHE_ECDSA_WITH_RC4_128_SHA": false, "TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA": false, "TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA": false,
	"TLS_ECDHE_RSA_WITH_RC4_128_SHA": false, "TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA": false, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA": false, "TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA": false,
	"TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256": false, "TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256": false, "TLS_FALLBACK_SCSV": false,
	"TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256": true, "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256": true, "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384": true, "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384": true,
	"TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256": true, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256": true, "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305": true, "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305": true,
	"TLS_AES_128_GCM_SHA256": true, "TLS_AES_256_GCM_SHA384": true, "TLS_CHACHA20_POLY1305_SHA256": true,
}

var tlsVersions = []struct {
	expr string
	v    int
}{
	{"$tls.VersionSSL30", 0x300}, {"$tls.VersionTLS10", 0x301}, {"$tls.VersionTLS11", 0x302}, {"$tls.VersionTLS12", 0x303}, {"$tls.VersionTLS13", 0x304},
	{"0x0301", 0x301}, {"0x0302", 0x302}, {"0x0303", 0x303}, {"0x0304", 0x304}, {"771", 0x303}, {"770", 0x302}, {"0o1404", 0x304},
	{"cTLS10", 0x301}, {"cTLS12", 0x303}, {"cTLS13", 0x304}, {"vTLS11", 0x302}, {"vTLS12", 0x303}, {"vTLS13", 0x304}, {"dA", 0x302}, {"dB", 0x303}, {"dC", 0x304}, {"eA", 0x301}, {"eB", 0x304},
	{"uint16(0x0303)", 0x303}, {"($tls.VersionTLS12)", 0x303}, {"$tls.VersionTLS10 + 2", 0x303},
	// not known
	{"uA", 0}, {"uB", 0}, {"uC", 0}, {"second()", 0}, {"known.v", 0}, {"func() uint16 { return 0x0304 }()", 0},
}

const tlsDecls = `const cTLS10 = $tls.VersionTLS10

const cTLS12, cTLS13 uint16 = $tls.VersionTLS12, 0x0304

var vTLS11 uint16 = $tls.VersionTLS11

var (
	vTLS12 uint16 = 0x0303
	vTLS13 = uint16($tls.VersionTLS13)
)

const (
	dA = iota + $tls.VersionTLS11
	dB
	dC
)

var eA, eB uint16 = 0x0301, $tls.VersionTLS13

var shadowA, shadowB, shadowC uint16 = 0x0304, 0x0301, 0x0300

var uA, uB = versions()

var uC uint16

var known struct{ v uint16 }

func versions() (uint16, uint16) { return 0x0303, 0x0304 }

func second() uint16 { return uB }

type cfgAlias = $tls.Config

var pointer *$tls.Config
`

// tlsLit is one configuration: its text with marks on the lines where a
// finding belongs, and whether it is insecure.
func tlsLit(rng *rand.Rand) (fields []string, marks []string, bad map[string]bool) {
	bad = map[string]bool{}
	type fld struct{ text, tag string }
	var fs []fld
	minv, maxv := 0, 0
	safeBias := rng.Intn(3) > 0
	if rng.Intn(5) > 0 {
		for {
			v := vh.PickS(rng, tlsVersions)
			if safeBias && v.v < 0x303 && rng.Intn(6) > 0 {
				continue
			}
			fs = append(fs, fld{"MinVersion: " + v.expr, ""})
			minv = v.v
			break
		}
	}
	if rng.Intn(3) == 0 {
		for {
			v := vh.PickS(rng, tlsVersions)
			if safeBias && v.v < 0x304 && rng.Intn(6) > 0 {
				continue
			}
			if v.expr == "$tls.VersionSSL30" || v.v == 0 {
				continue
			}
			fs = append(fs, fld{"MaxVersion: " + v.expr, ""})
			maxv = v.v
			break
		}
	}
	if rng.Intn(3) == 0 {
		switch rng.Intn(6) {
		case 0:
			fs = append(fs, fld{"InsecureSkipVerify: true", "verify"})
		case 1:
			fs = append(fs, fld{"InsecureSkipVerify: cond()", "verify"})
		case 2:
			fs = append(fs, fld{"InsecureSkipVerify: !cond()", "verify"})
		default:
			fs = append(fs, fld{"InsecureSkipVerify: false", ""})
		}
	}
	if rng.Intn(3) == 0 {
		switch rng.Intn(6) {
		case 0:
			fs = append(fs, fld{"PreferServerCipherSuites: false", "prefer"})
		case 1:
			fs = append(fs, fld{"PreferServerCipherSuites: num() > 3", "prefer"})
		default:
			fs = append(fs, fld{"PreferServerCipherSuites: true", ""})
		}
	}
	if rng.Intn(3) == 0 {
		var names []string
		for _, n := range sortedKeys(tlsSuites) {
			if tlsSuites[n] || !safeBias || rng.Intn(16) == 0 {
				names = append(names, n)
			}
		}
		rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		names = names[:min(len(names), vh.Pick(rng, 1+rng.Intn(5), 1+rng.Intn(5), 1+rng.Intn(30)))]
		if rng.Intn(5) == 0 {
			// after many safe ones
			var safe []string
			for _, n := range sortedKeys(tlsSuites) {
				if tlsSuites[n] {
					safe = append(safe, n)
				}
			}
			for k := rng.Intn(70); k > 0; k-- {
				names = append([]string{vh.PickS(rng, safe)}, names...)
			}
		}
		tag := ""
		var xs []string
		for _, n := range names {
			if !tlsSuites[n] {
				tag = "cipher"
			}
			xs = append(xs, "$tls."+n)
		}
		fs = append(fs, fld{"CipherSuites: []uint16{" + strings.Join(xs, ", ") + "}", tag})
	}
	for _, o := range []string{"ServerName: `example.com`", "NextProtos: []string{`h2`}", "ClientAuth: $tls.NoClientCert", "SessionTicketsDisabled: true", "KeyLogWriter: nil"} {
		if rng.Intn(6) == 0 {
			fs = append(fs, fld{o, ""})
		}
	}
	rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	for _, f := range fs {
		fields = append(fields, f.text)
		marks = append(marks, f.tag)
		if f.tag != "" {
			bad[f.tag] = true
		}
	}
	switch {
	case minv < 0x303:
		bad["min"] = true
	case maxv != 0 && maxv < 0x304:
		bad["max"] = true
	}
	return
}

// what part of the message names a setting.
var tlsMsg = map[string]string{"verify": "InsecureSkipVerify", "prefer": "PreferServerCipherSuites", "cipher": "Cipher Suite", "min": "MinVersion", "max": "MaxVersion"}

func init() {
	All["C07"] = func(r *vh.Run) {
		r.Rule("random tls.Config literals (fields in any order, versions as constants, literals, variables, all cipher suites of crypto/tls), many per program, in all literal forms; oracle: the set of insecure settings computed from the generated values; every configuration is judged within its program and alone; non-trivial: distinct literal texts")
		forms := []string{
			"c@ := &$tls.Config{%%}\nuse(c@)", "c@ := $tls.Config{%%}\nuse(&c@)", "use(&$http.Transport{TLSClientConfig: &$tls.Config{%%}})",
			"var c@ = $tls.Config{%%}\nuse(&c@)", "use($tls.Dial(`tcp`, `a:1`, &$tls.Config{%%}))", "use([]$tls.Config{{%%}})", "use([]*$tls.Config{{%%}})",
			"use(map[string]*$tls.Config{`a`: {%%}})", "use(&cfgAlias{%%})", "use(struct{ c *$tls.Config }{&$tls.Config{%%}})", "use(func() *$tls.Config { return &$tls.Config{%%} })",
			"use([...]$tls.Config{2: {%%}})",
		}
		r.Parallel(r.N(2700, 20000), func(i int, rng *rand.Rand) {
			f := vh.NewFile(rng, "p", "A")
			type lit struct {
				id  int
				bad map[string]bool
				txt string
			}
			var lits []lit
			nl := longer(i, 1+rng.Intn(8))
			for k := 0; k < nl; k++ {
				fields, marks, bad := tlsLit(rng)
				form := vh.PickS(rng, forms)
				var body string
				if rng.Intn(2) == 0 || len(fields) == 0 {
					body = strings.Join(fields, ", ")
				} else {
					body = "\n"
					for j, x := range fields {
						m := ""
						if marks[j] != "" {
							m = " // " + fmt.Sprintf("lit%d_", k) + marks[j]
						}
						body += x + "," + m + "\n"
					}
				}
				txt := strings.Replace(strings.ReplaceAll(form, "@", f.Uniq("c")), "%%", body, 1)
				if rng.Intn(2) == 0 && strings.Contains(txt, "vTLS1") {
					// local variables with the names of others
					txt = "{\nvar shadowA, shadowB, shadowC uint16 = 0x0302, $tls.VersionTLS12, 0x0304\nuse(shadowA, shadowB, shadowC)\n" + strings.NewReplacer("vTLS11", "shadowA", "vTLS12", "shadowB", "vTLS13", "shadowC").Replace(txt) + "\n}"
				}
				f.Wrap(fmt.Sprintf("// lit%d_begin\n", k)+txt+fmt.Sprintf("\n// lit%d_end", k), rng.Intn(3))
				lits = append(lits, lit{k, bad, txt})
				r.Eval(fmt.Sprintf("configuration with %d insecure settings", len(bad)), txt, true)
			}
			// look-alikes and assignments
			f.Decl("type Config struct {\n\tInsecureSkipVerify, PreferServerCipherSuites bool\n\tMinVersion, MaxVersion uint16\n}\n\nvar other = []Config{{InsecureSkipVerify: true}, {MinVersion: 0x0301, MaxVersion: 0x301}}\n\nfunc init() {\n\tother[0].InsecureSkipVerify = true\n}")
			assigns := []struct{ stmt, tag string }{
				{"a@.InsecureSkipVerify = true", "verify"}, {"a@.InsecureSkipVerify = false", ""}, {"a@.PreferServerCipherSuites = false", "prefer"}, {"a@.PreferServerCipherSuites = true", ""},
				{"a@.CipherSuites = []uint16{$tls.TLS_RSA_WITH_RC4_128_SHA}", "cipher"}, {"a@.CipherSuites = []uint16{$tls.TLS_AES_128_GCM_SHA256}", ""}, {"a@.ServerName = `x`", ""},
				{"a@.MinVersion = $tls.VersionTLS13", ""}, {"a@.MaxVersion = $tls.VersionTLS13", ""},
			}
			type as struct{ tag string }
			var asg []as
			for k := 0; k < rng.Intn(4); k++ {
				a := vh.PickS(rng, assigns)
				decl := vh.Pick(rng, "var a@ $tls.Config", "a@ := new($tls.Config)", "a@ := pointer", "a@ := *pointer", "var a@ cfgAlias", "var a@ *cfgAlias", "for _, a@ := range []*$tls.Config{pointer} {")
				end := ""
				if strings.HasPrefix(decl, "for") {
					end = "\n}"
				}
				stmt := a.stmt
				if rng.Intn(4) == 0 {
					// through a field
					decl, end = vh.Pick(rng, "a@ := struct{ c *$tls.Config }{pointer}", "a@ := &struct{ c $tls.Config }{}"), ""
					stmt = strings.ReplaceAll(stmt, "a@", "a@.c")
				}
				f.Wrap(strings.ReplaceAll(fmt.Sprintf("%s\n%s // asg%d_\nuse(&a@)%s", decl, stmt, k, end), "@", f.Uniq("v")), rng.Intn(3))
				asg = append(asg, as{a.tag})
			}
			f.Decl(tlsDecls)
			f.Decl(vh.Helpers)
			files := []vh.Src{{Name: "f0.go", Text: f.Text()}}
			l := loadOrDie(r, files)
			res := vh.Scan(vh.Opts{NoAnalyzers: true, Include: []string{"G402"}}, l)
			l.Remove()
			if res.Panic != "" {
				r.Violation("panic", res.Panic, vh.SrcMap(files))
				return
			}
			src := strings.Split(files[0].Text, "\n")
			where := func(mark string) int {
				for n, s := range src {
					if strings.Contains(s, mark) {
						return n + 1
					}
				}
				return 0
			}
			explained := map[int]bool{}
			if i%120 == 4 {
				r.Sample(map[string]any{"configuration": lits[0].txt, "insecure": lits[0].bad})
			}
			for _, x := range lits {
				b, e := where(fmt.Sprintf("lit%d_begin", x.id)), where(fmt.Sprintf("lit%d_end", x.id))
				n := 0
				for j, is := range res.Issues {
					ln := vh.Line(is)
					if ln < b || ln > e {
						continue
					}
					explained[j] = true
					n++
					ok := false
					for tag := range x.bad {
						if strings.Contains(is.What, tlsMsg[tag]) {
							ok = true
							if at := where(fmt.Sprintf("lit%d_%s", x.id, tag)); at != 0 && at != ln {
								r.Violation("line/"+tag, fmt.Sprintf("finding %q is on line %d, the setting on line %d\n%s", is.What, ln, at, x.txt), vh.SrcMap(files))
							}
						}
					}
					if !ok {
						r.Violation("false/"+is.What, fmt.Sprintf("finding %q for a configuration whose insecure settings are %v:\n%s", is.What, x.bad, x.txt), vh.SrcMap(files))
					}
				}
				if len(x.bad) > 0 && n == 0 {
					r.Violation(fmt.Sprintf("missed/%v", x.bad), fmt.Sprintf("no finding for a configuration with insecure settings %v:\n%s", x.bad, x.txt), vh.SrcMap(files))
				}
				if n > 1 {
					r.Violation("twice", fmt.Sprintf("%d findings for one configuration:\n%s", n, x.txt), vh.SrcMap(files))
				}
				r.Count("configuration findings", int64(n))
			}
			for k, a := range asg {
				at := where(fmt.Sprintf("asg%d_", k))
				n := 0
				for j, is := range res.Issues {
					if vh.Line(is) == at {
						explained[j] = true
						n++
					}
				}
				r.Eval("assignment", src[at-1], true)
				if (n == 1) != (a.tag != "") || n > 1 {
					r.Violation("assign/"+strings.TrimSpace(src[at-1]), fmt.Sprintf("assignment reported %d times: %s", n, src[at-1]), vh.SrcMap(files))
				}
			}
			for j, is := range res.Issues {
				if !explained[j] {
					r.Violation("stray", fmt.Sprintf("finding on line %d, where no TLS configuration is: %s\n%s", vh.Line(is), is.What, src[vh.Line(is)-1]), vh.SrcMap(files))
				}
			}
		})
		r.Need("configuration findings", 500)
		r.Need("configuration with 0 insecure settings", 200)
	}
}
