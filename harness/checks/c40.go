package checks

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mozilla/tls-observatory/constants"

	"verif/harness/vh"
)

// mozilla stands in for the service that publishes the recommendations: a
// proxy which ends every TLS connection itself and answers with the document
// chosen by the name the client gives to the proxy.
type mozilla struct {
	url  string // of the proxy, with a place for the name
	ca   string // file with its certificate
	mu   sync.Mutex
	docs map[string][]byte
	asks map[string][]string
}

func newMozilla(dir string) (*mozilla, error) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return nil, err
	}
	cert := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "stand-in"}, NotBefore: time.Unix(0, 0), NotAfter: time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		DNSNames: []string{"*.mozilla.org", "*.security.mozilla.org", "*.tls.security.mozilla.org", "mozilla.org", "*.github.io", "*.githubusercontent.com"},
	}
	der, err := x509.CreateCertificate(crand.Reader, cert, cert, &key.PublicKey, key)
	if err != nil {
		return nil, err
	}
	m := &mozilla{ca: filepath.Join(dir, "ca.pem"), docs: map[string][]byte{}, asks: map[string][]string{}}
	if err := os.WriteFile(m.ca, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600); err != nil {
		return nil, err
	}
	conf := &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	m.url = l.Addr().String()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		who := ""
		if a := q.Header.Get("Proxy-Authorization"); a != "" {
			r := &http.Request{Header: http.Header{"Authorization": {a}}}
			who, _, _ = r.BasicAuth()
		}
		m.mu.Lock()
		m.asks[who] = append(m.asks[who], q.Method+" "+q.Host)
		doc := m.docs[who]
		m.mu.Unlock()
		if q.Method != http.MethodConnect {
			w.Write(doc)
			return
		}
		c, _, err := w.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer c.Close()
		io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
		t := tls.Server(c, conf)
		defer t.Close()
		c.SetDeadline(time.Now().Add(20 * time.Second))
		b := make([]byte, 1)
		var head []byte
		for !bytes.HasSuffix(head, []byte("\r\n\r\n")) && len(head) < 1<<16 {
			if _, err := t.Read(b); err != nil {
				return
			}
			head = append(head, b[0])
		}
		if doc == nil {
			return // the connection breaks
		}
		fmt.Fprintf(t, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\nConnection: close\r\n\r\n", len(doc))
		t.Write(doc)
	}))
	return m, nil
}

// generatedConf is what a generated constructor says.
type generatedConf struct {
	ciphers  []string
	min, max int64
}

// readGenerated finds the constructors in a generated file.
func readGenerated(text []byte, pkg string) (map[string]generatedConf, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "tls_config.go", text, 0)
	if err != nil {
		return nil, err
	}
	if f.Name.Name != pkg {
		return nil, fmt.Errorf("package %s instead of %s", f.Name.Name, pkg)
	}
	res := map[string]generatedConf{}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		var c generatedConf
		ast.Inspect(fn, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CompositeLit:
				if a, ok := x.Type.(*ast.ArrayType); ok {
					if id, ok := a.Elt.(*ast.Ident); ok && id.Name == "string" {
						for _, e := range x.Elts {
							if l, ok := e.(*ast.BasicLit); ok {
								s, _ := strconv.Unquote(l.Value)
								c.ciphers = append(c.ciphers, s)
							}
						}
					}
				}
			case *ast.KeyValueExpr:
				k, _ := x.Key.(*ast.Ident)
				l, _ := x.Value.(*ast.BasicLit)
				if k != nil && l != nil && l.Kind == token.INT {
					v, _ := strconv.ParseInt(l.Value, 0, 64)
					switch strings.ToLower(k.Name) {
					case "minversion":
						c.min = v
					case "maxversion":
						c.max = v
					}
				}
			}
			return true
		})
		sort.Strings(c.ciphers)
		if _, twice := res[fn.Name.Name]; twice {
			return nil, fmt.Errorf("%s is declared twice", fn.Name.Name)
		}
		res[fn.Name.Name] = c
	}
	return res, nil
}

func init() {
	All["C40"] = func(r *vh.Run) {
		r.Rule("the tlsconfig command is built and fetches documents of recommendations from a stand-in (a proxy with a certificate of its own): random cipher suites, ciphers in OpenSSL's names and unknown ones, TLS versions in any order with unknown ones, further configurations, missing parts, broken documents and connections; the written file is parsed and has to have the three constructors with exactly the recommended ciphers and version bounds, or there is a failure and no file; non-trivial: the document is complete")
		m, err := newMozilla(r.Tmp)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		var known []string
		for n := range constants.CipherSuites {
			known = append(known, n)
		}
		sort.Strings(known)
		versions := map[string]int64{"TLSv1": tls.VersionTLS10, "TLSv1.1": tls.VersionTLS11, "TLSv1.2": tls.VersionTLS12, "TLSv1.3": tls.VersionTLS13}
		r.Parallel(r.N(250, 3000), func(i int, rng *rand.Rand) {
			type conf map[string]any
			confs := map[string]any{}
			want := map[string]generatedConf{}
			fails := false
			for _, name := range []string{"modern", "intermediate", "old"} {
				if rng.Intn(25) == 0 {
					fails = true
					continue
				}
				var g generatedConf
				var suites, ciphers, vs []string
				seen := map[string]bool{}
				for _, s := range []string{"TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_NEW_SUITE_" + strconv.Itoa(rng.Intn(100))} {
					if rng.Intn(2) == 0 {
						suites = append(suites, s)
						g.ciphers = append(g.ciphers, s)
						seen[s] = true
					}
				}
				for n := rng.Intn(20); n > 0; n-- {
					c := vh.Pick(rng, known...)
					if rng.Intn(8) == 0 {
						c = "UNKNOWN-" + strconv.Itoa(rng.Intn(100))
					}
					s := constants.CipherSuites[c]
					if seen[c] || s.IANAName != "" && seen[s.IANAName] || s.NSSName != "" && seen[s.NSSName] {
						continue
					}
					seen[c], seen[s.IANAName], seen[s.NSSName] = true, true, true
					ciphers = append(ciphers, c)
					if s.IANAName != "" {
						g.ciphers = append(g.ciphers, s.IANAName)
						if s.NSSName != "" && s.NSSName != s.IANAName {
							g.ciphers = append(g.ciphers, s.NSSName)
							r.Count("ciphers of two names", 1)
						}
					}
				}
				for _, v := range []string{"TLSv1", "TLSv1.1", "TLSv1.2", "TLSv1.3", "SSLv3", "TLSv1.4", "tlsv1.2"} {
					if rng.Intn(2) == 0 {
						vs = append(vs, v)
						if x := versions[v]; x != 0 {
							if g.min == 0 || x < g.min {
								g.min = x
							}
							if x > g.max {
								g.max = x
							}
						}
					}
				}
				if g.min == 0 && rng.Intn(4) > 0 {
					vs = append(vs, "TLSv1.2")
					g.min, g.max = tls.VersionTLS12, tls.VersionTLS12
				}
				fails = fails || g.min == 0
				rng.Shuffle(len(vs), func(a, b int) { vs[a], vs[b] = vs[b], vs[a] })
				sort.Strings(g.ciphers)
				confs[name] = conf{"openssl_ciphersuites": suites, "openssl_ciphers": ciphers, "tls_versions": vs, "tls_curves": []string{"X25519"}, "rsa_key_size": 2048, "ocsp_staple": rng.Intn(2) == 0, "unknown": map[string]int{"a": 1}}
				want["New"+strings.ToUpper(name[:1])+name[1:]+"TLSCheck"] = g
			}
			if rng.Intn(3) == 0 {
				confs[vh.Pick(rng, "future", "Modern", "obsolete")] = conf{"openssl_ciphers": []string{known[rng.Intn(len(known))]}, "tls_versions": []string{"TLSv1"}}
			}
			doc, _ := json.Marshal(map[string]any{"href": "x", "configurations": confs, "version": 5.0 + float64(rng.Intn(30))/10})
			kind := "complete"
			if fails {
				kind = "incomplete"
			}
			switch rng.Intn(20) {
			case 0:
				doc, kind = []byte(vh.Pick(rng, "", "<html></html>", "[]", `{"configurations": 1}`, `{"configurations": {"modern": []}}`)), "broken"
			case 1:
				doc, kind = doc[:rng.Intn(len(doc)-1)], "cut off"
			case 2:
				doc, kind = nil, "no answer"
			}
			who := fmt.Sprintf("u%d", i)
			m.mu.Lock()
			m.docs[who] = doc
			m.mu.Unlock()
			dir := env(r).Dir()
			defer os.RemoveAll(dir)
			out, pkg, name := filepath.Join(dir, "out"), "rules", "tls_config.go"
			work := filepath.Join(dir, "work")
			os.MkdirAll(out, 0o755)
			os.MkdirAll(work, 0o755)
			var args []string
			if rng.Intn(2) == 0 {
				pkg = vh.Pick(rng, "main", "other", "rules")
				args = append(args, "-pkg="+pkg)
			}
			if rng.Intn(2) == 0 {
				name = vh.Pick(rng, "x.go", "generated.go")
				args = append(args, "-outputFile", name)
			}
			to := work
			if rng.Intn(3) > 0 {
				to = out
				args = append(args, vh.Pick(rng, out, "../out"))
			}
			old := "// old\n" + strings.Repeat("x", rng.Intn(2)*20000)
			before := rng.Intn(3) == 0
			if before {
				os.WriteFile(filepath.Join(to, name), []byte(old), 0o644)
			}
			cmd := exec.Command(os.Getenv("VH_TOOL"), args...)
			cmd.Dir = work
			cmd.Env = append(os.Environ(), "HTTPS_PROXY=http://"+who+":x@"+m.url, "https_proxy=", "HTTP_PROXY=", "NO_PROXY=", "no_proxy=", "SSL_CERT_FILE="+m.ca)
			var eb bytes.Buffer
			cmd.Stderr, cmd.Stdout = &eb, &eb
			err := cmd.Run()
			m.mu.Lock()
			asked := len(m.asks[who])
			m.mu.Unlock()
			if asked == 0 {
				// what the document says is out of reach
				r.Inconclusive("the command did not use the stand-in: %s", eb.String())
				return
			}
			r.Eval(kind, string(doc), kind == "complete")
			fail := func(what, f string, a ...any) {
				r.Violation("tlsconfig/"+what, fmt.Sprintf("tlsconfig %v with a document that is %s: %s\n%s", args, kind, fmt.Sprintf(f, a...), eb.String()), map[string]string{"document.json": string(doc)})
			}
			made := map[string]string{}
			for _, d := range []string{out, work} {
				es, _ := os.ReadDir(d)
				for _, e := range es {
					b, _ := os.ReadFile(filepath.Join(d, e.Name()))
					made[filepath.Join(d, e.Name())] = string(b)
				}
			}
			target := filepath.Join(to, name)
			text, there := made[target]
			delete(made, target)
			if len(made) > 0 {
				fail("files", "other files were written: %v", made)
			}
			if kind != "complete" {
				if err == nil {
					fail("failure", "the command succeeds")
				}
				if there != before || before && text != old {
					fail("failure", "a file was written in spite of the failure")
				}
				return
			}
			if err != nil || !there {
				fail("success", "no file: %v", err)
				return
			}
			got, err := readGenerated([]byte(text), pkg)
			if err != nil {
				fail("file", "%v in %s", err, text)
				return
			}
			for n, w := range want {
				g, ok := got[n]
				if !ok {
					fail("constructor", "%s is missing", n)
					continue
				}
				r.Count("configurations compared", 1)
				if g.min != w.min || g.max != w.max {
					fail("versions", "%s: versions %#x-%#x instead of %#x-%#x", n, g.min, g.max, w.min, w.max)
				}
				if missing, extra := vh.Diff(w.ciphers, g.ciphers); len(missing)+len(extra) > 0 {
					fail("ciphers", "%s: ciphers missing: %v, not recommended: %v", n, missing, extra)
				}
				delete(got, n)
			}
			if len(got) > 0 {
				fail("constructor", "further functions: %v", got)
			}
			if i%31 == 2 {
				r.Sample(map[string]any{"args": args, "document": string(doc), "constructors": want})
			}
		})
		r.Need("configurations compared", 300)
	}
}
