TLSTEST='''
package main

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

type answer string

func (a answer) RoundTrip(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(string(a)))}, nil
}

func conf(t *testing.T, doc string) goTLSConfiguration {
	http.DefaultTransport = answer(doc)
	http.DefaultClient.Transport = answer(doc)
	c, err := getGoTLSConf()
	if err != nil {
		t.Fatal(err)
	}
	return c
}

const one = `{"openssl_ciphersuites":%%S,"openssl_ciphers":%%C,"tls_versions":%%V}`

func doc(suites, ciphers, versions string) string {
	x := strings.NewReplacer("%%S", suites, "%%C", ciphers, "%%V", versions).Replace(one)
	return `{"configurations":{"modern":` + x + `,"intermediate":` + x + `,"old":` + x + `}}`
}

func TestDemo(t *testing.T) {
BODY
}
'''
def tls(body): return TLSTEST.replace("BODY", body)
S("c40-first-last", "C40",
 [("cmd/tlsconfig/tls_version.go", "	sort.Ints(versions)\n	return versions\n", "	if len(versions) > 1 && versions[0] > versions[len(versions)-1] {\n		sort.Ints(versions) // listed from the newest to the oldest\n	}\n	return versions\n")],
 "gotest cmd/tlsconfig demo_test.go\n", "versions listed in an order that is neither rising nor falling", "the bounds are not the lowest and highest version",
 demo_test_go=tls('''	c := conf(t, doc("[]", "[]", `["TLSv1.1","TLSv1.3","TLSv1.2"]`)).cipherConfigs[0]
	if c.MinVersion != "0x0302" || c.MaxVersion != "0x0304" {
		t.Errorf("%s-%s", c.MinVersion, c.MaxVersion)
	}'''))
S("c40-nss", "C40",
 [("cmd/tlsconfig/tlsconfig.go", "				cipherConf.Ciphers = append(cipherConf.Ciphers, cipherSuite.NSSName)\n", "				cipherConf.Ciphers[len(cipherConf.Ciphers)-1] = cipherSuite.NSSName\n")],
 "gotest cmd/tlsconfig demo_test.go\n", "a cipher whose NSS name differs from the IANA name", "the IANA name is missing from the accepted ciphers",
 demo_test_go=tls('''	c := conf(t, doc("[]", `["ECDHE-ECDSA-CHACHA20-POLY1305"]`, `["TLSv1.2"]`)).cipherConfigs[0]
	if got := strings.Join(c.Ciphers, " "); got != "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305 TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256" {
		t.Error(got)
	}'''))
S("c40-unknown-stops", "C40",
 [("cmd/tlsconfig/tlsconfig.go", "			log.Printf(\"'%s' cipher is not available in crypto/tls package\\n\", cipherName)\n", "			log.Printf(\"'%s' cipher is not available in the crypto/tls package\\n\", cipherName)\n			break\n")],
 "gotest cmd/tlsconfig demo_test.go\n", "an unknown cipher before known ones", "those after it are left out",
 demo_test_go=tls('''	c := conf(t, doc("[]", `["UNKNOWN-1","ECDHE-ECDSA-AES128-GCM-SHA256"]`, `["TLSv1.2"]`)).cipherConfigs[0]
	if got := strings.Join(c.Ciphers, " "); got != "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256" {
		t.Error(got)
	}'''))
S("c41-repeated-idents", "C41",
 [("cmd/gosecutil/tools.go", "		for ident, obj := range context.info.Uses {\n			fmt.Printf(\"IDENT: %v, OBJECT: %v\\n\", ident, obj)\n", "		seen := map[string]bool{}\n		for ident, obj := range context.info.Uses {\n			line := fmt.Sprintf(\"IDENT: %v, OBJECT: %v\\n\", ident, obj)\n			if obj.Pkg() != nil && seen[line] {\n				continue\n			}\n			seen[line] = true\n			fmt.Print(line)\n")],
 '''go build -o "$D/u" ./cmd/gosecutil || exit 3
printf 'package a\\n\\nvar x = 1\\n\\nfunc f() int { return x + x }\\n' > "$D/a.go"
expect "uses" "$("$D/u" -tool uses "$D/a.go" | sort)" "IDENT: int, OBJECT: type int
IDENT: x, OBJECT: var main.go.x int
IDENT: x, OBJECT: var main.go.x int"
''', "an object of a package used more than once", "only one use is listed")
S("c41-directory", "C41",
 [("cmd/gosecutil/tools.go", "		for _, group := range context.comments.Comments() {\n", "		for _, group := range context.comments[context.root] {\n")],
 '''go build -o "$D/u" ./cmd/gosecutil || exit 3
printf '// Package a\\npackage a\\n\\n// x is one\\nvar x = 1\\n' > "$D/a.go"
expect "comments" "$("$D/u" -tool comments "$D/a.go" | grep .)" "Package a
x is one"
''', "comments of declarations", "only those of the file as a whole are listed")
HELP='''
package gosec

import (
	"go/ast"
	"go/parser"
	"testing"
)

func expr(t *testing.T, s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		t.Fatal(err)
	}
	return e
}

func TestDemo(t *testing.T) {
BODY
}
'''
S("c42-octal", "C42",
 [("helpers.go", "		return strconv.ParseInt(node.Value, 0, 64)\n", "		value, err := strconv.ParseUint(node.Value, 0, 64)\n		return int64(value), err\n")],
 "gotest . demo_test.go\n", "an integer literal between 1<<63 and 1<<64", "it is read as a negative number",
 demo_test_go=HELP.replace("BODY", '''	if v, err := GetInt(expr(t, "0xffffffffffffffff")); err == nil {
		t.Errorf("%d", v)
	}'''))
S("c42-right-operand", "C42",
 [("helpers.go", "			traverse(rhs)\n", "			if rhs.Op == be.Op && rhs != be.Y {\n				result = append(result, rhs)\n			} else {\n				traverse(rhs)\n			}\n")],
 "gotest . demo_test.go\n", "an expression in parentheses with the operator of the one around it", "it is one operand instead of several",
 demo_test_go=HELP.replace("BODY", '''	if n := len(GetBinaryExprOperands(expr(t, `a + (b + c)`).(*ast.BinaryExpr))); n != 3 {
		t.Errorf("%d", n)
	}'''))
S("c42-raw-string", "C42",
 [("helpers.go", "		return strconv.Unquote(node.Value)\n	}\n\n	return \"\", fmt.Errorf(", "		value, err := strconv.Unquote(node.Value)\n		if node.Value[0] == '`' {\n			value = strings.TrimSpace(value)\n		}\n		return value, err\n	}\n\n	return \"\", fmt.Errorf(")],
 "gotest . demo_test.go\n", "a raw string that begins or ends with white space", "its value is shortened",
 demo_test_go=HELP.replace("BODY", '''	if s, err := GetString(expr(t, "` x\\\\n`")); err != nil || s != ` x\\n` {
		t.Errorf("%q %v", s, err)
	}'''))
S("c42-star", "C42",
 [("call_list.go", "		s := strings.TrimPrefix(selector, \"*\")\n", "		s := strings.TrimLeft(selector, \"*\")\n")],
 "gotest . demo_test.go\n", "a pointer to a pointer", "it counts as a pointer to the type in the list",
 demo_test_go=HELP.replace("BODY", '''	_ = expr
	c := NewCallList()
	c.Add("a.B", "M")
	if c.ContainsPointer("**a.B", "M") {
		t.Error("contained")
	}'''))
S("c42-args", "C42",
 [("helpers.go", "				values = append(values, GetIdentStringValues(param)...)\n", "				if found := GetIdentStringValues(param); len(found) > 0 {\n					values = append(found, values...)\n				}\n")],
 "gotest . demo_test.go\n", "texts among the arguments of which one is a variable after a literal", "they are given in another order",
 demo_test_go=HELP.replace('"go/parser"', '"go/parser"\n	"go/token"\n	"strings"').replace("BODY", '''	_ = expr
	f, err := parser.ParseFile(token.NewFileSet(), "a.go", "package a\\n\\nfunc f() { v := \\"v\\"; g(\\"l\\", v) }\\n", 0)
	if err != nil {
		t.Fatal(err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if got := strings.Join(GetCallStringArgsValues(c, nil), ","); got != "l,v" {
				t.Error(got)
			}
		}
		return true
	})'''))
