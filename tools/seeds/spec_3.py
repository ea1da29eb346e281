S("c04-large-function", "C04",
 [("analyzers/conversion_overflow.go", "		for _, block := range mcall.DomPreorder() {\n", "		blocks := mcall.DomPreorder()\n		for _, block := range blocks[:min(len(blocks), 100)] {\n")],
 '''build
{ echo "package m"; echo; echo "func F(a int64, b bool) (n int8) {"
for i in $(seq 60); do printf '\tif b {\n\t\tn++\n\t}\n'; done
printf '\treturn n + int8(a)\n}\n'; } | file a.go
expect "findings" "$(rows -include=G115)" "a.go:184 G115"
''', "a conversion in a function with more than 100 basic blocks", "conversions behind the first 100 basic blocks of a function are not reported")
S("c06-whole", "C06",
 [("analyzers/slice_bounds.go", "	return (l <= cl && h >= ch) && (l <= ch && h >= cl)\n", "	return (l <= cl && h >= ch) && (l <= ch && h > cl)\n")],
 '''build
file a.go <<'X'
package m

func F() []int {
	s := make([]int, 4)
	return s[4:]
}
X
expect "findings" "$(rows -include=G602)" ""
''', "a slice re-sliced from exactly its length", "an access which does not panic is reported")
S("c06-high-zero", "C06",
 [("analyzers/slice_bounds.go", "	return h - l\n}", "	return h\n}")],
 '''build
file a.go <<'X'
package m

func F() int {
	s := make([]int, 10)
	t := s[3:6]
	return t[4]
}
X
expect "findings" "$(rows -include=G602)" "a.go:6 G602"
''', "an index into a slice taken with both bounds, between its length and the upper bound", "such an access is not reported")
S("c10-cleaned-limit", "C10",
 [("rules/readfile.go", "			if ident.Obj != nil {\n", "			if ident.Obj != nil && ident.Obj.Pos().IsValid() && len(r.cleanedVar) < 16 {\n")],
 '''build
{ echo "package m"; echo; echo 'import ("os"; "path/filepath")'; echo "func F(p string) {"
for i in $(seq 20); do printf '\tfilepath.Clean(p%d)\n' $i; done | sed 's/p\\([0-9]*\\))/os.Getenv("X"))/' >/dev/null
for i in $(seq 20); do printf '\tp%d := os.Getenv("A")\n\tp%d = filepath.Clean(p%d)\n\tos.Open(p%d)\n' $i $i $i $i; done
echo "}"; } | file a.go
expect "findings" "$(rows -include=G304)" ""
''', "more than 16 cleaned path variables in one package", "the later ones are reported although they have been cleaned")
S("c19-cgo-tests", "C19",
 [("analyzer.go", "		testsFiles = append(testsFiles, basePackage.XTestGoFiles...)\n", "		if len(basePackage.TestGoFiles) == 0 {\n			testsFiles = append(testsFiles, basePackage.XTestGoFiles...)\n		}\n")],
 '''build
file p/a.go <<'X'
package p
X
file p/a_test.go <<'X'
package p

import "crypto/md5"

var A = md5.New()
X
file p/b_test.go <<'X'
package p_test

import "crypto/md5"

var A = md5.New()
X
expect "findings" "$(rows -tests -include=G401)" "p/a_test.go:5 G401
p/b_test.go:5 G401"
''', "a package with internal and external test files, scanned with its tests", "external test files are not scanned")
S("c14-general-wins", "C14",
 [("analyzer.go", "		if len(matches) == 0 {\n			ignores[aliasOfAllRules] = suppression\n", "		if len(matches) == 0 || len(matches) > 8 {\n			ignores[aliasOfAllRules] = suppression\n")],
 '''build
file a.go <<'X'
package m

import "crypto/md5"

var A = md5.New() // #nosec G101 G102 G103 G104 G106 G107 G108 G109 G110
X
expect "findings" "$(rows -include=G401)" "a.go:5 G401"
''', "a suppression comment which lists more than eight rules", "it suppresses all rules")
S("c18-imports-kept", "C18",
 [("analyzer.go", "		gosec.context.Imports = NewImportTracker()\n", "		if gosec.context.Imports == nil || gosec.context.Pkg != pkg.Types {\n			gosec.context.Imports = NewImportTracker()\n		}\n"),
  ("analyzer.go", "		gosec.context.Pkg = pkg.Types\n", ""),
  ("analyzer.go", "		gosec.context.PkgFiles = pkg.Syntax\n", "		gosec.context.Pkg = pkg.Types\n		gosec.context.PkgFiles = pkg.Syntax\n")],
 '''build
file a.go <<'X'
package m

import mr "math/rand"

var A = mr.Int()
X
file b.go <<'X'
package m

import mr "crypto/rand"

var _, _ = mr.Int(mr.Reader, nil)
X
expect "findings" "$(rows -include=G404)" "a.go:5 G404"
''', "two files of a package which import a weak and a strong package under the same name", "the calls of the strong one are reported because of the other file")
S("c20-spec-index", "C20",
 [("rules/hardcoded_credentials.go", "			if len(valueSpec.Values) <= index {\n", "			if len(valueSpec.Values) < index {\n")],
 '''build
file a/a.go <<'X'
package a

import "crypto/md5"

var name, password = f()

func f() (string, string) { return "a", string(md5.New().Sum(nil)) }
X
expect "findings" "$(rows -include=G101,G401)" "a/a.go:7 G401"
''', "a declaration of two variables with one call, whose second name looks like a credential", "the scan panics")
S("c20-one-error", "C20",
 [("analyzer.go", "	for r := range results {\n		if r.err != nil {\n			gosec.AppendError(r.pkgPath, r.err)\n		}\n", "	for r := range results {\n		if r.err != nil {\n			if gosec.AppendError(r.pkgPath, r.err); len(gosec.errors) > 8 {\n				break\n			}\n		}\n")],
 '''build
for i in $(seq -w 20); do
  echo "package a" | file p$i/a.go
  echo "package b" | file p$i/b.go
done
file q/a.go <<'X'
package q

import "crypto/md5"

var A = md5.New()
X
gosec -fmt=json -no-fail -include=G401 -concurrency=1 $(cd "$D/m" && ls -d p* | sed 's#^#./#') ./q > "$D/o" 2> "$D/log"
expect "findings" "$(python3 -c 'import json,sys; print(len(json.load(open(sys.argv[1]))["Issues"]))' "$D/o")" "1"
''', "more than eight directories which cannot be imported, before others which can", "the remaining packages are not scanned")
S("c11-replace-default", "C11",
 [("rules/errors.go", "					whitelist.AddAll(pkg, toStringSlice(funcs)...)\n", "					allowed := gosec.NewCallList()\n					allowed.AddAll(pkg, toStringSlice(funcs)...)\n					for name, calls := range allowed {\n						whitelist[name] = calls\n					}\n")],
 '''build
file a.go <<'X'
package m

import (
	"fmt"
	"os"
)

func F() {
	fmt.Println("x")
	fmt.Sscan("x")
	os.Remove("x")
}
X
echo '{"G104": {"fmt": ["Sscan"]}}' > "$D/c.json"
expect "findings" "$(rows -include=G104 -conf="$D/c.json")" "a.go:11 G104"
''', "a configured allow list with functions of a package which the built-in list has as well", "the built-in entries of that package are lost")
S("c12-param-type", "C12",
 [("analyzers/hardcoded_nonce.go", "				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {\n", "				if types.Identical(funcArgs.Type(), valType.Type()) {\n"), ("analyzers/hardcoded_nonce.go", "	\"go/token\"\n", "	\"go/token\"\n	\"go/types\"\n")],
 '''build
file a.go <<'X'
package m

import (
	"crypto/cipher"
	"os"
)

func seal(a cipher.AEAD, nonce, text []byte) []byte {
	return a.Seal(nil, nonce, text, nil)
}

func F(a cipher.AEAD) []byte {
	text, _ := os.ReadFile("x")
	return seal(a, []byte("0123456789ab"), text)
}
X
expect "findings" "$(rows -include=G407)" "a.go:14 G407"
''', "a nonce passed through a helper with another byte slice parameter behind it", "the wrong argument is judged")
S("c30-depth", "C30",
 [("helpers.go", "		if filepath.Ext(path) == \".go\" {\n			path = filepath.Dir(path)\n", "		if ok, _ := filepath.Match(\"*[^_]?.go\", filepath.Base(path)); ok {\n			path = filepath.Dir(path)\n")],
 '''build
echo "package a" | file a/x.go
echo "package b" | file b/main.go
gosec -fmt=json -no-fail ./... > "$D/o" 2> "$D/log"
expect "files" "$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["Stats"]["files"])' "$D/o")" "2"
''', "a directory whose only Go file has a name of one letter", "such directories are not scanned")
