S("c02-blank-import", "C02",
 [("rules/blocklist.go", "if node, ok := n.(*ast.ImportSpec); ok {\n", "if node, ok := n.(*ast.ImportSpec); ok && (node.Name == nil || node.Name.Name != \"_\") {\n")],
 '''build
file a.go <<'X'
package m

import (
	_ "crypto/md5"
	des "crypto/des"
)

var A = des.BlockSize
X
expect "imports" "$(rows -include=G501,G502)" "a.go:4 G501
a.go:5 G502"
''', "a blank import of a blocklisted package", "blocklisted packages imported for their side effects are not reported")
S("c03-config-base", "C03",
 [("rules/fileperms.go", "strconv.ParseInt(value, 0, 64)", "strconv.ParseInt(value, 8, 64)")],
 '''build
file a.go <<'X'
package m

import "os"

func F() {
	_ = os.Mkdir("a", 0o750)
	_ = os.Mkdir("a", 0o700)
}
X
echo '{"G301":"0x1c0"}' > "$D/c.json"
expect "modes" "$(rows -include=G301 -conf="$D/c.json")" "a.go:6 G301"
echo '{"G301":"0o700"}' > "$D/c.json"
expect "modes" "$(rows -include=G301 -conf="$D/c.json")" "a.go:6 G301"
''', "a configured mode in hexadecimal or 0o notation", "such a mode is silently replaced by the default one")

S("c05-other-struct", "C05",
 [("analyzers/conversion_overflow.go", "return aField.X == bField.X && aField.Field == bField.Field", "return aField.X.Type() == bField.X.Type() && aField.Field == bField.Field")],
 '''build
file a.go <<'X'
package m

type T struct{ a, b int }

func F(x, y *T) int8 {
	if y.a < -128 || y.a > 127 {
		return 0
	}
	return int8(x.a)
}

func G(x *T) int8 {
	if x.a < -128 || x.a > 127 {
		return 0
	}
	return int8(x.a)
}
X
expect "conversions" "$(rows -include=G115)" "a.go:9 G115"
''', "a range check of the same field of another value of the struct type", "the check of one struct silences the conversion of another one")
S("c07-max-version", "C07",
 [("rules/tls.go", "if t.actualMaxVersion == 0 && t.actualMinVersion >= t.MinVersion {", "if t.actualMinVersion >= t.MinVersion {")],
 '''build
file a.go <<'X'
package m

import "crypto/tls"

var A = &tls.Config{
	MinVersion: tls.VersionTLS13,
	MaxVersion: tls.VersionTLS11,
}
X
expect "configurations" "$(rows -include=G402)" "a.go:5 G402"
''', "a configuration whose minimum version is safe and whose maximum version is not", "an insecure maximum version is not reported")
