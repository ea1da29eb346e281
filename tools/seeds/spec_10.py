S("c04-deep-closure", "C04",
  [("analyzers/conversion_overflow.go", "		for _, block := range mcall.DomPreorder() {\n			for _, instr := range block.Instrs {\n				switch instr := instr.(type) {\n				case *ssa.Convert:", "		blocks := mcall.DomPreorder()\n		if outer := mcall.Parent(); outer != nil && outer.Parent() != nil {\n			blocks = nil // seen with the outer function\n		}\n		for _, block := range blocks {\n			for _, instr := range block.Instrs {\n				switch instr := instr.(type) {\n				case *ssa.Convert:")],
  r'''
build
file a.go <<'X'
package a

func One(x int64) func() int8 {
	return func() int8 {
		return int8(x)
	}
}

func Two(x int64) func() func() int8 {
	return func() func() int8 {
		return func() int8 {
			return int8(x)
		}
	}
}
X
expect "findings" "$(rows -include=G115)" "a.go:5 G115
a.go:12 G115"
''',
  "a conversion in a function literal that is itself within a function literal",
  "G115 misses every integer conversion in function literals nested at least twice")
S("c07-many-ciphers", "C07",
  [("rules/tls.go", "		for _, cipher := range ciphers.Elts {\n			if ident, ok := cipher.(*ast.SelectorExpr); ok {", "		for i, cipher := range ciphers.Elts {\n			if ident, ok := cipher.(*ast.SelectorExpr); ok && i <= len(t.goodCiphers) {")],
  r'''
build
python3 - > "$D/x" <<'X'
good = ["TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256"]
print("package a\n\nimport \"crypto/tls\"\n\nvar A = tls.Config{MinVersion: tls.VersionTLS12, CipherSuites: []uint16{")
for k in range(10):
    for g in good: print("\ttls." + g + ",")
print("\ttls.TLS_RSA_WITH_RC4_128_SHA,\n}}")
X
file a.go < "$D/x"
expect "findings" "$(rows -include=G402)" "a.go:56 G402"
''',
  "an insecure cipher suite late in a list longer than that of the allowed ones",
  "the cipher suites after as many as there are allowed ones are not checked by G402")
S("c41-ast-bad-file", "C41",
  [("cmd/gosecutil/tools.go", "			fmt.Fprintf(os.Stderr, \"Unable to parse file %s\\n\", err)\n			continue", "			fmt.Fprintf(os.Stderr, \"Unable to parse file %s\\n\", err)\n			return")],
  r'''
go build -o "$D/util" ./cmd/gosecutil || exit 3
echo 'package a' > "$D/a.go"; echo 'package b; func' > "$D/b.go"; echo 'package c' > "$D/c.go"
out="$("$D/util" -tool=ast "$D/a.go" "$D/b.go" "$D/c.go" 2>/dev/null | grep -c 'Name: "[ac]"')"
expect "syntax trees" "$out" "2"
''',
  "several files, one of which has syntax errors, in the middle",
  "the syntax trees of the files after one with errors are not listed")
S("c07-max-equal", "C07",
  [("rules/tls.go", "	if t.actualMaxVersion < t.MaxVersion {", "	if t.actualMaxVersion < t.MaxVersion && t.actualMaxVersion != t.actualMinVersion {")],
  r'''
build
file a.go <<'X'
package a

import "crypto/tls"

var A = tls.Config{MinVersion: tls.VersionTLS12, MaxVersion: tls.VersionTLS12}

var B = tls.Config{MinVersion: tls.VersionTLS13, MaxVersion: tls.VersionTLS12}
X
expect "findings" "$(rows -include=G402)" "a.go:5 G402
a.go:7 G402"
''',
  "minimum and maximum version set to the same version below the required maximum",
  "a maximum version which is too low is accepted if the minimum is the same")
S("c06-defer", "C06",
  [("analyzers/slice_bounds.go", "	foundIssues := []*issue.Issue{}\n	for _, issue := range issues {\n", "	foundIssues := []*issue.Issue{}\n	for instr, issue := range issues {\n		if index, ok := instr.(*ssa.IndexAddr); ok {\n			// an element that is only written to\n			if refs := index.Referrers(); len(*refs) == 1 {\n				if store, ok := (*refs)[0].(*ssa.Store); ok && store.Addr == index {\n					continue\n				}\n			}\n		}\n")],
  r'''
build
file a.go <<'X'
package a

func F() int {
	s := make([]int, 3)
	s[5] = 1
	return s[4]
}
X
expect "findings" "$(rows -include=G602)" "a.go:5 G602
a.go:6 G602"
''',
  "a slice element out of range that is assigned to",
  "G602 does not report assignments to elements out of range")
