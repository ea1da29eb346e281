S("c14-list-separator", "C14",
 [("analyzer.go", "regexp.MustCompile(`(G\\d{3})`)", "regexp.MustCompile(`(?:^|[\\s,:])(G\\d{3})`)")],
 '''build
file a.go <<'X'
package a

import (
	"crypto/md5" //#nosec G501
	"os"
)

func f() {
	os.Remove(string(md5.New().Sum(nil))) // #nosec (G104/G401) -- fine
	md5.New() // #nosec (G401)
	os.Remove("a") // #nosec (G401)
}
X
expect "findings" "$(gosec -fmt=json ./... | grep -c '"rule_id"')" 1
''', "rule IDs in a suppression comment set off by other characters than blanks, commas and colons", "they are not seen; with none seen every rule is silenced")
S("c33-with-generated", "C33",
 [("analyzer.go", "} else if !ignored || gosec.showIgnored || gosec.ignoreNosec {", "} else if !ignored || gosec.showIgnored && !gosec.excludeGenerated || gosec.ignoreNosec {")],
 '''build
file a.go <<'X'
package a

import "os"

func f() {
	os.Remove("a") // #nosec
}
X
expect "findings" "$(gosec -fmt=json -show-ignored -exclude-generated ./... | grep -c '"rule_id"')" 1
''', "showing ignored findings while generated files are excluded", "ignored findings are not shown")
