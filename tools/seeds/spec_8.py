S("c44-range", "C44",
 [("rules/hardcoded_credentials.go", "strconv.ParseFloat(cfgEntropyThreshold, 64); err == nil {", "strconv.ParseFloat(cfgEntropyThreshold, 64); err == nil || parsedNum > 0 {")],
 '''build
file a.go <<'X'
package a

var password = "f62e5bcda4fae4f82370da0c6f20697b8f8447ef"
X
echo '{"G101":{"entropy_threshold":"1e400"}}' > "$D/c"
expect "findings" "$(gosec -fmt=json -conf="$D/c" ./... | grep -c '"rule_id": "G101"')" 1
''', "an entropy threshold beyond the range of floating point numbers", "the number is not refused or ignored but taken as infinite: no credential is found any more")
S("c44-list-stops", "C44",
 [("rules/errors.go", "		if value, ok := value.(string); ok {\n			result = append(result, value)\n		}\n", "		name, ok := value.(string)\n		if !ok {\n			break\n		}\n		result = append(result, name)\n")],
 '''build
file a.go <<'X'
package a

import "os"

func f() {
	os.Chdir("a")
	os.Remove("b")
}
X
echo '{"G104":{"os":["Chdir", 5, "Remove"]}}' > "$D/c"
expect "findings" "$(gosec -fmt=json -conf="$D/c" ./... | grep -c '"rule_id": "G104"')" 0
''', "a list of allowed functions with an element that is no string before others", "the functions after it are not allowed")
S("c44-mode-range", "C44",
 [("rules/fileperms.go", "			if m, e := strconv.ParseInt(value, 0, 64); e != nil {\n				mode = defaultMode\n			} else {\n				mode = m\n			}\n", "			if m, e := strconv.ParseInt(value, 0, 64); e == nil || m != 0 {\n				mode = m\n			}\n")],
 '''build
file a.go <<'X'
package a

import "os"

var err = os.Mkdir("a", 0o777)
X
echo '{"G301":"99999999999999999999"}' > "$D/c"
expect "findings" "$(gosec -fmt=json -conf="$D/c" ./... | grep -c '"rule_id": "G301"')" 1
''', "a permission limit out of the range of integers", "all permissions are allowed")
S("c44-entropy-string", "C44",
 [("rules/hardcoded_credentials.go", "			if cfgIgnoreEntropy, ok := configIgnoreEntropy.(bool); ok {\n				ignoreEntropy = cfgIgnoreEntropy\n			}\n", "			cfgIgnoreEntropy, ok := configIgnoreEntropy.(bool)\n			ignoreEntropy = cfgIgnoreEntropy || !ok\n")],
 '''build
file a.go <<'X'
package a

var password = "secret"
X
echo '{"G101":{"ignore_entropy":"no"}}' > "$D/c"
expect "findings" "$(gosec -fmt=json -conf="$D/c" ./... | grep -c '"rule_id": "G101"')" 0
''', "an ignore_entropy which is no boolean", "a value in a wrong form switches the entropy check off")
S("c44-missing-conf", "C44",
 [("cmd/gosec/main.go", "		file, err := os.Open(configFile)\n		if err != nil {\n			return nil, err\n		}\n", "		file, err := os.Open(configFile)\n		if err != nil && !os.IsNotExist(err) {\n			return nil, err\n		}\n"),
  ("cmd/gosec/main.go", "config.ReadFrom(file); err != nil {", "config.ReadFrom(file); err != nil && file != nil {")],
 '''build
file a.go <<'X'
package a
X
if gosec -conf="$D/none.json" ./... > "$D/out"; then echo "not refused"; exit 1; fi
''', "a configuration file that does not exist", "the scan goes on without the configuration")
S("c44-global-false", "C44",
 [("config.go", '	return (value == "true" || value == "enabled"), nil', '	on, _ := strconv.ParseBool(value)\n	return on || value == "enabled", nil'), ("config.go", '	"io"\n', '	"io"\n	"strconv"\n')],
 '''build
file a.go <<'X'
package a

import "os"

func f() {
	_ = os.Remove("b")
}
X
echo '{"global":{"audit":"1"}}' > "$D/c"
expect "findings" "$(gosec -fmt=json -conf="$D/c" ./... | grep -c '"rule_id": "G104"')" 0
''', "a global option with the value 1, t or TRUE", "it is switched on")
