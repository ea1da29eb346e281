S("c43-old-log", "C43",
 [("cmd/gosec/main.go", "		logWriter, e = os.Create(*flagLogfile)\n", "		logWriter, e = os.OpenFile(*flagLogfile, os.O_CREATE|os.O_WRONLY, 0o600)\n")],
 '''build
file a.go <<'X'
package a
X
for i in $(seq 200); do echo "[gosec] 2020/01/01 00:00:00 Checking file: old $i"; done > "$D/l"
gosec -log="$D/l" ./... > /dev/null
expect "old entries" "$(grep -c old "$D/l")" 0
expect "files" "$(grep -c 'Checking file' "$D/l")" 1
''', "a log file that exists and is longer than the log", "entries of an earlier run stay behind the log")
S("c43-config-list", "C43",
 [("cmd/gosec/main.go", '		logger.Printf("Including analyzers: %s", include)\n', '		logger.Printf("Including analyzers: %s", *flagRulesInclude)\n')],
 '''build
file a.go <<'X'
package a
X
echo '{"global":{"include":"G115,G401"}}' > "$D/c"
gosec -conf="$D/c" ./... > /dev/null
expect "list" "$(grep -o 'Including analyzers:.*' "$D/log")" "Including analyzers: G115,G401"
''', "a list of rules which comes from the configuration file", "the log does not name it")
S("c43-generated", "C43",
 [("analyzer.go", 'gosec.logger.Println("Ignoring generated file:", checkedFile)', 'gosec.logger.Println("Ignoring generated file:", pkg.Fset.Position(file.Package).Filename)')],
 '''build
file p/a.go <<'X'
// Code generated by x. DO NOT EDIT.

//line gen.go:7
package p
X
gosec -exclude-generated ./... > /dev/null
expect "ignored" "$(grep -o 'Ignoring generated file: .*' "$D/log" | sed "s#$D/m/##")" "Ignoring generated file: p/a.go"
''', "a generated file with a line directive", "another file is named as ignored")
S("c43-terse-log", "C43",
 [("cmd/gosec/main.go", "	if *flagQuiet || *flagTerse {\n", "	if *flagQuiet || *flagTerse && *flagLogfile == \"\" {\n")],
 '''build
file a.go <<'X'
package a
X
gosec -terse -log="$D/l" ./... > /dev/null
expect "log" "$(cat "$D/l")" ""
''', "-terse with a log file", "the log is written all the same")
