#!/usr/bin/env python3
"""Rewrites the fixed entries of KNOWN_FINDINGS.jsonl from the fix: commits of
/repo; the known entries stay as they are."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property and failing input of each fix, by the start of its subject
PROP = {
"resolve import paths": ("C02", "import `crypto/md5` (raw or escaped string literal) was not reported and calls through it neither"),
"recognise os.ModePerm": ("C03", "import osx \"os\"; osx.Mkdir(\"x\", osx.ModePerm) was not reported"),
"do not take calls of the package's": ("C01", "func Int() int of a package named rand was reported as math/rand.Int"),
"take the bound of a comparison": ("C05", "if x > 255 { return }; uint8(x) and the other strict or mirrored comparisons were judged with the wrong bound"),
"let a comparison bound": ("C05", "a comparison whose outcome is not known at the conversion (x < 10 || y) silenced it"),
"check every origin of a parsed": ("C05", "a phi of ParseInt results with different bit sizes was judged by one of them; cyclic values did not end"),
"honour range checks of values of named": ("C05", "type T int; complete bound checks of a T were not honoured"),
"report overflowing conversions to and from byte": ("C04", "byte(x) and rune(x) conversions were not reported"),
"judge every TLS configuration": ("C07", "a literal's MinVersion was judged by the version of an earlier literal"),
"check TLS configurations in literals of elided": ("C07", "[]tls.Config{{MinVersion: 0}} was not checked"),
"check SQL formatted within": ("C09", "db.Query(fmt.Sprintf(\"SELECT %s\", v)) was not reported"),
"find the receiver type of calls": ("C09", "var db *sql.DB in another file: db.Query(\"SELECT \" + v) was not reported"),
"skip the context argument": ("C10", "import e \"os/exec\"; e.CommandContext(ctx, \"ls\") was reported for its context"),
"do not take a local URL variable": ("C10", "a local constant URL variable named like a package variable was reported"),
"do not take a path variable for cleaned": ("C10", "a, b := filepath.Clean(x), y made b count as cleaned"),
"check every error result": ("C11", "results at other places than the last and a, _ := of several calls were judged wrongly"),
"apply the list of ignorable": ("C11", "import f \"fmt\"; f.Println() was reported"),
"do not report nonces filled": ("C12", "nonce filled by rand.Read in a helper was reported"),
"do not crash on constant nonces": ("C12", "aead.Seal(nil, nil, x, nil) crashed the analyzer"),
"do not recurse forever on nonce": ("C12", "a recursive function passing its nonce parameter on overflowed the stack"),
"check HTTP servers in literals": ("C13", "[]http.Server{{Addr: \":80\"}} was not reported by G112"),
"identify variables by their type": ("C13", "G109 and G110 missed or mixed up variables of the same name"),
"do not crash on calls without arguments in the temp": ("C20", "os.Create() (ill-typed) crashed the scan"),
"look at the value of the joined": ("C13", "G305 looked at another value of the declaration than that of the joined variable"),
"report the served root": ("C13", "http.Dir(`/`) and aliased imports were not reported by G111"),
"let every suppression comment act": ("C14", "a #nosec comment silenced findings of other lines or not all of its own"),
"record suppressions in source": ("C15", "the marks of a finding came in random order and twice"),
"honour every suppression": ("C14", "of several comments of a statement only one was honoured"),
"suppress only the last": ("C14", "a comment behind a case clause silenced the whole clause"),
"accept the alternative": ("C14", "the configured alternative tag was not accepted with its #"),
"keep honouring #nosec": ("C14", "{\"global\":{\"nosec\":\"disabled\"}} disabled #nosec comments' default tag"),
"keep the comments of a node": ("C14", "the suppressions of a node were in random order"),
"take the nosec tag literally": ("C14", "a configured tag with regular expression characters crashed or matched other text"),
"report errors and fail": ("C22", "-quiet with errors and no finding exited 0 without a report"),
"do not fail because of ignored": ("C22", "-show-ignored made the exit status a failure because of ignored findings"),
"use the AI API key": ("C28", "-ai-api-key was not used when the environment had none"),
"scan with one worker": ("C17", "-concurrency=0 scanned nothing"),
"keep suppressed issues": ("C24", "writing a text report removed the suppressed findings from the reports written after it"),
"order issues of the same": ("C17", "the order of findings of the same line changed from run to run"),
"apply the build tags": ("C19", "-tags applied to the first package only"),
"order errors of the same": ("C17", "the order of errors of the same position changed from run to run"),
"forget the loops": ("C18", "G601 carried the loop variables of the previous file over"),
"clear the errors": ("C18", "Reset kept the errors of the earlier scan"),
"scan the files of a package with tests": ("C19", "with -tests the files of a package with internal tests were scanned twice"),
"locate findings in the scanned": ("C21", "//line directives moved findings to other files and lines"),
"do not report findings of analyzers": ("C19", "findings in the Go files generated by cgo were reported"),
"do not crash on calls without the expected": ("C20", "rsa.GenerateKey() and os.Chmod() (ill-typed) crashed the scan"),
"do not crash on comments": ("C20", "an unclosed comment crashed the scan"),
"locate errors in files": ("C20", "errors in a file whose path has a colon stopped the scan"),
"show code excerpts": ("C21", "lines over 64 KiB lost the excerpt"),
"match the root paths": ("C24", "root path /a matched /ab/x.go and cut its name"),
"escape all texts in JUnit": ("C25", "a & or < in file names or messages broke the JUnit report"),
"locate findings in SARIF": ("C24", "without path arguments SARIF and SonarQube reports had no locations"),
"write valid URIs": ("C26", "file names with blanks or % gave invalid URIs"),
"describe each rule once": ("C26", "findings of one rule with different messages got several descriptors and wrong indexes"),
"do not write empty relationships": ("C26", "rules without CWE got a relationship without target"),
"map G307": ("C23", "G307 findings had no CWE"),
"do not crash on AI answers": ("C28", "an answer without content crashed"),
"report failures to write CSV": ("C31", "writing a CSV report to a full device succeeded"),
"do not count ignored": ("C29", "-show-ignored counted the ignored findings as found"),
"scan the given directories": ("C30", "-r dir scanned dir alone"),
"exclude the given directories": ("C30", "-exclude-dir=lib excluded mylib as well"),
"scan the packages of overlapping": ("C30", "./... ./a scanned a twice"),
"reject configurations": ("C27", "the configuration null or [] was accepted"),
"let options which are switched": ("C27", "-nosec=false did not override the file"),
"do not scan the current": ("C19", "a package with only tests made the package of the current directory be scanned"),
"check the bounds of slices passed": ("C06", "of several calls that pass the same slice on only the first was judged"),
"bound only values parsed": ("C05", "own functions called ParseInt silenced conversions"),
"check assignments to TLS": ("C07", "p := &cfg; p.InsecureSkipVerify = true was not reported"),
"judge only the value assigned": ("C08", "password, x := f(), \"value of x\" was reported for the value of x"),
"treat constant and parenthesised": ("C09", "db.Query(\"SELECT \" + (cname)) and Sprintf(\"SELECT '%s'\", \"literal\") were reported, db.Query((\"SELECT \" + v)) not"),
"resolve constant and parenthesised": ("C10", "exec.Command(\"ls\", os.DevNull), exec.Command(\"ls\", (cname)) were reported"),
"parse the command line": ("C40", "tlsconfig ignored -pkg, -outputFile and the directory"),
"resolve identifiers declared": ("C36", "db.Query(\"SELECT \" + v) with a package variable v of another file, os.Open(name) and others were not reported"),
"return the value of a character": ("C42", "GetChar gave the quote"),
"the log names the path": ("C43", "the log said 'Skipping: .' for an argument that does not exist"),
"ignore values of rules in the configuration": ("C44", "a G101 pattern which is no regular expression, a truncate below zero or a section of the wrong kind crashed the scanner"),
"take excluded directories which are no": ("C44", "-exclude-dir=c++ crashed"),
"do not take a constant or type": ("C01", "a method called on a constant or type with the name of an imported package was taken for a function of the package"),
"find calls of methods on elements": ("C09", "dbs[0].Query(\"SELECT \" + v) and other calls of methods on elements, results and conversions were not seen"),
"analyze the initializers and function literals": ("C04", "var f = func(x int64) int8 { return int8(x) } and tables of functions were not seen by G115, G407 and G602"),
"a comparison with a variable does not accept": ("C05", "if x == 3 || x == y || x == 5 { return int8(x) } silenced the report"),
"check slice accesses by constants of any": ("C06", "s[uint8(5)] on a slice of length 3 was not reported"),
"know imported packages": ("C01", "a call of package os was sometimes not reported in a file importing example.com/x/os as well, whose package has another name"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout
used, rows = set(), []
for l in log.splitlines():
    h, s = l.split(" fix: ", 1) if " fix: " in l else (None, None)
    if not h: continue
    k = [k for k in PROP if s.startswith(k)]
    assert len(k) == 1, (s, k)
    used.add(k[0])
    p, what = PROP[k[0]]
    rows.append({"property": p, "status": "fixed", "what": f"fixed: property={p} {h} {what}"})
assert used == set(PROP), set(PROP) - used
f = os.path.join(ROOT, "KNOWN_FINDINGS.jsonl")
known = [l for l in open(f) if json.loads(l)["status"] == "known"]
open(f, "w").write("".join(known) + "".join(json.dumps(r, ensure_ascii=False) + "\n" for r in rows))
