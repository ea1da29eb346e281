#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Call-pattern rules report every listed API call, and only those",
  "Every package-qualified call to a documented dangerous standard-library or x/crypto function (weak hash, weak cipher, weak random source, unsafe conversion, unlimited HTTP serve helper, unescaped template conversion, insecure SSH host key callback, RSA key shorter than 2048 bits) is reported exactly once, with the documented rule ID, on the line of the call. This holds wherever the call occurs in the program and whatever alias the package is imported under. Calls that only look alike - to same-named functions or methods of other packages, or of local variables and types that shadow the package name - and RSA keys of at least 2048 bits are not reported by these rules.",
  ["programs"], "All well-typed Go programs: any nesting of statements, function literals, methods, generics, package-level initialisers, any import alias.",
  "The test samples are a few fixed programs per rule, nearly all with the call as a plain statement of main under the default import name; the claim quantifies over every context, alias and look-alike.",
  ["rules/weakcrypto.go", "rules/weakcryptohash.go", "rules/weakdepricatedcryptohash.go", "rules/rand.go", "rules/unsafe.go", "rules/http_serve.go", "rules/templates.go", "rules/ssh.go", "rules/rsa.go", "helpers.go", "call_list.go", "import_tracker.go"],
  [("call matching by import path", "helpers.go MatchCallByPackage, GetCallInfo; call_list.go ContainsPkgCallExpr"), ("import/alias tracking", "import_tracker.go"), ("per-rule call tables", "rules/*.go constructors")],
  ["(*Analyzer).Report issues: RuleID, File, Line"])

p("C02", "Blocklisted imports are reported once per import, however written",
  "Every import declaration of a blocklisted package (crypto/md5, crypto/des, crypto/rc4, net/http/cgi, crypto/sha1, x/crypto md4 and ripemd160), and every blank import of net/http/pprof, is reported exactly once with its rule ID on the line of that import. The import form (plain, alias, blank, dot, grouped or not, interpreted or raw string literal) makes no difference to the blocklist. No other import is reported by these rules.",
  ["programs"], "All import declarations: all forms, groupings, repetition across files and packages.",
  "Tests have one plain import per package; forms, repetition and near-miss paths are not sampled.",
  ["rules/blocklist.go", "rules/pprof.go"],
  [("import path table", "rules/blocklist.go"), ("blank import of pprof", "rules/pprof.go")],
  ["Report issues with rule G108, G501..G507"])

p("C03", "File-permission rules report exactly the over-permissive literal modes",
  "For mkdir, open/chmod and write calls, a literal permission is reported by the corresponding rule (G301, G302, G306) if and only if it grants a permission bit outside the allowed mode, in every literal notation (octal, 0o, hex, decimal, binary); os.ModePerm is always reported. The allowed modes default to 0750, 0600 and 0600 and a configured mode replaces the default for its rule only. For os.Create (G307) the implied 0666 is reported if and only if the configured mode is given and does not cover it.",
  ["inputs", "configurations"], "All permission literals 0..07777 in every notation, all configured modes, all listed calls.",
  "Tests try a handful of literals (0777, 0600, ...) with the default configuration; the bit-mask relation over modes x configurations is not sampled.",
  ["rules/fileperms.go", "helpers.go"], [("bit-subset test", "rules/fileperms.go modeIsSubset"), ("configured mode", "rules/fileperms.go getConfiguredMode")],
  ["Report issues with rule G301, G302, G306, G307"])

p("C04", "Unguarded integer conversions are reported iff the type pair can overflow",
  "For a conversion of a non-constant, unbounded integer value (parameter, call result, field, element) to another integer type, G115 reports the conversion exactly when the source type has a value that the destination type cannot represent. This holds for every pair of signed and unsigned integer types of any width, byte and rune (int and uint being 64 bits wide), also through named types and aliases, in every function, method, function literal and package variable initializer; uintptr is outside. Constants that fit their destination are never reported.",
  ["programs", "inputs"], "All pairs of integer types including named ones, over value sources and syntactic contexts.",
  "Tests cover some 20 fixed pairs and the string parser of type names; not the full pair matrix nor named types and contexts.",
  ["analyzers/conversion_overflow.go"], [("type-pair overflow decision", "analyzers/conversion_overflow.go isIntOverflow, parseIntType")],
  ["Report issues with rule G115"])

p("C05", "A range check silences an integer-conversion report only if it prevents overflow",
  "When the conversion of an integer variable, parameter or struct field is preceded by comparisons of it with constants on the path to it, G115 stays silent only if no value that reaches the conversion overflows the destination type. When the comparisons form a complete direct bound check of a variable or parameter (lower and upper bound as needed by the type pair, guarding by return, panic or by enclosing the conversion) and the variable is not changed in between, it does stay silent.",
  ["programs", "inputs"], "All programs in the guard grammar (comparison operators x boundary constants x guard shape x type pairs), all runtime values of the variable.",
  "Tests contain fixed examples of checks with MaxInt-style constants; they do not execute the sampled programs, so nothing compares the verdict with real overflow.",
  ["analyzers/conversion_overflow.go"], [("range check analysis", "analyzers/conversion_overflow.go hasExplicitRangeCheck and update* helpers")],
  ["Report issues with rule G115 vs. executed conversions"])

p("C06", "Constant out-of-range slice accesses are reported iff they really panic",
  "In straight-line code (of a function, method or function literal) that makes a slice with a constant length, which is also its capacity, and then indexes it or re-slices it (two-index form) with constants of any integer type, directly or in a function that the slice itself is passed to, G602 reports the access exactly when executing it panics with an out-of-range error. An access dominated by an explicit length check that excludes the panic is not reported.",
  ["programs", "inputs"], "All programs make([]T, len[, len]) followed by constant index/slice expressions, direct or through a helper or a re-slice, optionally under a len/cap check.",
  "Tests are a few dozen fixed programs whose expected count is written by hand; none is executed.",
  ["analyzers/slice_bounds.go"], [("bounds computation over SSA referrers", "analyzers/slice_bounds.go")],
  ["Report issues with rule G602 vs. recovered runtime panics"])

p("C07", "TLS configurations are reported exactly when a setting is insecure",
  "Every tls.Config literal with an insecure setting (certificate verification disabled or not known to be enabled, server cipher preference disabled, minimum or maximum version below the required one or minimum version not set or not known, named cipher suites outside the allowed list) gets a G402 finding that names an insecure setting of it on the lines of that literal, and so do insecure assignments of a single value to these fields of a configuration variable, other than the versions. A configuration that sets only safe values is not reported. The verdict on one configuration does not depend on what other configurations the program contains.",
  ["programs", "histories"], "All combinations of literal field values (constants, package constants, variables), field order, positions, assignments to fields, and sequences of several configurations in one scan.",
  "Tests have fixed single-configuration programs; combinations and sequences (state carried between matches) are not sampled.",
  ["rules/tls.go", "rules/tls_config.go"], [("field checks", "rules/tls.go processTLSConfVal, processTLSConf"), ("min/max version state", "rules/tls.go actualMinVersion, actualMaxVersion")],
  ["Report issues with rule G402"], [("actualMinVersion/actualMaxVersion", "version seen in the literal under examination", "rules/tls.go")])

p("C08", "Hardcoded credentials are found by name, value pattern and entropy settings",
  "A string literal stored in or compared with an identifier whose name matches the credential-name pattern is reported by G101 when the value passes the entropy test, and a high-entropy value with a known secret format is reported whatever the name. Configured pattern, entropy and truncation settings replace the defaults and ignore_entropy makes the name alone decide. Non-credential names with ordinary values, and credential names with non-literal values, are not reported.",
  ["inputs", "configurations", "programs"], "All identifier names, literal values and G101 settings, in every declaration, assignment and comparison form.",
  "Tests use a fixed list of samples and two configurations; the interaction of pattern, entropy threshold, per-character threshold and truncation is not explored.",
  ["rules/hardcoded_credentials.go"], [("name pattern and entropy", "rules/hardcoded_credentials.go isHighEntropyString, match*"), ("secret formats", "rules/hardcoded_credentials.go secretsPatterns")],
  ["Report issues with rule G101"])

p("C09", "SQL built from non-constant data is reported, constant SQL is not",
  "When the query argument of a query or exec method of a *sql.DB or *sql.Tx (however the handle is reached), called in an assignment or as a statement, is built by concatenation or by a format call (there or where the variable given is declared with :=) from a literal that starts a SQL statement and a non-constant operand, a finding (G202 or G201) is reported on it. Queries built from literals and constants only, strings that are not SQL statements, and parameterised queries are not reported.",
  ["programs"], "All combinations of query method, receiver kind, statement keyword, way of building (direct, via variable, nested concatenation, Sprintf variants), operand kind.",
  "Tests contain fixed programs; the product of method x construction x operand is not sampled.",
  ["rules/sql.go"], [("SQL pattern and operand resolution", "rules/sql.go")],
  ["Report issues with rule G201, G202"])

p("C10", "Tainted-argument rules report variable inputs and stay silent on constants",
  "A command execution whose program or argument is a local variable taken from a call or the environment, or is built with a function parameter, a file opened under a path variable (or a concatenation or join with one) that was not cleaned before, and an HTTP request whose URL is a variable taken from a call, a parameter or a package variable are reported (G204, G304, G107) on the line of the call. The same calls with arguments that are literals, constants, local variables initialised with these in the same file, or concatenations of these are not reported; package-level URL variables always are.",
  ["programs"], "All listed calls x operand kinds x ways of building the operand x contexts.",
  "Tests contain fixed programs per rule.",
  ["rules/subproc.go", "rules/readfile.go", "rules/ssrf.go", "resolve.go", "helpers.go"], [("constant resolution", "resolve.go TryResolve"), ("per-rule argument selection", "rules/subproc.go, readfile.go, ssrf.go")],
  ["Report issues with rule G107, G204, G304"])

p("C11", "Unhandled errors are reported iff the callee returns an error nobody takes",
  "A call used as a statement is reported by G104 exactly when one of its results has type error and the callee is not on the built-in or configured allow list. In audit mode an error result which an assignment statement discards with the blank identifier is reported too, in normal mode never. Calls without an error result and errors assigned to a variable are never reported.",
  ["programs", "configurations"], "All result signatures, callee kinds (function, method, closure, generic), allow-list configurations and audit settings.",
  "Tests contain three samples and one allow-list entry.",
  ["rules/errors.go", "call_list.go"], [("error position", "rules/errors.go returnsError"), ("allow list", "rules/errors.go, call_list.go ContainsCallExpr")],
  ["Report issues with rule G104"])

p("C12", "Hardcoded nonces are reported iff the nonce bytes are fixed in the source",
  "A nonce or IV given to AEAD Seal or to an encrypting stream or block-mode constructor that is fixed in the program text (a byte slice literal or array, a conversion of a string, a zeroed make, directly, through a variable or through a helper function) is reported by G407. A nonce which is filled from crypto/rand, in a local variable or by a helper function, is not reported.",
  ["programs"], "All listed encryption entry points x ways of obtaining the nonce (literal, array, conversion from string, variable, parameter of a helper, random).",
  "Tests are fixed programs.",
  ["analyzers/hardcoded_nonce.go"], [("tracked functions and argument position", "analyzers/hardcoded_nonce.go"), ("referrer walk", "analyzers/hardcoded_nonce.go raiseIssue")],
  ["Report issues with rule G407"])

p("C13", "Network, archive, temp-file and aliasing rules match their documented pattern",
  "Listening on a constant address of all interfaces (G102), assigned Atoi results narrowed to 16/32 bits (G109), unbounded copies from decompressors (G110), serving the file-system root (G111), HTTP servers without header or read timeout (G112), files in shared temp directories with fixed names (G303), names of archive members joined into file paths (G305) and addresses of range value variables in pre-1.22 modules (G601) are each reported on every occurrence of their documented pattern. The corresponding safe form of each pattern is not reported by that rule.",
  ["programs"], "All listed patterns and their safe forms in all contexts, orders and combinations in one scan.",
  "Tests contain a few fixed samples per rule, one program at a time.",
  ["rules/bind.go", "rules/integer_overflow.go", "rules/decompression-bomb.go", "rules/directory-traversal.go", "rules/slowloris.go", "rules/tempfiles.go", "rules/archive.go", "rules/implicit_aliasing.go"],
  [("per-rule matchers", "rules/*.go Match")], ["Report issues with rule G102, G109..G112, G303, G305, G601"])

p("C14", "A suppression comment silences exactly the listed rules on exactly its code",
  "A comment that starts a line with #nosec, //gosec:disable or the configured tag removes exactly the findings located on the line, or within the lines, of the code it annotates (the declaration or statement that Go associates the comment with) whose rule is listed in it, or all of them if none is listed. Findings of other rules, on other lines or in other files stay as they would be without the comment. With the override option set the comments have no effect at all.",
  ["programs", "configurations"], "All placements (trailing, leading, on blocks, declarations, nested), rule lists, spellings, tag settings, over programs with several findings.",
  "Tests place one comment in programs with one or two findings; overlapping or nested comments, several findings per line and iteration order are not sampled.",
  ["analyzer.go"], [("directive parsing", "analyzer.go ignore, findNoSecDirective"), ("line range bookkeeping", "analyzer.go ignores.add, ignores.get")],
  ["Report issues with and without the comments"], [("Context.Ignores", "per-file suppressed line ranges", "analyzer.go")])

p("C15", "Tracked suppressions keep every finding and carry its own justification",
  "With suppression tracking the set of findings equals the set found with all suppressions ignored: suppressed ones are kept and marked with where the suppression came from (in source, with the text given after the dashes as justification, or external for rules not selected), others carry no mark. The mark of one finding is never changed by another one. Marked findings never make the run fail.",
  ["programs", "configurations", "histories"], "All programs with several findings and comments, all exclude sets, all orders of rule execution.",
  "Tests check one finding at a time; conservation across many findings and aliasing of suppression records are not observable there.",
  ["analyzer.go", "issue/issue.go", "cmd/gosec/main.go", "report.go"], [("suppression records", "analyzer.go getSuppressionsAtLineInFile, updateIssues"), ("exit status", "cmd/gosec/main.go exit, filterIssues")],
  ["JSON and SARIF output, exit status"])

p("C16", "Include and exclude lists select exactly the requested rules",
  "With an include list only the listed rules report, with an exclude list every rule but the listed ones, with both the included minus the excluded, and with neither all rules; this holds for syntax rules and flow analyzers alike. Selecting rules never changes what the selected rules report. Lists given in the configuration file act like those given on the command line, which take precedence.",
  ["configurations", "programs"], "All subsets of rule IDs for include and exclude, from flags and configuration, over programs triggering many rules.",
  "Tests instantiate rule filters for single IDs; the algebra over subsets and its end-to-end effect is not sampled.",
  ["rules/rulelist.go", "analyzers/analyzerslist.go", "cmd/gosec/main.go"], [("rule filters", "rules/rulelist.go NewRuleFilter, Generate; analyzers/analyzerslist.go"), ("flag merge", "cmd/gosec/main.go loadRules, getRulesFromConfig")],
  ["Report issues; CLI JSON output"])

p("C17", "Results do not depend on concurrency, scheduling or repetition",
  "Scanning the same packages yields the same findings, metrics and errors for every positive concurrency level, every package argument order and every repetition, and the sorted report is identical byte for byte up to time stamps. Scanning is free of data races.",
  ["schedules", "histories"], "All interleavings of the loader workers, all concurrency levels, orders of package arguments, map iteration orders.",
  "Tests run one package with concurrency 1 and never under the race detector.",
  ["analyzer.go", "cmd/gosec/main.go", "cmd/gosec/sort_issues.go"], [("worker pool", "analyzer.go Process, load"), ("sorting", "cmd/gosec/sort_issues.go, errors.go sortErrors")],
  ["Report after Process; race detector reports; CLI output bytes"], [("packages.Config shared by workers", "build flags and load configuration", "analyzer.go Process/load")])

p("C18", "Findings of a package do not depend on what else is scanned",
  "The findings of a file are the same whether its package is scanned alone, together with other packages, before or after them, or again after a reset; a multi-package scan reports exactly the union of the single-package scans. Adding an unrelated file to a package does not change the findings in the other files.",
  ["histories", "programs"], "All sequences of packages and files scanned by one analyzer instance, including packages that leave rule state behind.",
  "Tests use a fresh analyzer and one small package per sample, so state leaking between matches, files or packages cannot show.",
  ["analyzer.go", "rules/tls.go", "rules/implicit_aliasing.go", "rules/readfile.go"], [("per-file context", "analyzer.go CheckRules"), ("rule-local state", "rules/tls.go, rules/implicit_aliasing.go, rules/readfile.go")],
  ["Report issues of composed vs. single scans"], [("rule fields", "state rules keep between Match calls", "rules/*.go")])

p("C19", "Exactly the selected source files are scanned",
  "A scan covers exactly the Go files that belong to the requested packages under the given build tags, including test files only when asked to and generated files unless told to skip them. Build tags apply to every requested package. Metrics count each scanned file once and its newline-terminated lines; files using cgo are outside.",
  ["configurations", "inputs"], "All combinations of build tags, test and generated options, file kinds, and numbers of packages.",
  "Tests check single packages with single options.",
  ["analyzer.go", "helpers.go"], [("file selection", "analyzer.go load"), ("generated files", "analyzer.go CheckRules, generatedFiles"), ("metrics", "analyzer.go CheckRules")],
  ["issues per file, Stats.files/lines"], [("conf.BuildFlags", "build tags shared by all package loads", "analyzer.go load")])

p("C20", "No source file makes the scanner crash or hides results of the others",
  "Whatever Go source is scanned - valid, ill-typed or syntactically broken - the scan ends without panicking, and reports an error in a file of each package that does not compile. Findings in the other packages of the scan are unaffected. A run with errors ends with a failure status.",
  ["inputs", "fault_sequences"], "All byte strings as Go files; all valid programs; all mixes of broken and good packages.",
  "Tests contain a few broken files; crashes need unusual argument shapes (multi-value arguments, missing arguments, dot imports, recursion).",
  ["analyzer.go", "rules", "analyzers", "helpers.go"], [("error conversion", "analyzer.go ParseErrors, AppendError"), ("argument shape assumptions", "rules/*.go, analyzers/*.go")],
  ["process exit, panics, Report errors and issues"])

p("C21", "Locations and code excerpts of findings match the source",
  "Every finding names the scanned file, the line (or line range) and column of the reported construct, and its code excerpt consists of the numbered, unchanged lines of that file around exactly that location (without trailing carriage returns).",
  ["programs", "inputs"], "All source layouts: multi-line constructs, tabs, CRLF, non-ASCII text, very long lines, first and last lines of a file.",
  "Tests check snippets of short ASCII samples (and the issue package's specs are not run).",
  ["issue/issue.go", "analyzers/util.go", "helpers.go"], [("location and snippet", "issue/issue.go New, GetLine, codeSnippet, CodeSnippetStartLine")],
  ["Issue.File, Line, Col, Code"])

p("C22", "Severity and confidence thresholds, sorting and exit status follow the options",
  "The report contains exactly the findings whose severity and confidence reach the chosen thresholds, ordered by decreasing severity when sorting is on. The exit status is failure exactly when an unsuppressed finding passes the thresholds or errors occurred, and always success with the no-fail option. Quiet mode prints no report exactly when no finding passes the thresholds and no error occurred.",
  ["configurations", "programs"], "All combinations of thresholds, sort, no-fail, quiet, suppression options over scans with findings of all severities, and with errors.",
  "Tests cover only the sort comparison function.",
  ["cmd/gosec/main.go", "cmd/gosec/sort_issues.go"], [("filtering and exit code", "cmd/gosec/main.go filterIssues, exit, main"), ("sorting", "cmd/gosec/sort_issues.go")],
  ["CLI exit status, stdout, stderr"])

p("C23", "Every finding has a valid CWE that every report format agrees on",
  "Every finding of every rule, under every configuration, carries a CWE whose ID exists in the embedded taxonomy and equals the documented one for the rule, with a name and URL derived from that ID. All report formats that show the CWE show the same ID.",
  ["programs", "configurations"], "All rules, including those that report only under a configuration.",
  "Tests check that a fixed list of rule IDs maps to a CWE in some formats; rules missing from the list are not noticed.",
  ["issue/issue.go", "cwe/data.go", "cwe/types.go"], [("rule to CWE table", "issue/issue.go ruleToCWE"), ("taxonomy", "cwe/data.go")],
  ["Issue.Cwe, report outputs"])

p("C24", "Every report format contains each finding exactly once with the same data",
  "For any set of findings, each machine- and human-readable format (JSON, YAML, CSV, JUnit XML, HTML, SonarQube, golint, SARIF, text) lists every finding exactly once (suppressed ones only in JSON and SARIF), with the same file, line, column, rule, severity, confidence and message as far as the format has a place for it, and nothing else. The text report marks the lines of the finding, and only those, in its excerpt. Metrics and errors shown equal those of the scan.",
  ["inputs"], "All sets of findings: any number, duplicates, files, lines or ranges, severities, suppression states.",
  "Tests write one finding per rule per format and search for substrings.",
  ["report/formatter.go", "report", "report.go"], [("per-format writers", "report/*/"), ("dispatch", "report/formatter.go CreateReport")],
  ["bytes written by each formatter, parsed back"])

p("C25", "Reports are well-formed and faithful whatever the scanned code contains",
  "Each structured report (JSON, YAML, CSV, JUnit XML, SonarQube, SARIF) parses with a standard parser and yields back the original texts, and the HTML report cannot be escaped from, whatever characters occur in code excerpts, file names, messages, justifications and error texts; characters a format cannot represent appear as replacement characters.",
  ["inputs"], "All texts: quotes, markup, control characters, separators, line separators, invalid UTF-8, long lines.",
  "Tests use short ASCII strings.",
  ["report/junit", "report/csv", "report/html", "report/sarif", "report/json", "report/yaml", "report/sonar", "report/golint"], [("escaping by encoders/templates", "report/*/writer.go, report/junit/types.go")],
  ["bytes written by each formatter, parsed back"])

p("C26", "SARIF reports are internally consistent",
  "In every SARIF report each result's rule index points to a rule descriptor with the result's rule ID, rule descriptors are unique and are those of the results, every CWE reference points to an existing taxonomy entry, levels correspond to severity (low: warning, otherwise error), a descriptor's severity tag, precision and default level are those of a finding of its rule, the version is that of the report, suppressed results and only those have suppressions, and locations are valid URIs relative to the scan root with valid one-based regions.",
  ["inputs", "histories"], "All sequences of findings in any order of rules and any root directories.",
  "Tests use findings of a single rule or already ordered rules; stale indexes need several distinct rules in unfavourable order.",
  ["report/sarif/formatter.go", "report/sarif/builder.go"], [("rule indexing", "report/sarif/formatter.go addRuleInOrder, GenerateReport"), ("locations", "report/sarif/formatter.go parseSarifLocation")],
  ["parsed SARIF documents"])

p("C27", "Configuration survives loading, writing and command-line overrides",
  "Loading a configuration from JSON and writing it yields an equivalent configuration, global options keep their values in their string form, and options read back are those set. A command-line option overrides the same option of the configuration file, and options not given leave the file's value in force. A configuration that cannot be read, is not a JSON object or has global options that are not one is reported as an error, not silently ignored.",
  ["configurations"], "All JSON configurations; all combinations of file values and flags.",
  "Tests load two or three small configurations.",
  ["config.go", "cmd/gosec/main.go"], [("(de)serialisation", "config.go ReadFrom, WriteTo, convertGlobals"), ("flag merge", "cmd/gosec/main.go loadConfig")],
  ["Config values; CLI behaviour"])

p("C28", "AI fixes are attached to the findings they were generated for",
  "When AI fixes are requested, each finding receives the answer generated for a request about that finding's own rule description, whatever the number and order of findings and cached or repeated descriptions. A failing request is reported as an error (and may end the generation) and never attaches a foreign answer or alters any other data of a finding.",
  ["inputs", "fault_sequences"], "All lists of findings with repeated and distinct descriptions, all patterns of failing, empty or slow answers.",
  "Tests use a mock with one finding.",
  ["autofix/ai.go"], [("per-issue generation and cache", "autofix/ai.go generateSolution")],
  ["requests seen by the AI endpoint, Issue.Autofix"])

p("C29", "Scan statistics equal what was scanned and reported",
  "The statistics of a scan count exactly the scanned files, their lines, the suppression comments in them (none when they are ignored) and the unsuppressed findings reported. Totals over several packages are the sums of the single scans.",
  ["programs", "histories"], "All sets of files, suppression comments, options.",
  "Tests check one or two counters on single samples.",
  ["analyzer.go", "cmd/gosec/main.go"], [("counters", "analyzer.go CheckRules, ignore, updateIssues"), ("found count after filtering", "cmd/gosec/main.go")],
  ["Metrics, JSON Stats"])

p("C30", "Recursive package arguments cover exactly the non-excluded Go directories",
  "A recursive package argument expands to exactly the directories below the root that contain a Go file and match no exclusion, each once even if arguments overlap; a plain argument to itself. Vendored code and the directories given for exclusion (patterns of whole path elements) are skipped, with their subdirectories, and the reported findings come from exactly the remaining directories.",
  ["inputs", "configurations"], "All directory trees and exclusion lists.",
  "Tests use one or two small trees.",
  ["helpers.go", "cmd/gosec/main.go"], [("walk", "helpers.go PackagePaths"), ("exclusion patterns", "helpers.go ExcludedDirsRegExp, isExcluded")],
  ["PackagePaths result; CLI Stats"])

p("C31", "Every output destination receives the complete report in its own format",
  "The report written to the output file is complete, uncoloured and in the chosen format, whatever is printed besides and whatever the file held before. Standard output receives the report, with the same findings, in the chosen or the separately selected print format when there is no output file or printing is asked for, and nothing otherwise. A failure to write either one makes the run fail, even with the no-fail option.",
  ["configurations", "fault_sequences"], "All combinations of format, output file, print option, print format, suppression tracking, and unwritable targets.",
  "Tests never run the command.",
  ["cmd/gosec/main.go", "report.go", "report/formatter.go"], [("destinations", "cmd/gosec/main.go printReport, saveReport, main")],
  ["files and stdout of the CLI"])

p("C32", "Findings carry the severity and confidence of their rule",
  "Every finding has the severity and the confidence its rule documents for what it found, whatever else the scan finds, in whatever order, under whatever configuration and selection of rules; a finding's severity and confidence do not depend on other findings. Thresholds on severity and confidence and the reports use these values.",
  ["programs", "configurations", "histories"], "All programs, configurations, rule selections and other findings of the same scan.",
  "The tests of the rules count findings; almost none looks at severity or confidence, and none at several rules in one scan.",
  ["rules/", "analyzers/", "issue/issue.go", "cmd/gosec/main.go"], [("metadata of the rules", "rules/*.go New...; rules/tls.go, analyzers/*.go newIssue calls"), ("scores of a finding", "issue/issue.go New")],
  ["severity and confidence of findings, reports by threshold"])

p("C33", "Ignored findings are shown exactly when asked for, flagged as ignored",
  "With the option to show ignored findings, a scan reports the findings silenced by suppression comments flagged as ignored, besides all others unflagged; without it they are left out (or, when suppressions are tracked, kept without the flag) and no finding is flagged. Nothing else changes: the number of findings counted, the exit status decision and the other findings are the same with and without the option, and no option shows a comment's effect when suppression comments are overridden.",
  ["programs", "configurations", "histories"], "All programs with suppression comments, all settings of the option, several packages in one scan.",
  "Tests use one or two samples with one comment.",
  ["analyzer.go", "cmd/gosec/main.go", "report/text/writer.go", "report/html/writer.go"], [("keeping and flagging", "analyzer.go updateIssues"), ("option", "cmd/gosec/main.go show-ignored")],
  ["Issue.NoSec, Metrics, reports and exit status"])

p("C34", "A scan has no effects besides its report and its log",
  "Scanning never changes, creates or deletes anything besides the output file and the log file asked for, never runs code of the scanned program, starts no program besides the Go tools, and talks to no network service unless a provider and key for generated fixes are given; the requests then made hold only the rule's message, never source text of the scanned program.",
  ["programs", "configurations", "environments"], "All scanned programs, hostile ones included, all options and formats.",
  "Tests look at results only; effects on the file system, processes and the network are not observed by any.",
  ["cmd/gosec/main.go", "analyzer.go", "helpers.go", "autofix/ai.go"], [("program starts", "helpers.go goModVersion, analyzer.go load (go list)"), ("report files", "cmd/gosec/main.go saveReport"), ("requests", "autofix/ai.go")],
  ["file system snapshots, system calls, requests to a stand-in service"])

p("C35", "G601 is reported exactly for Go versions before 1.22, however stated",
  "G601 reports addresses of range variables exactly if the Go version of the scanned program is before 1.22, the version being that of the environment variable GOSECGOVERSION if set (in any of its written forms), otherwise that of the module of the working directory, otherwise that of the Go gosec was built with. No other rule's findings depend on the version.",
  ["programs", "configurations", "environments"], "All Go 1 versions in all written forms and all sources of the version.",
  "Tests set one version through the environment.",
  ["helpers.go", "rules/implicit_aliasing.go"], [("version", "helpers.go GoVersion, parseGoVersion, goModVersion"), ("use", "rules/implicit_aliasing.go Match")],
  ["findings under each stated version"])

p("C36", "Findings do not depend on names, layout or order of the code",
  "Rewriting a program without changing what it means does not change its findings: declarations moved to other files of the package, other names for local variables, parameters, functions, constants, types and labels (other than names that look like credentials or are named in the configuration), another order of top-level declarations in a file, blank lines, comments that suppress nothing, empty statements and blocks around statements, the other spelling of a string literal, or other line endings leave rule, severity, confidence and message of every finding as they are and move its position exactly to where its code went.",
  ["programs"], "All programs and all such rewritings of them.",
  "Tests contain one spelling of each program.",
  ["analyzer.go", "rules/", "analyzers/", "issue/issue.go", "resolve.go"], [("visiting", "analyzer.go Visit"), ("position of a finding", "issue/issue.go New, analyzers/util.go newIssue"), ("matching by meaning", "helpers.go GetCallInfo, call_list.go, import_tracker.go")],
  ["findings of the original and of the rewritten program"])

p("C37", "A section of the configuration affects only its own rule",
  "Adding or changing the configuration section of one rule changes no finding of any other rule in any field, alone or on top of other sections; audit mode changes only findings of G104, to which it only adds; a section that belongs to no rule changes nothing. A rule under its configuration reports the same whether it runs alone or among all others. A permission limit with fewer bits keeps every finding of the wider limit.",
  ["configurations", "programs"], "All configurations, changes of one section, programs.",
  "Tests run one rule with one configuration.",
  ["config.go", "rules/hardcoded_credentials.go", "rules/errors.go", "rules/fileperms.go", "rules/directory-traversal.go"], [("section of a rule", "rules/*.go New...(id, conf)"), ("global options", "config.go IsGlobalEnabled")],
  ["findings under pairs of configurations"])

p("C38", "No finding is reported twice",
  "A report never has two findings that agree in file, lines, column, rule and message, however many rules or patterns match the code, whatever is listed twice (rule IDs, package arguments that overlap, test variants of a package), with suppressions tracked or ignored findings shown.",
  ["programs", "configurations"], "All programs, rule lists, package arguments and options.",
  "Tests count findings of one rule on single samples.",
  ["analyzer.go", "cmd/gosec/main.go", "rules/", "analyzers/"], [("collecting", "analyzer.go updateIssues, hasTestVariant"), ("overlapping arguments", "cmd/gosec/main.go main"), ("several matches of a rule", "rules/hardcoded_credentials.go, analyzers/slice_bounds.go, hardcoded_nonce.go")],
  ["findings of scans and reports"])

p("C39", "Registered rules and analyzers see every node and package exactly once",
  "A rule registered through the library interface is called for every syntax node of its registered kinds in every scanned file (generated files included unless excluded), exactly once and in source order, with the file, file set, types, imports and configuration of that file and values kept within the file only; a registered analyzer runs once per package with the SSA form of that package. Every finding they return is in the results; an error they return is logged and affects nothing else, neither do they affect the findings of other rules. A reset analyzer has no rules and no results.",
  ["programs", "configurations"], "All programs and sets of packages, all kinds of nodes, all rules and analyzers.",
  "Tests register one rule for one kind of node and count calls on one sample.",
  ["analyzer.go", "rule.go", "import_tracker.go", "analyzers/analyzers_set.go"], [("dispatch", "analyzer.go Visit, rule.go RegisteredFor"), ("context of a file", "analyzer.go CheckRules"), ("analyzers", "analyzer.go CheckAnalyzers")],
  ["calls recorded by registered rules and analyzers, Report"])

p("C40", "Generated TLS rules contain exactly the recommended ciphers and versions",
  "The tlsconfig command writes, into the chosen directory, file and package, one constructor for each of the modern, intermediate and old configurations of the fetched recommendations, with exactly the recommended cipher suites (under their IANA and, where it differs, NSS names; ciphers unknown to it left out) and the lowest and highest recommended TLS version, in whatever order the document lists them. A document that cannot be fetched or parsed, or in which a configuration or all of its known versions are missing, gives an error status and leaves existing files alone.",
  ["documents", "command line options", "connections"], "All documents of recommendations and options.",
  "There are no tests of this command.",
  ["cmd/tlsconfig/"], [("fetching", "cmd/tlsconfig/tlsconfig.go getTLSConfFromURL"), ("ciphers and versions", "cmd/tlsconfig/tlsconfig.go getGoCipherConfig, tls_version.go"), ("writing", "cmd/tlsconfig/tlsconfig.go main, header_template.go, rule_template.go")],
  ["written files and status of the command"])

p("C41", "The rule development utility lists exactly what the Go compiler sees",
  "Each tool of gosecutil prints about every given file exactly what the Go parser and type checker say about it: the syntax tree, the comments, and for every identifier, expression and import its definition, use, object, type or exported names, none missing and none added. Missing files and directories are skipped without affecting the others, several tools print one after the other, and an unknown tool is an error. (Files after one which does not type check may be left out.)",
  ["source files", "tools"], "All valid source files.",
  "There are no tests of this command.",
  ["cmd/gosecutil/"], [("tools", "cmd/gosecutil/tools.go")],
  ["standard output of the command"])

p("C42", "Helpers for rule writers agree with the compiler",
  "What the exported helpers tell a rule about the code is what the Go compiler sees there. GetInt, GetFloat, GetChar, GetString and, for literals joined by +, GetStringRecursive and ConcatString give the value of a literal or fail (integers beyond 64 bits, characters beyond a byte, other nodes), never another value; GetBinaryExprOperands gives the operands in order and FindVarIdentities only unknown variables among them; GetLocation gives file and line; GetImportedNames and GetImportPath relate the import paths of the file to the names they really have there; GetCallObject, GetCallInfo, MatchCallByPackage, MatchCompLit and call lists identify a call or type exactly when it is of that package, name or type; the texts among the arguments of a call are those the compiler sees.",
  ["programs"], "All programs, literals, import forms and call lists.",
  "Tests call each helper on one or two nodes.",
  ["helpers.go", "call_list.go", "import_tracker.go", "resolve.go"], [("values", "helpers.go GetInt .. ConcatString"), ("calls", "helpers.go GetCallInfo, MatchCallByPackage, call_list.go"), ("imports", "import_tracker.go, helpers.go GetImportPath")],
  ["answers recorded by a registered rule"])

p("C43", "The log tells what is scanned, and only where it is told to",
  "A run of the command logs, as lines that start with [gosec] and the time, the lists of included and excluded rules and analyzers in force (default if there is none), then every package directory it imports, every package it checks, every file it checks within that package, every generated file that is left out and every argument that does not exist, each of them exactly once, a file after its directory and package. The log goes to standard error, or with -log only to that file (which is replaced), and nowhere with -quiet or -terse; the findings, statistics and exit status do not depend on it and it never mixes with a report. A run that fails prints no report and ends its log with the reason.",
  ["command line", "programs"], "All modules, file selections, rule lists, destinations of log and report, and failing runs.",
  "Tests pass a discarding logger or look for one message.",
  ["cmd/gosec/main.go", "analyzer.go"], [("destination", "cmd/gosec/main.go main"), ("lists", "cmd/gosec/main.go loadRules, loadAnalyzers"), ("trace", "analyzer.go load, CheckRules")],
  ["log of the command"])

p("C44", "Wrong configuration and option values are refused or ignored and never crash",
  "A configuration which cannot be read, is no JSON object or has global options that are none, and unknown levels of severity or confidence, unknown options and reports or logs that cannot be written are refused with a message, a failure status and no report. Every other value in a wrong form - of another type, a number that cannot be parsed or is out of range, a negative length, an invalid expression, a name in a list that is no text - counts exactly as if it were not there: the other values, rules and findings are the same in every field. Global switches are on only for true or enabled. Concurrency below one, unknown rule IDs to exclude, excluded directories and suppression tags that are no expressions and AI options without a known provider change nothing. Nothing crashes or hangs.",
  ["configurations", "command line"], "All JSON documents and texts as configuration, all values of options.",
  "Tests load a few well-formed configurations.",
  ["config.go", "rules/hardcoded_credentials.go", "rules/directory-traversal.go", "rules/errors.go", "rules/fileperms.go", "helpers.go", "cmd/gosec/main.go"], [("reading", "config.go ReadFrom, convertGlobals"), ("values of rules", "rules/hardcoded_credentials.go, directory-traversal.go, errors.go, fileperms.go"), ("options", "cmd/gosec/main.go main, convertToScore")],
  ["gosec -conf", "options of the command"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
