S("c36-shadow-constant", "C36",
 [("rules/sql.go", "	if n.Obj != nil {\n		return n.Obj.Kind != ast.Var && n.Obj.Kind != ast.Fun\n	}\n\n	// Try to resolve unresolved identifiers using other files in same package\n	for _, file := range c.PkgFiles {\n		if node, ok := file.Scope.Objects[n.String()]; ok {\n			return node.Kind != ast.Var && node.Kind != ast.Fun\n		}\n	}\n	return false\n}\n\n// checkQuery verifies if the query parameters is a string concatenation", "	// Look for the identifier in the files of the package\n	for _, file := range c.PkgFiles {\n		if node, ok := file.Scope.Objects[n.String()]; ok {\n			return node.Kind != ast.Var && node.Kind != ast.Fun\n		}\n	}\n\n	if n.Obj != nil {\n		return n.Obj.Kind != ast.Var && n.Obj.Kind != ast.Fun\n	}\n	return false\n}\n\n// checkQuery verifies if the query parameters is a string concatenation")],
 '''build
file a.go <<'X'
package m

import "database/sql"

const Suffix = "x"

func F(db *sql.DB, Suffix string) {
	_, _ = db.Query("SELECT a FROM b WHERE c = '" + Suffix)
}

func G(db *sql.DB, suffix string) {
	_, _ = db.Query("SELECT a FROM b WHERE c = '" + suffix)
}
X
expect "findings" "$(rows -include=G202)" "a.go:8 G202
a.go:12 G202"
''', "a parameter that has the name of a package-level constant", "it is taken for the constant")
S("c36-late-variable", "C36",
 [("resolve.go", "	if node, ok := n.Obj.Decl.(ast.Node); ok {\n		return TryResolve(node, c)\n	}\n	return false\n}\n\nfunc resolveValueSpec", "	if node, ok := n.Obj.Decl.(ast.Node); ok && node.Pos() <= n.Pos() {\n		return TryResolve(node, c)\n	}\n	return false\n}\n\nfunc resolveValueSpec")],
 '''build
file a.go <<'X'
package m

import "os"

var early = "/etc/a"

func F() {
	_, _ = os.ReadFile(early)
	_, _ = os.ReadFile(late)
}

var late = "/etc/b"
X
expect "findings" "$(rows -include=G304)" ""
''', "a package-level variable declared below its use", "its value is not resolved there")
S("c36-register", "C36",
 [("analyzers/conversion_overflow.go", "	if aVal == bVal {\n		return true\n	}\n", "	if aVal == bVal || aVal.Name() == bVal.Name() {\n		return true\n	}\n")],
 '''build
file a.go <<'X'
package m

func g() int { return 1 << 40 }

func F(t0 int) int8 {
	v := g()
	if t0 < -128 || t0 > 127 {
		return 0
	}
	return int8(v)
}

func G(t9 int) int8 {
	v := g()
	if t9 < -128 || t9 > 127 {
		return 0
	}
	return int8(v)
}
X
expect "findings" "$(rows -include=G115)" "a.go:10 G115
a.go:18 G115"
''', "a parameter called like the register of the converted value", "the check of the parameter silences the conversion")
S("c37-create-mode", "C37",
 [("rules/fileperms.go", "	mode := getConfiguredMode(conf, id, 0o666)\n", "	mode := getConfiguredMode(conf, id, getConfiguredMode(conf, \"G302\", 0o666))\n")],
 '''build
file a.go <<'X'
package m

import "os"

var A, _ = os.Create("x")
X
echo '{"G302": "0600"}' | file c.json
expect "findings" "$(rows -conf=c.json -include=G307)" ""
''', "a limit configured for G302 and none for G307", "os.Create is judged by the limit of another rule")
S("c37-audit-entropy", "C37",
 [("rules/hardcoded_credentials.go", "		if configEntropyThreshold, ok := conf[\"entropy_threshold\"]; ok {\n", "		if audit, err := config.IsGlobalEnabled(gosec.Audit); err == nil && audit {\n			ignoreEntropy = true\n		}\n		if configEntropyThreshold, ok := conf[\"entropy_threshold\"]; ok {\n"), ("rules/hardcoded_credentials.go", "	truncateString := 16\n", "	truncateString, config := 16, conf\n")],
 '''build
file a.go <<'X'
package m

func F() string {
	password := "aaaaaa"
	return password
}
X
echo '{"G101": {"truncate": "16"}}' | file c.json
expect "plain" "$(rows -conf=c.json -include=G101)" "$(rows -include=G101)"
expect "audit" "$(rows -conf=c.json -enable-audit -include=G101)" "$(rows -include=G101)"
''', "audit mode together with a G101 section", "G101 reports weak strings, too")
S("c38-closures", "C38",
 [("analyzers/conversion_overflow.go", "	issues := []*issue.Issue{}\n	for _, mcall := range ssaResult.SSA.SrcFuncs {\n", "	issues := []*issue.Issue{}\n	functions := ssaResult.SSA.SrcFuncs\n	for _, fn := range ssaResult.SSA.SrcFuncs {\n		if fn.Parent() != nil {\n			functions = append(functions, fn.AnonFuncs...)\n		}\n	}\n	for _, mcall := range functions {\n")],
 '''build
file a.go <<'X'
package m

func F(n int) func() func() int8 {
	return func() func() int8 {
		return func() int8 {
			return int8(n)
		}
	}
}
X
expect "findings" "$(rows -include=G115)" "a.go:6 G115"
''', "a conversion in a closure within a closure", "it is reported twice")
S("c39-error-stops", "C39",
 [("analyzer.go", "		if err != nil {\n			file, line := GetLocation(n, gosec.context)\n			file = path.Base(file)\n			gosec.logger.Printf(\"Rule error: %v => %s (%s:%d)\\n\", reflect.TypeOf(rule), err, file, line)\n		}\n		gosec.updateIssues(issue)\n", "		if err != nil {\n			return gosec.ruleFailed(n, rule, err)\n		}\n		gosec.updateIssues(issue)\n"),
  ("analyzer.go", "	return gosec\n}\n\n// newCommentMap", "	return gosec\n}\n\nfunc (gosec *Analyzer) ruleFailed(n ast.Node, rule Rule, err error) ast.Visitor {\n	file, line := GetLocation(n, gosec.context)\n	gosec.logger.Printf(\"Rule error: %v => %s (%s:%d)\\n\", reflect.TypeOf(rule), err, path.Base(file), line)\n	return gosec\n}\n\n// newCommentMap")],
 '''gotest . demo_test.go
''', "a rule that fails for a node other rules match", "the other rules do not see the node", demo_test_go='''
package gosec

import (
	"errors"
	"go/ast"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/securego/gosec/v2/issue"
)

type failing struct{ id string }

func (f failing) ID() string { return f.id }
func (f failing) Match(n ast.Node, c *Context) (*issue.Issue, error) {
	if f.id != "G998" {
		return nil, errors.New("no")
	}
	return c.NewIssue(n, f.id, "x", issue.High, issue.High), nil
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module x\\n\\ngo 1.22\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "a.go"), []byte("package a\\n\\nvar x = len(\\"\\")\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	wd, _ := os.Getwd()
	defer func() { _ = os.Chdir(wd) }()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	for _, ids := range [][]string{{"G998", "G999"}, {"G999", "G998"}} {
		a := NewAnalyzer(NewConfig(), false, false, false, 1, log.New(io.Discard, "", 0))
		for _, id := range ids {
			a.ruleset.Register(failing{id}, false, (*ast.CallExpr)(nil))
		}
		if err := a.Process(nil, dir); err != nil {
			t.Fatal(err)
		}
		if issues, _, _ := a.Report(); len(issues) != 1 {
			t.Errorf("%v: %d findings", ids, len(issues))
		}
	}
}
''')
S("c39-comments", "C39",
 [("analyzer.go", "	// Using ast.File instead of ast.ImportSpec, so that we can track all imports at once.\n	switch i := n.(type) {\n", "	// Using ast.File instead of ast.ImportSpec, so that we can track all imports at once. There is nothing to\n	// check in comments.\n	switch i := n.(type) {\n	case *ast.CommentGroup:\n		return nil\n")],
 '''gotest . demo_test.go
''', "a registered rule that looks at comments", "it is not called for them", demo_test_go='''
package gosec

import (
	"go/ast"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/securego/gosec/v2/issue"
)

type commentRule struct{}

func (commentRule) ID() string { return "G998" }
func (commentRule) Match(n ast.Node, c *Context) (*issue.Issue, error) {
	return c.NewIssue(n, "G998", "x", issue.High, issue.High), nil
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module x\\n\\ngo 1.22\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "a.go"), []byte("package a\\n\\n// x is a variable\\nvar x = 1\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	wd, _ := os.Getwd()
	defer func() { _ = os.Chdir(wd) }()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	a := NewAnalyzer(NewConfig(), false, false, false, 1, log.New(io.Discard, "", 0))
	a.ruleset.Register(commentRule{}, false, (*ast.Comment)(nil))
	if err := a.Process(nil, dir); err != nil {
		t.Fatal(err)
	}
	if issues, _, _ := a.Report(); len(issues) != 1 {
		t.Errorf("%d findings", len(issues))
	}
}
''')
S("c39-analyzer-stops", "C39",
 [("analyzer.go", "			gosec.logger.Printf(\"Error running analyzer %s: %s\\n\", analyzer.Name, err)\n			continue\n", "			gosec.logger.Printf(\"Error running analyzer %s: %s\\n\", analyzer.Name, err)\n			break\n")],
 '''gotest . demo_test.go
''', "an analyzer that fails", "those registered after it do not run", demo_test_go='''
package gosec

import (
	"errors"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/analysis"

	"github.com/securego/gosec/v2/issue"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module x\\n\\ngo 1.22\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "a.go"), []byte("package a\\n\\nvar x = 1\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	wd, _ := os.Getwd()
	defer func() { _ = os.Chdir(wd) }()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	a := NewAnalyzer(NewConfig(), false, false, false, 1, log.New(io.Discard, "", 0))
	a.analyzerSet.Register(&analysis.Analyzer{Name: "G997", Doc: "x", Run: func(*analysis.Pass) (interface{}, error) { return nil, errors.New("no") }}, false)
	a.analyzerSet.Register(&analysis.Analyzer{Name: "G998", Doc: "x", Run: func(*analysis.Pass) (interface{}, error) {
		return []*issue.Issue{{RuleID: "G998", File: filepath.Join(dir, "a.go"), Line: "3"}}, nil
	}}, false)
	if err := a.Process(nil, dir); err != nil {
		t.Fatal(err)
	}
	if issues, _, _ := a.Report(); len(issues) != 1 {
		t.Errorf("%d findings", len(issues))
	}
}
''')
S("c39-file-values", "C39",
 [("analyzer.go", "		gosec.context.PassedValues = make(map[string]interface{})\n", "		if gosec.context.PassedValues == nil || file == pkg.Syntax[0] {\n			gosec.context.PassedValues = make(map[string]interface{})\n		}\n")],
 '''gotest . demo_test.go
''', "a rule that keeps values and a package of several files", "it finds the values of another file", demo_test_go='''
package gosec

import (
	"go/ast"
	"io"
	"log"
	"os"
	"path/filepath"
	"testing"

	"github.com/securego/gosec/v2/issue"
)

type keeping struct{ n int }

func (*keeping) ID() string { return "G998" }
func (k *keeping) Match(n ast.Node, c *Context) (*issue.Issue, error) {
	if c.PassedValues["G998"] != nil {
		k.n++
	}
	c.PassedValues["G998"] = true
	return nil, nil
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	for n, x := range map[string]string{"go.mod": "module x\\n\\ngo 1.22\\n", "a.go": "package a\\n", "b.go": "package a\\n"} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(x), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	wd, _ := os.Getwd()
	defer func() { _ = os.Chdir(wd) }()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	a := NewAnalyzer(NewConfig(), false, false, false, 1, log.New(io.Discard, "", 0))
	k := &keeping{}
	a.ruleset.Register(k, false, (*ast.File)(nil))
	if err := a.Process(nil, dir); err != nil {
		t.Fatal(err)
	}
	if k.n > 0 {
		t.Errorf("values of another file")
	}
}
''')
