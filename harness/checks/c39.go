package checks

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/analysis"
	"golang.org/x/tools/go/analysis/passes/buildssa"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// nodeKinds are what a rule can register for.
var nodeKinds = []ast.Node{
	(*ast.File)(nil), (*ast.Ident)(nil), (*ast.CallExpr)(nil), (*ast.SelectorExpr)(nil), (*ast.BasicLit)(nil), (*ast.BinaryExpr)(nil), (*ast.UnaryExpr)(nil), (*ast.CompositeLit)(nil),
	(*ast.KeyValueExpr)(nil), (*ast.FuncDecl)(nil), (*ast.FuncLit)(nil), (*ast.FuncType)(nil), (*ast.GenDecl)(nil), (*ast.ImportSpec)(nil), (*ast.ValueSpec)(nil), (*ast.TypeSpec)(nil),
	(*ast.AssignStmt)(nil), (*ast.ExprStmt)(nil), (*ast.ReturnStmt)(nil), (*ast.IfStmt)(nil), (*ast.ForStmt)(nil), (*ast.RangeStmt)(nil), (*ast.BlockStmt)(nil), (*ast.SwitchStmt)(nil),
	(*ast.CaseClause)(nil), (*ast.SelectStmt)(nil), (*ast.CommClause)(nil), (*ast.GoStmt)(nil), (*ast.DeferStmt)(nil), (*ast.StructType)(nil), (*ast.Field)(nil), (*ast.FieldList)(nil),
	(*ast.IndexExpr)(nil), (*ast.SliceExpr)(nil), (*ast.StarExpr)(nil), (*ast.ParenExpr)(nil), (*ast.ArrayType)(nil), (*ast.MapType)(nil), (*ast.InterfaceType)(nil), (*ast.IncDecStmt)(nil), (*ast.DeclStmt)(nil), (*ast.LabeledStmt)(nil), (*ast.BranchStmt)(nil), (*ast.Comment)(nil), (*ast.CommentGroup)(nil), (*ast.TypeAssertExpr)(nil), (*ast.TypeSwitchStmt)(nil), (*ast.Ellipsis)(nil), (*ast.ChanType)(nil), (*ast.SendStmt)(nil), (*ast.IndexListExpr)(nil),
}

// spy is a rule which records what it is called with.
type spy struct {
	id    string
	conf  gosec.Config // given to its builder
	kinds []ast.Node
	reply func(n ast.Node, c *gosec.Context) (*issue.Issue, error)
	calls []call
	store bool
}

type call struct {
	n     ast.Node
	c     gosec.Context
	imps  string // imports tracked at that time
	keep  int    // calls with the same context store
	issue *issue.Issue
	err   error
}

func (s *spy) ID() string { return s.id }

func (s *spy) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
	k := call{n: n, c: *c, imps: trackedImports(c.Imports)}
	if s.store && c.PassedValues != nil {
		if v, ok := c.PassedValues[s.id].(int); ok {
			k.keep = v
		}
		c.PassedValues[s.id] = k.keep + 1
	}
	k.issue, k.err = s.reply(n, c)
	s.calls = append(s.calls, k)
	return k.issue, k.err
}

func trackedImports(t *gosec.ImportTracker) string {
	if t == nil {
		return "none"
	}
	var l []string
	for p, names := range t.Imported {
		l = append(l, p+"="+strings.Join(names, "|"))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// importsOf is what there is to track in a file.
func importsOf(f *ast.File, info *types.Info) string {
	m := map[string][]string{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		switch {
		case s.Name == nil:
			m[p] = append(m[p], info.Implicits[s].Name())
		case s.Name.Name != "_":
			m[p] = append(m[p], s.Name.Name)
		}
	}
	var l []string
	for p, names := range m {
		l = append(l, p+"="+strings.Join(names, "|"))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func init() {
	All["C39"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("recording rules and analyzers registered through the library interface for random kinds of syntax nodes, next to gosec's own or alone, over programs of all kinds in one to four packages: every rule has to see exactly the nodes of its kinds, each once, in source order, with the context of their file; what it returns has to be in the results as it is, errors only in the log; an analyzer has to run once per package with the package's own SSA form; gosec's own findings stay the same; scans of modules by path are compared with the files on disk; non-trivial: a rule is called")
		gen := append(samplePrograms(), generatedPrograms(r, r.N(50, 500))...)
		r.Parallel(r.N(900, 10000), func(i int, rng *rand.Rand) {
			var lds []*vh.Loaded
			src := map[string]string{}
			for k := vh.Pick(rng, 1, 1, 2, 4); k > 0; k-- {
				files := vh.PickS(rng, gen).files
				if rng.Intn(2) == 0 {
					files = corpusPkg(rng, "p", 2+rng.Intn(6), 1+rng.Intn(4), rng.Intn(2))
				}
				if rng.Intn(4) == 0 {
					f := files[rng.Intn(len(files))]
					files = append([]vh.Src{{Name: "gen.go", Text: "// Code generated by x. DO NOT EDIT.\n\npackage " + packageName(f.Text) + "\n\nimport \"crypto/md5\"\n\nvar generatedSum = md5.New()\n"}}, files...)
				}
				ld, err := env(r).Load(files, nil)
				if err != nil || len(ld.TypeErr) > 0 {
					continue
				}
				defer ld.Remove()
				for n, t := range vh.SrcMap(files) {
					src[fmt.Sprintf("p%d/%s", len(lds), n)] = t
				}
				lds = append(lds, ld)
			}
			if len(lds) == 0 {
				return
			}
			fail := func(kind, format string, a ...any) {
				r.Violation("rules/"+kind, fmt.Sprintf(format, a...), src)
			}
			conf := gosec.NewConfig()
			conf["G990"] = "mine"
			if rng.Intn(3) == 0 {
				conf.SetGlobal(gosec.Audit, "true")
			}
			exclGen, own, track := rng.Intn(3) == 0, rng.Intn(2) == 0, rng.Intn(4) == 0
			var logged bytes.Buffer
			mk := func() *gosec.Analyzer {
				return gosec.NewAnalyzer(conf, false, exclGen, track, 1, log.New(&logged, "", 0))
			}
			// what gosec's own rules find
			a := mk()
			vh.LoadInto(a, vh.Opts{Track: track})
			plain := vh.ScanWith(a, lds...)
			a = mk()
			var spies []*spy
			defs, off := map[string]gosec.RuleBuilder{}, map[string]bool{}
			for k := 1 + rng.Intn(5); k > 0; k-- {
				s := &spy{id: fmt.Sprintf("G99%d", k), store: rng.Intn(2) == 0}
				for _, j := range rng.Perm(len(nodeKinds))[:1+rng.Intn(5)] {
					s.kinds = append(s.kinds, nodeKinds[j])
				}
				found, failing := vh.Pick(rng, 0, 3, 30), vh.Pick(rng, 0, 0, 20)
				h := rng.Intn(1000)
				s.reply = func(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
					h = (h*31 + int(n.Pos())) % 1009
					var is *issue.Issue
					var err error
					if found > 0 && h%found == 0 && n.Pos().IsValid() {
						is = c.NewIssue(n, s.id, fmt.Sprintf("spied %T %d", n, h), issue.Score(h%3), issue.Score(h/3%3))
					}
					if failing > 0 && h%failing == 1 {
						err = fmt.Errorf("spy failure %s %d", s.id, h)
					}
					return is, err
				}
				defs[s.id] = func(id string, c gosec.Config) (gosec.Rule, []ast.Node) {
					s.conf = c
					if id != s.id {
						fail("id", "the builder of rule %s is called for %q", s.id, id)
					}
					return s, s.kinds
				}
				off[s.id] = false
				spies = append(spies, s)
			}
			a.LoadRules(defs, off)
			// recording analyzers
			type run struct {
				pass *analysis.Pass
				ssa  *analyzers.SSAAnalyzerResult
			}
			runs := map[string][]run{}
			given := map[string][]*issue.Issue{}
			adefs, aoff := map[string]analyzers.AnalyzerDefinition{}, map[string]bool{}
			for k := rng.Intn(3); k > 0; k-- {
				id := fmt.Sprintf("G98%d", k)
				way := rng.Intn(5)
				adefs[id] = analyzers.AnalyzerDefinition{ID: id, Description: "records", Create: func(id, doc string) *analysis.Analyzer {
					return &analysis.Analyzer{Name: id, Doc: doc, Requires: []*analysis.Analyzer{buildssa.Analyzer}, Run: func(p *analysis.Pass) (any, error) {
						s, _ := p.ResultOf[buildssa.Analyzer].(*analyzers.SSAAnalyzerResult)
						runs[id] = append(runs[id], run{p, s})
						if way == 0 {
							return nil, errors.New("analyzer failure " + id)
						}
						if way == 1 {
							return nil, nil
						}
						var is []*issue.Issue
						for _, f := range p.Files {
							x := issue.New(p.Fset.File(f.Pos()), f.Name, id, "spied package clause", issue.High, issue.Low)
							is = append(is, x)
							if !exclGen || !ast.IsGenerated(f) {
								given[id] = append(given[id], x)
							}
						}
						return is, nil
					}}
				}}
				aoff[id] = false
			}
			a.LoadAnalyzers(adefs, aoff)
			if own {
				vh.LoadInto(a, vh.Opts{Track: track})
			}
			logged.Reset()
			func() {
				defer func() {
					if p := recover(); p != nil {
						fail("panic", "%v\n%s", p, debug.Stack())
					}
				}()
				for _, l := range lds {
					a.CheckRules(l.Pkg)
					a.CheckAnalyzers(l.Pkg)
				}
			}()
			res, stats, errs := a.Report()
			if len(errs) > 0 {
				fail("errors", "failing rules appear as errors of the scan: %v", errs)
			}
			// what every rule had to see
			total, scanned := 0, 0
			type where struct {
				n  ast.Node
				ld *vh.Loaded
				f  *ast.File
			}
			var all []where
			for _, l := range lds {
				for _, f := range l.Pkg.Syntax {
					if exclGen && ast.IsGenerated(f) {
						continue
					}
					scanned++
					ast.Inspect(f, func(n ast.Node) bool {
						if n != nil {
							all = append(all, where{n, l, f})
						}
						return true
					})
				}
			}
			if stats.NumFiles != scanned {
				fail("files", "%d files counted, %d scanned", stats.NumFiles, scanned)
			}
			ours := map[*issue.Issue]int{}
			for _, s := range spies {
				kinds := map[reflect.Type]bool{}
				for _, n := range s.kinds {
					kinds[reflect.TypeOf(n)] = true
				}
				j := 0
				keep := map[*ast.File]int{}
				for _, w := range all {
					if !kinds[reflect.TypeOf(w.n)] {
						continue
					}
					if j >= len(s.calls) {
						fail("nodes", "rule %s for %v is not called for a %T at %v", s.id, sortedTypes(kinds), w.n, w.ld.Pkg.Fset.Position(w.n.Pos()))
						break
					}
					k := s.calls[j]
					j++
					at := w.ld.Pkg.Fset.Position(w.n.Pos())
					if k.n != w.n {
						fail("nodes", "rule %s for %v: call %d is for a %T instead of the %T at %v", s.id, sortedTypes(kinds), j, k.n, w.n, at)
						break
					}
					total++
					if k.c.Root != w.f || k.c.FileSet != w.ld.Pkg.Fset || k.c.Info != w.ld.Pkg.TypesInfo || k.c.Pkg != w.ld.Pkg.Types || len(k.c.PkgFiles) != len(w.ld.Pkg.Syntax) {
						fail("context", "rule %s at %v has the context of another file or package", s.id, at)
						break
					}
					if fmt.Sprint(k.c.Config["G990"]) != "mine" {
						fail("config", "rule %s at %v has another configuration: %v", s.id, at, k.c.Config)
						break
					}
					if want := importsOf(w.f, w.ld.Pkg.TypesInfo); k.imps != want {
						fail("imports", "rule %s at %v sees the imports %s instead of %s", s.id, at, k.imps, want)
						break
					}
					if s.store {
						if k.keep != keep[w.f] {
							fail("values", "rule %s at %v finds the value %d of an earlier call in this file, not %d", s.id, at, k.keep, keep[w.f])
							break
						}
						keep[w.f]++
					}
				}
				if j < len(s.calls) {
					k := s.calls[j]
					fail("nodes", "rule %s for %v is called once more for a %T", s.id, sortedTypes(kinds), k.n)
				}
				for _, k := range s.calls {
					if k.issue != nil {
						ours[k.issue]++
					}
					if k.err != nil {
						r.Count("failing calls", 1)
						p := k.c.FileSet.Position(k.n.Pos())
						if want := fmt.Sprintf("%s (%s:%d)", k.err, filepath.Base(p.Filename), p.Line); k.n.Pos().IsValid() && !strings.Contains(logged.String(), want) {
							fail("log", "the log does not tell about %q", want)
						}
					}
				}
				if fmt.Sprint(s.conf["G990"]) != "mine" {
					fail("config", "the builder of rule %s gets another configuration: %v", s.id, s.conf)
				}
				r.Count("calls of rules", int64(len(s.calls)))
			}
			for id := range adefs {
				if len(runs[id]) != len(lds) {
					fail("analyzer", "analyzer %s runs %d times for %d packages", id, len(runs[id]), len(lds))
					continue
				}
				for k, x := range runs[id] {
					p := lds[k].Pkg
					if x.pass.Pkg != p.Types || x.pass.Fset != p.Fset || x.pass.TypesInfo != p.TypesInfo || len(x.pass.Files) != len(p.Syntax) || x.ssa == nil || x.ssa.SSA.Pkg.Pkg != p.Types || x.ssa.Logger == nil || fmt.Sprint(x.ssa.Config["G990"]) != "mine" {
						fail("analyzer", "run %d of analyzer %s has not the data of its package", k, id)
					}
				}
				for _, x := range given[id] {
					ours[x]++
				}
				r.Count("analyzer runs", int64(len(runs[id])))
			}
			// the results: theirs, and those of gosec's own rules
			var rest []*issue.Issue
			for _, x := range res {
				if strings.HasPrefix(x.RuleID, "G99") || strings.HasPrefix(x.RuleID, "G98") {
					ours[x]--
				} else {
					rest = append(rest, x)
				}
			}
			silenced := 0
			for x, n := range ours {
				if n == 0 {
					continue
				}
				// the sample programs have comments which silence everything
				if n == 1 && strings.Contains(strings.ToLower(lds[0].Src[x.File]+srcOf(lds, x.File)), "nosec") || strings.Contains(srcOf(lds, x.File), "gosec:") {
					silenced++
					continue
				}
				fail("results", "%d times less than returned: %s", n, findingText(x))
			}
			r.Count("findings of recording rules", int64(len(ours)-silenced))
			id := func(s string) string { return s }
			var want []string
			if own {
				want = fullSorted(plain.Issues, "", id)
			}
			if m, e := vh.Diff(want, fullSorted(rest, "", id)); len(m)+len(e) > 0 {
				fail("own", "next to other rules gosec's own find something else\nmissing: %q\nextra: %q", m, e)
			}
			r.Eval(fmt.Sprintf("packages %d own rules %v", len(lds), own), fmt.Sprint(src, len(spies)), total > 0)
			if i%61 == 7 {
				r.Sample(map[string]any{"packages": len(lds), "rules": len(spies), "calls": total, "analyzers": len(adefs), "findings": len(res)})
			}
			// a reset analyzer knows neither rules nor results
			if rng.Intn(4) == 0 {
				a.Reset()
				n := 0
				for _, s := range spies {
					n += len(s.calls)
				}
				again := vh.ScanWith(a, lds...)
				for _, s := range spies {
					n -= len(s.calls)
				}
				if n != 0 || len(again.Issues) > 0 || again.Metrics.NumFound != 0 || again.Metrics.NumFiles != scanned {
					fail("reset", "after a reset: %d calls, %d findings, %+v", -n, len(again.Issues), again.Metrics)
				}
			}
		})
		// by path
		r.Parallel(r.N(6, 60), func(i int, rng *rand.Rand) {
			p := newProjectOf(r, rng, 1+rng.Intn(4), rng.Intn(2) == 0, true)
			defer os.RemoveAll(p.dir)
			var mu sync.Mutex
			got := map[string]int{}
			kinds := []ast.Node{(*ast.File)(nil), (*ast.CallExpr)(nil), (*ast.ImportSpec)(nil), (*ast.BasicLit)(nil)}
			s := &spy{id: "G990", kinds: kinds, reply: func(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
				pos := c.FileSet.PositionFor(n.Pos(), false)
				mu.Lock()
				got[fmt.Sprintf("%s:%d %T", pos.Filename, pos.Offset, n)]++
				mu.Unlock()
				return nil, nil
			}}
			a := gosec.NewAnalyzer(gosec.NewConfig(), false, false, false, 1+rng.Intn(6), log.New(&bytes.Buffer{}, "", 0))
			a.LoadRules(map[string]gosec.RuleBuilder{"G990": func(string, gosec.Config) (gosec.Rule, []ast.Node) { return s, kinds }}, nil)
			var dirs []string
			for _, d := range p.pkgs {
				dirs = append(dirs, filepath.Join(p.dir, d))
			}
			if err := a.Process(nil, dirs...); err != nil {
				r.Violation("paths/error", err.Error(), nil)
				return
			}
			want := map[string]int{}
			files := map[string]bool{}
			for k := range got {
				f, _, _ := strings.Cut(k, ".go:")
				files[f+".go"] = true
			}
			src := map[string]string{}
			for f := range files {
				b, err := os.ReadFile(f)
				if err != nil {
					r.Violation("paths/file", "a rule is called for a file which does not exist: "+f, nil)
					continue
				}
				src[filepath.Base(f)] = string(b)
				fset := token.NewFileSet()
				af, err := parser.ParseFile(fset, f, b, parser.SkipObjectResolution)
				if err != nil {
					continue
				}
				ast.Inspect(af, func(n ast.Node) bool {
					switch n.(type) {
					case *ast.File, *ast.CallExpr, *ast.ImportSpec, *ast.BasicLit:
						want[fmt.Sprintf("%s:%d %T", f, fset.PositionFor(n.Pos(), false).Offset, n)]++
					}
					return true
				})
			}
			r.Eval("modules", fmt.Sprint(i, src), len(want) > 0)
			r.Count("nodes in modules", int64(len(want)))
			for k, n := range want {
				if got[k] != n {
					r.Violation("paths/nodes", fmt.Sprintf("%s: %d calls instead of %d", k, got[k], n), src)
				}
			}
			for k, n := range got {
				if want[k] == 0 {
					r.Violation("paths/nodes", fmt.Sprintf("%s: %d calls instead of none", k, n), src)
				}
			}
		})
		r.Need("calls of rules", 20000)
		r.Need("failing calls", 100)
		r.Need("findings of recording rules", 2000)
		r.Need("analyzer runs", 100)
		r.Need("nodes in modules", 100)
	}
}

func sortedTypes(m map[reflect.Type]bool) []string {
	var l []string
	for t := range m {
		l = append(l, t.String())
	}
	sort.Strings(l)
	return l
}

// srcOf is the text of a file of one of the packages.
func srcOf(lds []*vh.Loaded, file string) string {
	for _, l := range lds {
		if t, ok := l.Src[file]; ok {
			return t
		}
	}
	return ""
}

// packageName is the name in the package clause.
func packageName(text string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, parser.PackageClauseOnly)
	if err != nil {
		return "p"
	}
	return f.Name.Name
}
