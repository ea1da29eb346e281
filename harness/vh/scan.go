package vh

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/analyzers"
	"github.com/securego/gosec/v2/issue"
	"github.com/securego/gosec/v2/rules"
)

// Libs are the import paths generated programs may use.
var Libs = []string{
	"archive/tar", "archive/zip", "bufio", "bytes", "compress/bzip2", "compress/flate", "compress/gzip", "compress/lzw", "compress/zlib",
	"context", "crypto", "crypto/aes", "crypto/cipher", "crypto/des", "crypto/md5", "crypto/rand", "crypto/rc4", "crypto/rsa", "crypto/sha1", "crypto/sha256", "crypto/tls", "crypto/x509",
	"database/sql", "encoding/binary", "encoding/hex", "encoding/base64", "encoding/json", "errors", "fmt", "hash", "html/template", "io", "io/ioutil", "io/fs", "log", "math", "math/big", "math/rand", "math/rand/v2",
	"net", "net/http", "net/http/cgi", "net/http/pprof", "net/url", "os", "os/exec", "path", "path/filepath", "regexp", "sort", "strconv", "strings", "sync", "syscall", "text/template", "time", "unsafe", "go/ast",
	"github.com/lib/pq", "golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160", "golang.org/x/crypto/ssh", "golang.org/x/sys/execabs",
}

// Env type checks generated programs against compiled libraries.
type Env struct {
	exports map[string]string
	Tmp     string
	seq     atomic.Int64
	pool    sync.Pool
}

type imp struct {
	fset *token.FileSet
	gc   types.Importer
}

// NewEnv lists the export data of the libraries.
func NewEnv(tmp, modDir string) (*Env, error) {
	args := append([]string{"list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}"}, Libs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = modDir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list -export: %w: %s", err, eb.String())
	}
	e := &Env{exports: map[string]string{}, Tmp: tmp}
	for _, l := range strings.Split(string(out), "\n") {
		if p, x, ok := strings.Cut(l, "\t"); ok && x != "" {
			e.exports[p] = x
		}
	}
	e.pool.New = func() any {
		fset := token.NewFileSet()
		return &imp{fset: fset, gc: importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
			x, ok := e.exports[p]
			if !ok {
				return nil, fmt.Errorf("no export data for %s", p)
			}
			return os.Open(x)
		})}
	}
	return e, nil
}

// Src is one source file.
type Src struct{ Name, Text string }

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(p string) (*types.Package, error) { return f(p) }

// Dir makes a fresh scratch directory.
func (e *Env) Dir() string {
	d := filepath.Join(e.Tmp, fmt.Sprintf("p%d", e.seq.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// Loaded is a type-checked package with its sources on disk.
type Loaded struct {
	Pkg     *packages.Package
	Dir     string
	Src     map[string]string // absolute path -> text
	TypeErr []error
}

// Remove deletes the sources.
func (l *Loaded) Remove() { os.RemoveAll(l.Dir) }

// Load writes the files to a fresh directory, parses and type checks them.
func (e *Env) Load(files []Src, extra map[string]*types.Package) (*Loaded, error) {
	return e.LoadIn(e.Dir(), files, extra)
}

// Namesakes is where packages are whose paths end like those of others, but
// which have other names.
const Namesakes = "example.com/ns/"

func namesakeName(path string) string {
	return "ns" + strings.Map(func(c rune) rune {
		if c < 'a' || c > 'z' {
			return -1
		}
		return c
	}, path)
}

func namesake(path string) (*types.Package, bool) {
	of, ok := strings.CutPrefix(path, Namesakes)
	if !ok {
		return nil, false
	}
	p := types.NewPackage(path, namesakeName(of))
	p.Scope().Insert(types.NewFunc(token.NoPos, p, "Do", types.NewSignatureType(nil, nil, nil, nil, nil, false)))
	p.MarkComplete()
	return p, true
}

// LoadIn is Load into a given directory.
func (e *Env) LoadIn(dir string, files []Src, extra map[string]*types.Package) (*Loaded, error) {
	im := e.pool.Get().(*imp)
	defer e.pool.Put(im)
	l := &Loaded{Dir: dir, Src: map[string]string{}}
	fset := token.NewFileSet()
	var syntax []*ast.File
	var names []string
	for _, f := range files {
		p := filepath.Join(dir, f.Name)
		if err := os.WriteFile(p, []byte(f.Text), 0o644); err != nil {
			return nil, err
		}
		l.Src[p] = f.Text
		names = append(names, p)
		af, err := parser.ParseFile(fset, p, f.Text, parser.ParseComments|parser.AllErrors)
		if err != nil {
			l.TypeErr = append(l.TypeErr, err)
			if af == nil {
				continue
			}
		}
		syntax = append(syntax, af)
	}
	if len(syntax) == 0 {
		return l, fmt.Errorf("nothing parsed: %v", l.TypeErr)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{},
	}
	sizes := types.SizesFor("gc", "amd64")
	conf := types.Config{
		Importer: importerFunc(func(p string) (*types.Package, error) {
			if p == "unsafe" {
				return types.Unsafe, nil
			}
			if x, ok := extra[p]; ok {
				return x, nil
			}
			if x, ok := namesake(p); ok {
				return x, nil
			}
			return im.gc.Import(p)
		}),
		Sizes:     sizes,
		GoVersion: "go1.23",
		Error:     func(err error) { l.TypeErr = append(l.TypeErr, err) },
	}
	tp, _ := conf.Check("example.com/"+filepath.Base(dir), fset, syntax, info)
	l.Pkg = &packages.Package{
		ID: tp.Path(), Name: tp.Name(), PkgPath: tp.Path(), GoFiles: names, CompiledGoFiles: names,
		Fset: fset, Syntax: syntax, Types: tp, TypesInfo: info, TypesSizes: sizes,
	}
	return l, nil
}

// Opts are scan options.
type Opts struct {
	Conf             gosec.Config
	Include, Exclude []string
	Track            bool
	Tests            bool
	ExclGen          bool
	Concurrency      int
	NoAnalyzers      bool
	NoRules          bool
}

// NewAnalyzer builds a gosec analyzer with the rules selected by the options.
func NewAnalyzer(o Opts) *gosec.Analyzer {
	conf := o.Conf
	if conf == nil {
		conf = gosec.NewConfig()
	}
	if o.Concurrency == 0 {
		o.Concurrency = 1
	}
	a := gosec.NewAnalyzer(conf, o.Tests, o.ExclGen, o.Track, o.Concurrency, log.New(io.Discard, "", 0))
	LoadInto(a, o)
	return a
}

// LoadInto loads the selected rules into the analyzer.
func LoadInto(a *gosec.Analyzer, o Opts) {
	var rf []rules.RuleFilter
	var af []analyzers.AnalyzerFilter
	if len(o.Include) > 0 {
		rf = append(rf, rules.NewRuleFilter(false, o.Include...))
		af = append(af, analyzers.NewAnalyzerFilter(false, o.Include...))
	}
	if len(o.Exclude) > 0 {
		rf = append(rf, rules.NewRuleFilter(true, o.Exclude...))
		af = append(af, analyzers.NewAnalyzerFilter(true, o.Exclude...))
	}
	if !o.NoRules {
		rl := rules.Generate(o.Track, rf...)
		d, s := rl.RulesInfo()
		a.LoadRules(d, s)
	}
	if !o.NoAnalyzers {
		al := analyzers.Generate(o.Track, af...)
		ad, as := al.AnalyzersInfo()
		a.LoadAnalyzers(ad, as)
	}
}

// Result of a scan.
type Result struct {
	Issues  []*issue.Issue
	Metrics gosec.Metrics
	Errors  map[string][]gosec.Error
	Panic   string
}

// Scan runs the analyzer over the packages in the given order.
func Scan(o Opts, pkgs ...*Loaded) (res Result) {
	irrelevant(&o, pkgs)
	a := NewAnalyzer(o)
	return ScanWith(a, pkgs...)
}

// irrelevant sets the options which must not matter for these packages.
func irrelevant(o *Opts, pkgs []*Loaded) {
	var sum uint32
	for _, p := range pkgs {
		for _, t := range p.Src {
			if strings.Contains(t, "Code generated") {
				return // the choice of files depends on them
			}
			h := fnv.New32a()
			h.Write([]byte(t))
			sum ^= h.Sum32()
		}
	}
	if sum%3 == 0 {
		o.ExclGen = true
	}
	if sum%5 < 2 {
		o.Tests = true
	}
	if sum%7 < 3 && o.Concurrency == 0 {
		o.Concurrency = int(sum % 7 * 5)
	}
}

// ScanWith is Scan with an existing analyzer.
func ScanWith(a *gosec.Analyzer, pkgs ...*Loaded) (res Result) {
	defer func() {
		if p := recover(); p != nil {
			res.Panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
		}
	}()
	for _, p := range pkgs {
		a.CheckRules(p.Pkg)
		a.CheckAnalyzers(p.Pkg)
	}
	is, m, errs := a.Report()
	res.Issues, res.Metrics, res.Errors = is, *m, errs
	return res
}

// Line gives the first line of an issue.
func Line(i *issue.Issue) int {
	s, _, _ := strings.Cut(i.Line, "-")
	n, _ := strconv.Atoi(s)
	return n
}

// Key is a finding reduced to base file name, first line, rule.
func Key(i *issue.Issue) string {
	return fmt.Sprintf("%s:%d:%s", filepath.Base(i.File), Line(i), i.RuleID)
}

// Full is a finding with all fields (base is cut from file names).
func Full(i *issue.Issue, base string) string {
	c := *i
	c.File = strings.TrimPrefix(c.File, base)
	b, _ := json.Marshal(&c)
	return string(b)
}

// Multiset helpers.
func Keys(is []*issue.Issue, only map[string]bool) []string {
	var k []string
	for _, i := range is {
		if only == nil || only[i.RuleID] {
			k = append(k, Key(i))
		}
	}
	sort.Strings(k)
	return k
}

// Expected reads the `//~ G401 G404` markers of a source file.
func Expected(files []Src, only map[string]bool) []string {
	var k []string
	for _, f := range files {
		for n, l := range strings.Split(f.Text, "\n") {
			_, m, ok := strings.Cut(l, "//~")
			if !ok {
				continue
			}
			for _, w := range strings.Fields(m) {
				if only == nil || only[w] {
					k = append(k, fmt.Sprintf("%s:%d:%s", f.Name, n+1, w))
				}
			}
		}
	}
	sort.Strings(k)
	return k
}

// Diff gives the elements missing from and extra in got (sorted multisets).
func Diff(want, got []string) (missing, extra []string) {
	i, j := 0, 0
	for i < len(want) || j < len(got) {
		switch {
		case j >= len(got) || (i < len(want) && want[i] < got[j]):
			missing = append(missing, want[i])
			i++
		case i >= len(want) || got[j] < want[i]:
			extra = append(extra, got[j])
			j++
		default:
			i++
			j++
		}
	}
	return
}

// Set makes a set.
func Set(s ...string) map[string]bool {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return m
}

// SrcMap turns files into a replay file map.
func SrcMap(files []Src) map[string]string {
	m := map[string]string{}
	for _, f := range files {
		m[f.Name] = f.Text
	}
	return m
}
