package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/securego/gosec/v2"
	"github.com/securego/gosec/v2/issue"

	"verif/harness/vh"
)

// layout is a package whose files are rewritten without changing what they
// mean; it remembers where every offset of the original went.
type layout struct {
	rng    *rand.Rand
	orig   []vh.Src
	text   []string
	off    [][]int // offset in the original -> offset now
	done   map[string]int
	shared int // names which other objects have, too
	spread *spread
}

func newLayout(rng *rand.Rand, files []vh.Src) *layout {
	l := &layout{rng: rng, orig: files, done: map[string]int{}}
	for _, f := range files {
		m := make([]int, len(f.Text)+1)
		for i := range m {
			m[i] = i
		}
		l.text, l.off = append(l.text, f.Text), append(l.off, m)
	}
	return l
}

// piece is a part of the current text, replaced by another one if that is given,
// or, with from < 0, new text.
type piece struct {
	from, to int
	text     string
}

// rebuild replaces a text by pieces of it; every old offset has to be in one.
func (l *layout) rebuild(k int, ps []piece) {
	var b strings.Builder
	to := make([]int, len(l.text[k])+1)
	for _, p := range ps {
		if p.from < 0 {
			b.WriteString(p.text)
			continue
		}
		if p.text != "" {
			for o := p.from; o < p.to; o++ {
				to[o] = b.Len()
			}
			b.WriteString(p.text)
			continue
		}
		for o := p.from; o < p.to; o++ {
			to[o] = b.Len() + o - p.from
		}
		b.WriteString(l.text[k][p.from:p.to])
	}
	to[len(l.text[k])] = b.Len()
	for i, o := range l.off[k] {
		l.off[k][i] = to[o]
	}
	l.text[k] = b.String()
}

func (l *layout) parse(k int) (*token.FileSet, *ast.File) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", l.text[k], parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, nil
	}
	return fset, f
}

var pwName = regexp.MustCompile(gosecPattern)

// gosecPattern is what G101 looks for in names.
const gosecPattern = `(?i)passwd|pass|password|pwd|secret|token|pw|apiKey|bearer|cred`

// names gives local objects, functions, types and constants other names: new
// ones, ones that several objects of different functions share, or ones that
// hide something else which is not used there.
func (l *layout) names(r *vh.Run, ld *vh.Loaded) {
	for style := l.rng.Intn(4); ; style-- {
		off := make([][]int, len(l.off))
		for k := range l.off {
			off[k] = append([]int(nil), l.off[k]...)
		}
		text := append([]string(nil), l.text...)
		l.shared = 0
		n := l.tryNames(ld, style)
		if style < 2 || l.sameObjects(r, ld) {
			l.done["renamed identifiers"] += n
			l.done["names of other objects"] += l.shared
			l.done[fmt.Sprintf("names of style %d", max(style, 0))] += n
			return
		}
		l.text, l.off = text, off
		l.done["names that cannot be used"]++
	}
}

// sameObjects reports whether every name of the rewritten program means what
// it meant in the original.
func (l *layout) sameObjects(r *vh.Run, ld *vh.Loaded) bool {
	now, err := env(r).Load(l.files(), nil)
	if err != nil {
		return false
	}
	defer now.Remove()
	if len(now.TypeErr) > 0 {
		return false
	}
	place := func(ld *vh.Loaded, p token.Pos, moved bool) string {
		x := ld.Pkg.Fset.PositionFor(p, false)
		o := x.Offset
		for k, f := range l.orig {
			if filepath.Base(x.Filename) == f.Name {
				if moved {
					o = l.off[k][o]
				}
				return fmt.Sprintf("%d:%d", k, o)
			}
		}
		return ""
	}
	means := func(ld *vh.Loaded, moved bool) map[string]string {
		m := map[string]string{}
		say := func(id *ast.Ident, o types.Object) {
			d := ""
			if o != nil {
				if o.Pkg() == ld.Pkg.Types && o.Pos().IsValid() {
					d = place(ld, o.Pos(), moved)
				} else {
					d = o.Id()
				}
			}
			m[place(ld, id.Pos(), moved)] = d
		}
		for id, o := range ld.Pkg.TypesInfo.Defs {
			say(id, o)
		}
		for id, o := range ld.Pkg.TypesInfo.Uses {
			say(id, o)
		}
		return m
	}
	return reflect.DeepEqual(means(ld, true), means(now, false))
}

func (l *layout) tryNames(ld *vh.Loaded, style int) int {
	used := map[string]bool{}
	for _, n := range types.Universe.Names() {
		used[n] = true
	}
	var imports []string
	for _, f := range ld.Pkg.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				used[id.Name] = true
			}
			return true
		})
		for _, s := range f.Imports {
			used[s.Path.Value[strings.LastIndexAny(s.Path.Value, "/\"")+1:]] = true
			if p := strings.Split(strings.Trim(s.Path.Value, "\""), "/"); len(p) > 0 {
				used[p[len(p)-1]] = true
				if token.IsIdentifier(p[len(p)-1]) {
					imports = append(imports, p[len(p)-1])
				}
			}
		}
	}
	fresh := func(old string) string {
		n := len(old)
		if style > 0 {
			n = 1 + l.rng.Intn(14)
		}
		for try := 0; try < 30; try++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = "bdfghjklmnqrvxyz"[l.rng.Intn(16)]
			}
			if ast.IsExported(old) {
				b[0] = strings.ToUpper(string(b[:1]))[0]
			}
			s := string(b)
			if style > 0 && l.rng.Intn(8) == 0 {
				s += vh.Pick(l.rng, "ø", "_", "1", "64", "_test", "名")
			}
			if !used[s] && !token.IsKeyword(s) && !pwName.MatchString(s) {
				used[s] = true
				return s
			}
		}
		return ""
	}
	// by position, so that the choice does not depend on map order
	type def struct {
		id  *ast.Ident
		obj types.Object
	}
	var defs []def
	for id, obj := range ld.Pkg.TypesInfo.Defs {
		defs = append(defs, def{id, obj})
	}
	sort.Slice(defs, func(i, j int) bool { return defs[i].id.Pos() < defs[j].id.Pos() })
	// names for local objects, which may be those of others
	pool := []string{"t0", "t1", "t2", "x", "v", "i", "data", "makeslice", "nosec", "int", "len", "string", "os", "rand", "err"}
	if style == 3 {
		pool = imports
		scope := ld.Pkg.Types.Scope()
		for _, n := range scope.Names() {
			pool = append(pool, n)
			switch scope.Lookup(n).(type) {
			case *types.Const, *types.TypeName:
				for k := 0; k < 8; k++ {
					pool = append(pool, n)
				}
			}
		}
	}
	newName := map[types.Object]string{}
	local := map[string][]types.Object{}
	inside := func(s, t *types.Scope) bool {
		for ; s != nil; s = s.Parent() {
			if s == t {
				return true
			}
		}
		return false
	}
	shared := func(o types.Object) string {
		s := o.Parent()
	next:
		for try := 0; try < 4; try++ {
			n := pool[l.rng.Intn(len(pool))]
			if pwName.MatchString(n) || token.IsKeyword(n) || n == "_" || n == "init" {
				continue
			}
			for _, other := range local[n] {
				if inside(other.Parent(), s) || inside(s, other.Parent()) {
					continue next
				}
			}
			if s.Lookup(n) != nil {
				continue
			}
			for id, u := range ld.Pkg.TypesInfo.Uses {
				if id.Name == n && s.Contains(id.Pos()) && u != o {
					continue next
				}
			}
			local[n] = append(local[n], o)
			l.shared++
			return n
		}
		return ""
	}
	for _, d := range defs {
		id, obj := d.id, d.obj
		if obj == nil || id.Name == "_" || id.Name == "init" || id.Name == "main" || pwName.MatchString(id.Name) || l.rng.Intn(4) == 0 {
			continue
		}
		switch o := obj.(type) {
		case *types.Var:
			if o.IsField() {
				continue
			}
		case *types.Const, *types.Label:
		case *types.TypeName:
			// a type which is embedded names a field, too
			emb := false
			for x := range ld.Pkg.TypesInfo.Uses {
				if v, ok := ld.Pkg.TypesInfo.Defs[x].(*types.Var); ok && v.Embedded() && x.Name == id.Name {
					emb = true
				}
			}
			if emb {
				continue
			}
		case *types.Func:
			if o.Type().(*types.Signature).Recv() != nil {
				continue
			}
		default:
			continue
		}
		if style == 3 && obj.Parent() == ld.Pkg.Types.Scope() && l.rng.Intn(6) > 0 {
			continue // to be hidden
		}
		n := ""
		switch obj.(type) {
		case *types.Var, *types.Const:
			if style > 1 && obj.Parent() != nil && obj.Parent() != ld.Pkg.Types.Scope() && l.rng.Intn(5) > 0 {
				n = shared(obj)
			}
		}
		if n == "" {
			n = fresh(id.Name)
		}
		if n != "" {
			newName[obj] = n
		}
	}
	fset := ld.Pkg.Fset
	edits := make([]map[int]piece, len(l.orig))
	put := func(id *ast.Ident, obj types.Object) {
		n := newName[obj]
		if n == "" {
			return
		}
		p := fset.PositionFor(id.Pos(), false)
		for k, f := range l.orig {
			if filepath.Base(p.Filename) == f.Name {
				if edits[k] == nil {
					edits[k] = map[int]piece{}
				}
				edits[k][p.Offset] = piece{from: p.Offset, to: p.Offset + len(id.Name), text: n}
			}
		}
	}
	for id, o := range ld.Pkg.TypesInfo.Defs {
		put(id, o)
	}
	for id, o := range ld.Pkg.TypesInfo.Uses {
		if v, ok := o.(*types.Var); ok {
			o = v.Origin()
		}
		if f, ok := o.(*types.Func); ok {
			o = f.Origin()
		}
		put(id, o)
	}
	done := 0
	for k := range l.orig {
		var ps []piece
		last := 0
		for o := 0; o < len(l.orig[k].Text); o++ {
			if p, ok := edits[k][o]; ok {
				ps = append(ps, piece{from: last, to: o}, p)
				last = p.to
				done++
			}
		}
		l.rebuild(k, append(ps, piece{from: last, to: len(l.text[k])}))
	}
	return done
}

// reorder shuffles the top-level declarations.
func (l *layout) reorder(k int) {
	fset, f := l.parse(k)
	if f == nil || strings.Contains(strings.ToLower(l.text[k]), "nosec") || strings.Contains(l.text[k], "gosec:") {
		return
	}
	at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	lineStart := func(o int) int { return strings.LastIndexByte(l.text[k][:o], '\n') + 1 }
	var starts []int
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			starts = nil
			continue
		}
		p := d.Pos()
		switch x := d.(type) {
		case *ast.GenDecl:
			if x.Doc != nil {
				p = x.Doc.Pos()
			}
		case *ast.FuncDecl:
			if x.Doc != nil {
				p = x.Doc.Pos()
			}
		}
		s := lineStart(at(p))
		if len(starts) > 0 && s <= starts[len(starts)-1] {
			continue
		}
		// nothing else may begin on this line
		if strings.TrimSpace(l.text[k][s:at(p)]) != "" {
			continue
		}
		starts = append(starts, s)
	}
	if len(starts) < 2 {
		return
	}
	ps := []piece{{from: 0, to: starts[0]}}
	for _, i := range l.rng.Perm(len(starts)) {
		end := len(l.text[k])
		if i+1 < len(starts) {
			end = starts[i+1]
		}
		ps = append(ps, piece{from: starts[i], to: end}, piece{from: -1, text: "\n"})
	}
	l.rebuild(k, ps)
	l.done["reordered files"]++
}

// lines inserts lines which mean nothing.
func (l *layout) lines(k int) {
	fset, f := l.parse(k)
	if f == nil || strings.Contains(strings.ToLower(l.text[k]), "nosec") || strings.Contains(l.text[k], "gosec:") {
		return // comments which suppress something belong to the lines around them
	}
	file := fset.File(f.Pos())
	at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	no := make([]bool, len(l.text[k])+1) // inside of a token or comment
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BasicLit); ok && b.Kind == token.STRING {
			// the value of raw strings lacks carriage returns: find the end
			e := at(b.Pos()) + 1
			if b.Value[0] == '`' {
				for l.text[k][e] != '`' {
					e++
				}
			}
			for o := at(b.Pos()) + 1; o <= e; o++ {
				no[o] = true
			}
		}
		return true
	})
	for _, g := range f.Comments {
		for _, c := range g.List {
			e := at(c.Pos()) + 2
			if c.Text[1] == '*' {
				e += strings.Index(l.text[k][e:], "*/")
			}
			for o := at(c.Pos()) + 1; o <= e; o++ {
				no[o] = true
			}
		}
	}
	first := at(f.Name.End())
	stmts := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if b, ok := n.(*ast.BlockStmt); ok {
			for _, s := range b.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					stmts[at(s.Pos())] = true
				}
			}
		}
		return true
	})
	var ps []piece
	last := 0
	for n := 2; n <= file.LineCount(); n++ {
		o := at(file.LineStart(n))
		if o <= first || no[o] || l.rng.Intn(4) != 0 {
			continue
		}
		first := o
		for first < len(l.text[k]) && strings.IndexByte(" \t", l.text[k][first]) >= 0 {
			first++
		}
		t := vh.Pick(l.rng, "\n", "\n\n\n", "   \t\n")
		if l.rng.Intn(2) == 0 {
			t = vh.Pick(l.rng, "// note\n", "/* a note */\n", "/* a\nnote */\n\n", "\t// x := md5.New() // password = \"aKiaZ83hfjQwert09PoiuyLkjhgfd\"\n\n")
		}
		if stmts[first] && l.rng.Intn(3) == 0 {
			t = vh.Pick(l.rng, "\t_ = 0\n", "{\n}\n", "_, _ = 1, \"x\"\n", "if false {\n}\n", ";\n")
			l.done["statements inserted"]++
		}
		ps = append(ps, piece{from: last, to: o}, piece{from: -1, text: t})
		last = o
		l.done["lines inserted"]++
	}
	l.rebuild(k, append(ps, piece{from: last, to: len(l.text[k])}))
}

// spelling writes string literals the other way.
func (l *layout) spelling(k int) {
	fset, f := l.parse(k)
	if f == nil {
		return
	}
	b := []byte(l.text[k])
	ast.Inspect(f, func(n ast.Node) bool {
		x, ok := n.(*ast.BasicLit)
		if !ok || x.Kind != token.STRING || l.rng.Intn(2) == 0 || strings.ContainsAny(x.Value[1:len(x.Value)-1], "\"`\\\n\r") {
			return true
		}
		o := fset.PositionFor(x.Pos(), false).Offset
		q := byte('"')
		if b[o] == q {
			q = '`'
		}
		for _, c := range x.Value[1 : len(x.Value)-1] {
			if c < ' ' || c == 0xFEFF {
				return true
			}
		}
		b[o], b[o+len(x.Value)-1] = q, q
		l.done["string literals respelt"]++
		return true
	})
	l.text[k] = string(b)
}

// blocks puts statements which declare nothing into blocks of their own.
func (l *layout) blocks(k int) {
	fset, f := l.parse(k)
	if f == nil || strings.Contains(strings.ToLower(l.text[k]), "nosec") || strings.Contains(l.text[k], "gosec:") {
		return
	}
	at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	put := map[int]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		var list []ast.Stmt
		switch x := n.(type) {
		case *ast.BlockStmt:
			list = x.List
		case *ast.CaseClause:
			list = x.Body
		case *ast.CommClause:
			list = x.Body
		}
		for _, s := range list {
			switch x := s.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE {
					continue
				}
			case *ast.ExprStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.GoStmt, *ast.DeferStmt, *ast.ReturnStmt, *ast.IncDecStmt, *ast.SendStmt:
			default:
				continue
			}
			if l.rng.Intn(8) == 0 {
				put[at(s.Pos())] += vh.Pick(l.rng, "{ ", "{", "{{")
				n := strings.Count(put[at(s.Pos())], "{")
				put[at(s.End())] = strings.Repeat(" }", n) + put[at(s.End())]
				l.done["statements put into blocks"]++
			}
		}
		return true
	})
	var ps []piece
	last := 0
	for o := 0; o <= len(l.text[k]); o++ {
		if t := put[o]; t != "" {
			ps = append(ps, piece{from: last, to: o}, piece{from: -1, text: t})
			last = o
		}
	}
	l.rebuild(k, append(ps, piece{from: last, to: len(l.text[k])}))
}

// endings makes the line endings those of other systems.
func (l *layout) endings(k int) {
	var ps []piece
	last := 0
	fset := token.NewFileSet()
	var s scanner.Scanner
	f := fset.AddFile("x.go", -1, len(l.text[k]))
	s.Init(f, []byte(l.text[k]), nil, scanner.ScanComments)
	raw := make([]bool, len(l.text[k])+1)
	for {
		p, tok, lit := s.Scan()
		if tok == token.EOF {
			break
		}
		if tok == token.STRING && lit[0] == '`' {
			o := f.Offset(p)
			for i := o; i == o || l.text[k][i] != '`'; i++ {
				raw[i] = true
			}
		}
	}
	for o, c := range []byte(l.text[k]) {
		if c == '\n' && !raw[o] && (o == 0 || l.text[k][o-1] != '\r') {
			ps = append(ps, piece{from: last, to: o}, piece{from: -1, text: "\r"})
			last = o
		}
	}
	l.rebuild(k, append(ps, piece{from: last, to: len(l.text[k])}))
	l.done["files with other line endings"]++
}

// files are the rewritten sources.
func (l *layout) files() []vh.Src {
	var fs []vh.Src
	for k, f := range l.orig {
		fs = append(fs, vh.Src{Name: f.Name, Text: l.text[k]})
	}
	return fs
}

func lineOf(text string, o int) int { return strings.Count(text[:o], "\n") + 1 }

func colOf(text string, o int) int { return o - strings.LastIndexByte(text[:o], '\n') }

// offsetOf is the offset of a line and column, or -1.
func offsetOf(text string, line, col int) int {
	o := 0
	for n := 1; n < line; n++ {
		i := strings.IndexByte(text[o:], '\n')
		if i < 0 {
			return -1
		}
		o += i + 1
	}
	if o+col-1 > len(text) {
		return -1
	}
	return o + col - 1
}

// moved describes a finding of the original by what it has to be now.
func (l *layout) moved(is *issue.Issue) string {
	file := filepath.Base(is.File)
	from := l.orig
	if l.spread != nil {
		from = l.spread.orig
	}
	for k, f := range from {
		if f.Name != file {
			continue
		}
		// at is the place of an offset of the original
		at := func(o int) (int, int) {
			if l.spread == nil {
				return k, l.off[k][o]
			}
			p := l.spread.to[k][o]
			return p[0], l.off[p[0]][p[1]]
		}
		a, b, rng := strings.Cut(is.Line, "-")
		first, _ := strconv.Atoi(a)
		col, _ := strconv.Atoi(is.Col)
		o := offsetOf(f.Text, first, col)
		if o < 0 {
			return "position outside of the file: " + findingText(is)
		}
		n, p := at(o)
		line := strconv.Itoa(lineOf(l.text[n], p))
		if rng {
			last, _ := strconv.Atoi(b)
			n2, p2 := at(offsetOf(f.Text, last, 1))
			if n2 != n {
				return "finding in two files: " + findingText(is)
			}
			line += "-" + strconv.Itoa(lineOf(l.text[n], p2))
		}
		return fmt.Sprintf("%s:%s:%d %s %s/%s %q", l.orig[n].Name, line, colOf(l.text[n], p), is.RuleID, is.Severity, is.Confidence, is.What)
	}
	return "finding in an unknown file: " + findingText(is)
}

func findingText(is *issue.Issue) string {
	return fmt.Sprintf("%s:%s:%s %s %s/%s %q", filepath.Base(is.File), is.Line, is.Col, is.RuleID, is.Severity, is.Confidence, is.What)
}

func init() {
	All["C36"] = func(r *vh.Run) {
		os.Setenv("GOSECGOVERSION", "1.21")
		r.Rule("packages with findings of all rules and the repository's sample programs, scanned as they are and rewritten without a change of meaning (local variables, parameters, functions, constants, types and labels renamed; top-level declarations in another order; blank lines, comments and empty statements in between; other line endings); the findings have to be the same, at the places where the code went; non-trivial: there are findings")
		type source struct {
			sampleProgram
			kind string
		}
		var src []source
		for k := 0; k < r.N(1, 20); k++ {
			for _, s := range samplePrograms() {
				src = append(src, source{s, "sample programs"})
			}
		}
		for _, p := range generatedPrograms(r, r.N(100, 1500)) {
			src = append(src, source{p, "programs of " + p.name})
		}
		for i := 0; i < r.N(500, 8000); i++ {
			src = append(src, source{sampleProgram{name: "corpus", conf: gosec.NewConfig()}, "corpus"})
		}
		r.Parallel(len(src), func(i int, rng *rand.Rand) {
			files, conf, kind := src[i].files, src[i].conf, src[i].kind
			if kind == "corpus" {
				files = corpusPkg(rng, "p", 2+rng.Intn(9), 1+rng.Intn(3), rng.Intn(3))
			}
			ld, err := env(r).Load(files, nil)
			if err != nil || len(ld.TypeErr) > 0 {
				r.Count("programs that need other packages", 1)
				return
			}
			loaded := ld
			defer loaded.Remove()
			l := newLayout(rng, files)
			ways := 1 + rng.Intn(63)
			if rng.Intn(3) == 0 {
				if sp := spreadDecls(rng, ld, files); sp.moved > 0 {
					if ld, err = env(r).Load(sp.files, nil); err != nil || len(ld.TypeErr) > 0 {
						r.Inconclusive("a spread program does not compile: %v %v\n%s", err, ld.TypeErr, sp.files[0].Text)
						return
					}
					l = newLayout(rng, sp.files)
					l.spread = sp
					l.done["declarations in other files"] = sp.moved
				}
			}
			if ld != loaded {
				defer ld.Remove()
			}
			// the configuration of these two rules is about names
			if _, named := conf["G101"]; ways&1 != 0 && !named && conf["G104"] == nil {
				l.names(r, ld)
			}
			for k := range l.orig {
				if ways&2 != 0 {
					l.reorder(k)
				}
				if ways&4 != 0 {
					l.lines(k)
				}
				if ways&16 != 0 {
					l.spelling(k)
				}
				if ways&32 != 0 {
					l.blocks(k)
				}
				if ways&8 != 0 {
					l.endings(k)
				}
			}
			now := l.files()
			ld2, err := env(r).Load(now, nil)
			if err != nil || len(ld2.TypeErr) > 0 {
				r.Inconclusive("a rewritten program does not compile: %v %v\n%s", err, ld2.TypeErr, now[0].Text)
				return
			}
			defer ld2.Remove()
			before := vh.Scan(vh.Opts{Conf: conf}, loaded)
			after := vh.Scan(vh.Opts{Conf: conf}, ld2)
			var want, got []string
			for _, is := range before.Issues {
				want = append(want, l.moved(is))
			}
			for _, is := range after.Issues {
				got = append(got, findingText(is))
			}
			sort.Strings(want)
			sort.Strings(got)
			r.Eval(kind, now[0].Text, len(want) > 0)
			r.Count("findings compared", int64(len(want)))
			for k, c := range l.done {
				r.Count(k, int64(c))
			}
			m, e := vh.Diff(want, got)
			if len(m)+len(e) > 0 || before.Panic+after.Panic != "" {
				fs := vh.SrcMap(now)
				for _, f := range files {
					fs["before_"+f.Name] = f.Text
				}
				key := kind + "/" + src[i].name
				if len(m) > 0 {
					key += "/" + strings.Fields(m[0])[1]
				} else if len(e) > 0 {
					key += "/" + strings.Fields(e[0])[1]
				}
				r.Violation("layout/"+key, fmt.Sprintf("%s: the rewritten program has other findings\nnot found any more: %q\nnew: %q %s", kind, m, e, before.Panic+after.Panic), fs)
			}
			if before.Metrics.NumFiles+len(l.orig)-len(files) != after.Metrics.NumFiles || before.Metrics.NumNosec != after.Metrics.NumNosec || before.Metrics.NumFound != after.Metrics.NumFound {
				r.Violation("layout/metrics", fmt.Sprintf("%s: statistics of the rewritten program: %+v instead of %+v", kind, after.Metrics, before.Metrics), vh.SrcMap(now))
			}
			if i%97 == 5 {
				r.Sample(map[string]any{"kind": kind, "ways": ways, "done": l.done, "findings": len(want)})
			}
		})
		r.Need("findings compared", 2000)
		r.Need("renamed identifiers", 2000)
		r.Need("lines inserted", 2000)
		r.Need("reordered files", 100)
	}
}
