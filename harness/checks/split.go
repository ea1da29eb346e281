package checks

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/rand"
	"path/filepath"
	"strings"

	"verif/harness/vh"
)

// spread is a package some of whose declarations are in files of their own.
type spread struct {
	orig, files []vh.Src
	to          []map[int][2]int // original offset -> file and offset
	moved       int
}

// importFindings are the packages whose import is a finding: it would be there
// once more in another file.
var importFindings = map[string]bool{"crypto/md5": true, "crypto/des": true, "crypto/rc4": true, "crypto/sha1": true,
	"net/http/cgi": true, "net/http/pprof": true, "golang.org/x/crypto/md4": true, "golang.org/x/crypto/ripemd160": true}

// spreadDecls moves top-level declarations into files of their own.
func spreadDecls(rng *rand.Rand, ld *vh.Loaded, files []vh.Src) *spread {
	s := &spread{orig: files}
	info := ld.Pkg.TypesInfo
	fset := ld.Pkg.Fset
	extra := []vh.Src{}
	type move struct{ k, from, to, file, at int }
	var moves []move
	for k, f := range files {
		var syn *ast.File
		for _, x := range ld.Pkg.Syntax {
			if filepath.Base(fset.PositionFor(x.Pos(), false).Filename) == f.Name {
				syn = x
			}
		}
		keep := func() { moves = append(moves, move{k, 0, len(f.Text) + 1, k, 0}); s.files = append(s.files, f) }
		low := strings.ToLower(f.Text)
		if syn == nil || strings.Contains(low, "nosec") || strings.Contains(low, "gosec:") || strings.Contains(low, "go:") || strings.Contains(low, "generated") || strings.Contains(f.Text, "\r") || strings.Contains(f.Text, "//line") || strings.Contains(f.Text, "/*line") {
			keep()
			continue
		}
		at := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
		specOf := map[types.Object]*ast.ImportSpec{}
		usable := true
		for _, i := range syn.Imports {
			o := info.Implicits[i]
			if i.Name != nil {
				o = info.Defs[i.Name]
				usable = usable && i.Name.Name != "." && i.Path.Value != `"C"`
			}
			if o != nil {
				specOf[o] = i
			}
		}
		if !usable {
			keep()
			continue
		}
		uses := func(n ast.Node) map[*ast.ImportSpec]int {
			m := map[*ast.ImportSpec]int{}
			ast.Inspect(n, func(n ast.Node) bool {
				if id, ok := n.(*ast.Ident); ok {
					if i := specOf[info.Uses[id]]; i != nil {
						m[i]++
					}
				}
				return true
			})
			return m
		}
		type chunk struct {
			from, to int
			uses     map[*ast.ImportSpec]int
		}
		var chunks []chunk
		left := map[*ast.ImportSpec]int{}
		for _, d := range syn.Decls {
			p := d.Pos()
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					continue
				}
				if x.Doc != nil {
					p = x.Doc.Pos()
				}
			case *ast.FuncDecl:
				if x.Doc != nil {
					p = x.Doc.Pos()
				}
			}
			from := strings.LastIndexByte(f.Text[:at(p)], '\n') + 1
			u := uses(d)
			for i, n := range u {
				left[i] += n
			}
			if len(chunks) > 0 && from <= chunks[len(chunks)-1].from || strings.TrimSpace(f.Text[from:at(p)]) != "" {
				usable = false
				break
			}
			chunks = append(chunks, chunk{from: from, to: len(f.Text), uses: u})
			if n := len(chunks); n > 1 {
				chunks[n-2].to = from
			}
		}
		if !usable || len(chunks) < 2 {
			keep()
			continue
		}
		// where the declarations go: mostly one other file, sometimes several
		var here, there strings.Builder
		here.WriteString(f.Text[:chunks[0].from])
		moves = append(moves, move{k, 0, chunks[0].from, k, 0})
		news := map[int][]chunk{}
		for _, c := range chunks {
			ok := rng.Intn(2) == 0
			for i, n := range c.uses {
				p := strings.Trim(i.Path.Value, "\"`")
				ok = ok && !importFindings[p] && left[i] > n
			}
			if !ok {
				moves = append(moves, move{k, c.from, c.to, k, here.Len()})
				here.WriteString(f.Text[c.from:c.to])
				continue
			}
			for i, n := range c.uses {
				left[i] -= n
			}
			x := rng.Intn(3) / 2
			news[x] = append(news[x], c)
			s.moved++
		}
		moves = append(moves, move{k, len(f.Text), len(f.Text) + 1, k, here.Len()})
		for x := 0; x < 2; x++ {
			if len(news[x]) == 0 {
				continue
			}
			there.Reset()
			fmt.Fprintf(&there, "package %s\n", syn.Name.Name)
			done := map[*ast.ImportSpec]bool{}
			for _, c := range news[x] {
				for _, i := range syn.Imports {
					if c.uses[i] > 0 && !done[i] {
						done[i] = true
						fmt.Fprintf(&there, "\nimport %s\n", f.Text[at(i.Pos()):at(i.Path.End())])
					}
				}
			}
			there.WriteString("\n")
			n := len(files) + len(extra)
			for _, c := range news[x] {
				moves = append(moves, move{k, c.from, c.to, n, there.Len()})
				there.WriteString(f.Text[c.from:c.to] + "\n")
			}
			name := fmt.Sprintf("%s%d_%s", vh.Pick(rng, "a", "zz"), x, f.Name)
			extra = append(extra, vh.Src{Name: name, Text: there.String()})
		}
		s.files = append(s.files, vh.Src{Name: f.Name, Text: here.String()})
	}
	s.files = append(s.files, extra...)
	for k := range files {
		m := map[int][2]int{}
		for _, v := range moves {
			if v.k == k {
				for o := v.from; o < v.to; o++ {
					m[o] = [2]int{v.file, v.at + o - v.from}
				}
			}
		}
		s.to = append(s.to, m)
	}
	return s
}
