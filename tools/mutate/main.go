// Mutate lists (or writes) small changes of a Go file: mutate FILE, mutate FILE N.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	line  int
	what  string
	apply func()
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mutant
	text := func(n ast.Node) string {
		a, b := fset.Position(n.Pos()).Offset, fset.Position(n.End()).Offset
		s := string(src[a:b])
		if len(s) > 70 {
			s = s[:70]
		}
		return strconv.Quote(s)
	}
	add := func(n ast.Node, what string, apply func()) {
		ms = append(ms, mutant{fset.Position(n.Pos()).Line, what + " " + text(n), apply})
	}
	list := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i, s := i, s
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
				add(s, "delete", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
			case *ast.AssignStmt:
				if s.Tok != token.DEFINE {
					add(s, "delete", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
				}
			case *ast.ReturnStmt:
				if i < len(*l)-1 || len(s.Results) == 0 {
					add(s, "delete", func() { *l = append(append([]ast.Stmt{}, (*l)[:i]...), (*l)[i+1:]...) })
				}
			}
		}
	}
	not := func(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.AND: {token.OR}, token.OR: {token.AND},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BlockStmt:
			list(&x.List)
		case *ast.CaseClause:
			list(&x.Body)
			if len(x.List) > 1 {
				for i := range x.List {
					i := i
					add(x.List[i], "case without", func() { x.List = append(append([]ast.Expr{}, x.List[:i]...), x.List[i+1:]...) })
				}
			}
		case *ast.CommClause:
			list(&x.Body)
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.CONTINUE {
				add(x, "continue -> break", func() { x.Tok = token.BREAK })
				add(x, "continue -> return", func() { x.Tok = token.RETURN })
			} else if x.Label == nil && x.Tok == token.BREAK {
				add(x, "break -> continue", func() { x.Tok = token.CONTINUE })
			}
		case *ast.RangeStmt:
			add(x.X, "first only", func() { x.Body.List = append(x.Body.List, &ast.BranchStmt{Tok: token.BREAK}) })
			add(x.X, "not the first", func() { x.X = &ast.SliceExpr{X: x.X, Low: &ast.BasicLit{Kind: token.INT, Value: "1"}} })
			add(x.X, "none of one", func() {
				x.X = &ast.SliceExpr{X: x.X, High: &ast.BinaryExpr{X: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{x.X}}, Op: token.SUB, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}
			})
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				add(x, "replaces", func() { x.Args[0] = &ast.SliceExpr{X: x.Args[0], High: &ast.BasicLit{Kind: token.INT, Value: "0"}} })
			} else if len(x.Args) == 2 && x.Ellipsis == token.NoPos {
				add(x, "arguments swapped", func() { x.Args[0], x.Args[1] = x.Args[1], x.Args[0] })
			}
		case *ast.IfStmt:
			if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				add(b, "left only", func() { x.Cond = b.X })
				add(b, "right only", func() { x.Cond = b.Y })
			} else {
				add(x.Cond, "not", func() { x.Cond = not(x.Cond) })
			}
			add(x.Cond, "never", func() {
				x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LAND, Y: ast.NewIdent("false")}
			})
			if x.Else == nil {
				add(x.Cond, "always", func() {
					x.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: x.Cond}, Op: token.LOR, Y: ast.NewIdent("true")}
				})
			}
		case *ast.BinaryExpr:
			for _, o := range swap[x.Op] {
				o := o
				if x.Op == token.ADD {
					if l, ok := x.Y.(*ast.BasicLit); !ok || l.Kind != token.INT {
						continue
					}
				}
				add(x, x.Op.String()+" -> "+o.String(), func() { x.Op = o })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x, "+1", func() {
					v, _ := strconv.ParseInt(x.Value, 0, 64)
					x.Value = fmt.Sprint(v + 1)
				})
			}
			if x.Kind == token.STRING && len(x.Value) > 3 {
				add(x, "changed", func() { x.Value = x.Value[:len(x.Value)-2] + "Q" + x.Value[len(x.Value)-1:] })
			}
		case *ast.CompositeLit:
			if len(x.Elts) > 1 {
				for i := range x.Elts {
					i := i
					add(x.Elts[i], "literal without", func() { x.Elts = append(append([]ast.Expr{}, x.Elts[:i]...), x.Elts[i+1:]...) })
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x, "flip", func() { x.Name = map[string]string{"true": "false", "false": "true"}[x.Name] })
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\n", i, m.line, m.what)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	ms[k].apply()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.Stdout.Write(b.Bytes())
}
