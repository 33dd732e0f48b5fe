// mutate lists and makes one-place mutations of Go files.
//
//	mutate FILE...            prints one line per mutant: FILE:N:LINE:description
//	mutate -make N FILE OUT   writes mutant N of FILE to OUT
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	pos   token.Pos
	desc  string
	apply func()
}

func src(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, fset, n)
	s := b.String()
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			return s[:i] + "..."
		}
	}
	return s
}

func mutants(fset *token.FileSet, f *ast.File) []mutant {
	var ms []mutant
	add := func(p token.Pos, d string, fn func()) { ms = append(ms, mutant{p, d, fn}) }
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
		token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.OR: {token.AND}, token.AND: {token.OR},
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			i := i
			switch s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt, *ast.BranchStmt, *ast.IfStmt, *ast.ReturnStmt:
			case *ast.AssignStmt:
				if s.(*ast.AssignStmt).Tok == token.DEFINE {
					continue
				}
			default:
				continue
			}
			add(s.Pos(), "delete "+src(fset, s), func() { l[i] = &ast.EmptyStmt{Semicolon: s.Pos()} })
		}
		for i := 0; i+1 < len(l); i++ {
			i := i
			_, a := l[i].(*ast.ExprStmt)
			_, b := l[i+1].(*ast.ExprStmt)
			_, a2 := l[i].(*ast.AssignStmt)
			_, b2 := l[i+1].(*ast.AssignStmt)
			if (a || a2) && (b || b2) {
				add(l[i].Pos(), "swap "+src(fset, l[i])+" / "+src(fset, l[i+1]), func() { l[i], l[i+1] = l[i+1], l[i] })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, t := range swap[x.Op] {
				t := t
				add(x.OpPos, fmt.Sprintf("%s -> %s in %s", x.Op, t, src(fset, x)), func() { x.Op = t })
			}
		case *ast.IfStmt:
			c := x.Cond
			add(x.Pos(), "negate if "+src(fset, c), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: c}} })
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), fmt.Sprintf("%s -> %d", x.Value, v+1), func() { x.Value = fmt.Sprint(v + 1) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%s -> %d", x.Value, v-1), func() { x.Value = fmt.Sprint(v - 1) })
					}
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				add(x.Pos(), "true -> false", func() { x.Name = "false" })
			case "false":
				add(x.Pos(), "false -> true", func() { x.Name = "true" })
			case "BigEndian":
				add(x.Pos(), "BigEndian -> LittleEndian", func() { x.Name = "LittleEndian" })
			case "LittleEndian":
				add(x.Pos(), "LittleEndian -> BigEndian", func() { x.Name = "BigEndian" })
			case "upper":
				add(x.Pos(), "upper -> lower", func() { x.Name = "lower" })
			case "lower":
				add(x.Pos(), "lower -> upper", func() { x.Name = "upper" })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "drop ! in "+src(fset, x), func() { x.Op = token.ADD; x.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.UnaryExpr{Op: token.NOT, X: x.X}}; x.Op = token.NOT; x.X = &ast.UnaryExpr{Op: token.NOT, X: x.X.(*ast.UnaryExpr).X.(*ast.UnaryExpr).X} })
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "low bound dropped in "+src(fset, x), func() { x.Low = nil })
			}
			if x.High != nil && !x.Slice3 {
				add(x.Pos(), "high bound dropped in "+src(fset, x), func() { x.High = nil })
			}
		}
		return true
	})
	return ms
}

func main() {
	n := flag.Int("make", -1, "")
	flag.Parse()
	load := func(p string) (*token.FileSet, *ast.File, []mutant) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, nil, 0)
		if err != nil {
			panic(err)
		}
		return fset, f, mutants(fset, f)
	}
	if *n < 0 {
		for _, p := range flag.Args() {
			fset, _, ms := load(p)
			for i, m := range ms {
				fmt.Printf("%s:%d:%d:%s\n", p, i, fset.Position(m.pos).Line, m.desc)
			}
		}
		return
	}
	fset, f, ms := load(flag.Arg(0))
	ms[*n].apply()
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(flag.Arg(1), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}
