// mutate lists and applies small faults in a Go file, for measuring which of
// them the tests and the checks see.
//
//	mutate FILE          lists the faults: number, line, what
//	mutate FILE N        prints the file with fault N
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type fault struct {
	pos  token.Pos
	what string
	do   func()
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.AND: {token.OR}, token.OR: {token.AND}, token.XOR: {token.OR}, token.REM: {token.QUO},
}

func str(n ast.Node) string {
	var b bytes.Buffer
	_ = format.Node(&b, token.NewFileSet(), n)
	s := b.String()
	if i := bytes.IndexByte(b.Bytes(), '\n'); i >= 0 {
		s = s[:i] + "…"
	}
	if len(s) > 90 {
		s = s[:90] + "…"
	}
	return s
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var all []fault
	add := func(p token.Pos, what string, do func()) { all = append(all, fault{p, what, do}) }
	block := func(l *[]ast.Stmt) {
		for i, s := range *l {
			cut := func() {
				n := append([]ast.Stmt{}, (*l)[:i]...)
				*l = append(n, (*l)[i+1:]...)
			}
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt:
				add(s.Pos(), "drop "+str(s), cut)
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "drop "+str(s), cut)
				}
			case *ast.BranchStmt:
				if x.Tok == token.CONTINUE && x.Label == nil {
					add(s.Pos(), "continue -> break", func() { x.Tok = token.BREAK })
				} else if x.Tok == token.BREAK && x.Label == nil {
					add(s.Pos(), "drop break", cut)
				}
			case *ast.IfStmt:
				if x.Else == nil {
					add(s.Pos(), "drop "+str(s), cut)
				}
			case *ast.DeclStmt, *ast.ReturnStmt:
			}
			// lock pairs
			if e, ok := s.(*ast.ExprStmt); ok && i+1 < len(*l) {
				if c, ok := e.X.(*ast.CallExpr); ok {
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok && (sel.Sel.Name == "Lock" || sel.Sel.Name == "RLock") {
						if d, ok := (*l)[i+1].(*ast.DeferStmt); ok {
							add(s.Pos(), "drop lock pair "+str(s), func() {
								n := append([]ast.Stmt{}, (*l)[:i]...)
								*l = append(n, (*l)[i+2:]...)
							})
							if ds, ok := d.Call.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Lock" {
								add(s.Pos(), "read lock "+str(s), func() { sel.Sel.Name, ds.Sel.Name = "RLock", "RUnlock" })
							}
						}
					}
				}
			}
		}
		for i := 0; i+1 < len(*l); i++ { // swap neighbours
			a, b := (*l)[i], (*l)[i+1]
			simple := func(s ast.Stmt) bool {
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt:
					return true
				case *ast.AssignStmt:
					return x.Tok != token.DEFINE
				}
				return false
			}
			if simple(a) && simple(b) {
				add(a.Pos(), "swap "+str(a)+" / "+str(b), func() { (*l)[i], (*l)[i+1] = b, a })
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
		case *ast.CommClause:
			block(&x.Body)
		case *ast.IfStmt:
			add(x.Cond.Pos(), "negate "+str(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
		case *ast.BinaryExpr:
			for _, t := range swaps[x.Op] {
				old := x.Op
				add(x.OpPos, fmt.Sprintf("%s -> %s in %s", old, t, str(x)), func() { x.Op = t })
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.OpPos, "only left of "+str(x), func() {
					x.Y = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[x.Op])
				})
				add(x.OpPos, "only right of "+str(x), func() {
					x.X = ast.NewIdent(map[token.Token]string{token.LAND: "true", token.LOR: "false"}[x.Op])
				})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), fmt.Sprintf("%d -> %d", v, v+1), func() { x.Value = strconv.FormatInt(v+1, 10) })
					if v > 0 {
						add(x.Pos(), fmt.Sprintf("%d -> %d", v, v-1), func() { x.Value = strconv.FormatInt(v-1, 10) })
					}
				}
			}
			if x.Kind == token.STRING && len(x.Value) > 2 {
				add(x.Pos(), "string "+x.Value, func() { x.Value = x.Value[:len(x.Value)-1] + "x" + x.Value[len(x.Value)-1:] })
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), "drop ! of "+str(x.X), func() { x.X = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.X}} })
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok {
					switch id.Name {
					case "true":
						add(r.Pos(), "return false", func() { x.Results[i] = ast.NewIdent("false") })
					case "false":
						add(r.Pos(), "return true", func() { x.Results[i] = ast.NewIdent("true") })
					case "err":
						add(r.Pos(), "return nil for err", func() { x.Results[i] = ast.NewIdent("nil") })
					}
				}
			}
		case *ast.Field:
			return x.Tag == nil || true
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, a := range all {
			fmt.Printf("%d\t%d\t%s\n", i, fset.Position(a.pos).Line, a.what)
		}
		return
	}
	n, err := strconv.Atoi(os.Args[2])
	if err != nil || n >= len(all) {
		os.Exit(1)
	}
	all[n].do()
	if err := format.Node(os.Stdout, fset, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
