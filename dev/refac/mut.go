package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

// mutate makes single changes that mean something else; each site is one mutant.
func mutate(c *C) {
	tag := func(s string) {
		if len(c.hits) > 0 {
			c.hits[len(c.hits)-1] += " " + s
		}
	}
	take := func(n ast.Node, s string) bool {
		k := len(c.hits)
		ok := c.take(n)
		if len(c.hits) > k {
			tag(s)
		}
		return ok
	}
	c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
		var out []ast.Stmt
		for k := 0; k < len(l); k++ {
			s := l[k]
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.SendStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
				if !isPanic(s) && !isLog(s) && take(s, "delete") {
					continue
				}
				if _, ok := s.(*ast.ExprStmt); ok && !isLog(s) && !isPanic(s) && take(s, "twice") {
					out = append(out, s)
				}
				if d, ok := s.(*ast.DeferStmt); ok && take(s, "undefer") {
					out = append(out, &ast.ExprStmt{X: d.Call})
					continue
				}
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE && take(s, "delete") {
					continue
				}
			case *ast.IfStmt:
				if take(x, "negate") {
					x.Cond = not(x.Cond)
				}
				if x.Else == nil && x.Init == nil && take(x, "dropif") {
					continue
				}
				if x.Else == nil && x.Init == nil && !terminates(x.Body.List) && take(x, "always") {
					out = append(out, x.Body)
					continue
				}
			case *ast.ReturnStmt:
				for i, e := range x.Results {
					t := c.info.TypeOf(e)
					if t == nil {
						continue
					}
					if types.TypeString(t, nil) == "error" && take(x, "nilerr") {
						x.Results[i] = id("nil")
					}
				}
			}
			// neighbours change places
			if k+1 < len(l) && !isLog(s) && !isLog(l[k+1]) {
				sw := func(s ast.Stmt) bool {
					switch a := s.(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IfStmt:
						return true
					case *ast.AssignStmt:
						return a.Tok != token.DEFINE
					}
					return false
				}
				if sw(s) && sw(l[k+1]) && take(s, "swap") {
					out = append(out, l[k+1], s)
					k++
					continue
				}
			}
			out = append(out, s)
		}
		return out
	})
	c.exprs(c.file, func(e ast.Expr) ast.Expr {
		switch x := e.(type) {
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					if take(x, "inc") {
						return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(v+1, 10)}
					}
					if v > 0 && take(x, "dec") {
						return &ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(v-1, 10)}
					}
				}
			}
		case *ast.Ident:
			if (x.Name == "true" || x.Name == "false") && take(x, "bool") {
				return id(map[string]string{"true": "false", "false": "true"}[x.Name])
			}
		case *ast.BinaryExpr:
			if o, ok := map[token.Token]token.Token{token.LSS: token.LEQ, token.LEQ: token.LSS, token.GTR: token.GEQ, token.GEQ: token.GTR,
				token.LAND: token.LOR, token.LOR: token.LAND, token.ADD: token.SUB, token.SUB: token.ADD}[x.Op]; ok {
				if t := c.info.TypeOf(x); t != nil && types.TypeString(t.Underlying(), nil) == "string" {
					return nil
				}
				if take(x, "op "+x.Op.String()) {
					return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
				}
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				if take(x, "left") {
					return x.X
				}
				if take(x, "right") {
					return x.Y
				}
			}
		case *ast.CallExpr:
			if isLog(&ast.ExprStmt{X: x}) {
				return nil
			}
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := c.info.TypeOf(x.Args[i]), c.info.TypeOf(x.Args[i+1])
				if a != nil && b != nil && types.Identical(a, b) && take(x, "args") {
					x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i]
				}
			}
		case *ast.SelectorExpr:
			// another field of the same type
			if se := c.info.Selections[x]; se != nil && se.Kind() == types.FieldVal {
				t := c.info.TypeOf(x.X)
				if t == nil {
					return nil
				}
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if st, ok := t.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						f := st.Field(i)
						if f.Name() != x.Sel.Name && types.Identical(f.Type(), se.Type()) && take(x, "field "+f.Name()) {
							return &ast.SelectorExpr{X: x.X, Sel: id(f.Name())}
						}
					}
				}
			}
		}
		return nil
	})
}

func isLog(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	k, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	if sel, ok := k.Fun.(*ast.SelectorExpr); ok {
		switch sel.Sel.Name {
		case "Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf":
			return true
		}
	}
	return false
}

func init() { ops["mut"] = mutate }
