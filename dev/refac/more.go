package main

import (
	"bytes"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

func (c *C) text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, c.fset, n)
	return b.String()
}


func init() {
	// conditions become functions
	ops["predfn"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init != nil {
				return nil
			}
			if e := c.exprHelper(i.Cond, []types.Type{types.Typ[types.Bool]}); e != nil {
				i.Cond = e
			}
			return nil
		})
	}
	// right sides of assignments and results become functions
	ops["exprfn"] = func(c *C) {
		one := func(e ast.Expr) ast.Expr {
			tv := c.info.Types[e]
			if tv.Type == nil || tv.Value != nil || tv.IsNil() {
				return nil
			}
			switch e.(type) {
			case *ast.Ident, *ast.BasicLit, *ast.FuncLit, *ast.SelectorExpr, *ast.UnaryExpr:
				if u, ok := e.(*ast.UnaryExpr); !ok || u.Op != token.AND {
					return nil
				} else if _, ok := u.X.(*ast.CompositeLit); !ok {
					return nil
				}
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return nil
			}
			ts := []types.Type{tv.Type}
			if t, ok := tv.Type.(*types.Tuple); ok {
				if _, ok := e.(*ast.CallExpr); !ok {
					return nil
				}
				ts = nil
				for i := 0; i < t.Len(); i++ {
					ts = append(ts, t.At(i).Type())
				}
				if len(ts) == 0 {
					return nil
				}
			}
			return c.exprHelper(e, ts)
		}
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch a := s.(type) {
			case *ast.AssignStmt:
				if len(a.Rhs) == 1 && (len(a.Lhs) == 1 || isCall(a.Rhs[0])) && (a.Tok == token.DEFINE || a.Tok == token.ASSIGN) {
					if e := one(a.Rhs[0]); e != nil {
						a.Rhs[0] = e
					}
				}
			case *ast.ReturnStmt:
				for k := range a.Results {
					if e := one(a.Results[k]); e != nil {
						a.Results[k] = e
					}
				}
			}
			return nil
		})
	}
	// definitions with what leads to them: a, err := f() ... a function that returns the values of a define
	ops["helperdef"] = func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, _ bool) []ast.Stmt {
			for k := 0; k+1 < len(l); k++ {
				a, ok := l[k].(*ast.AssignStmt)
				b, ok2 := l[k+1].(*ast.AssignStmt)
				if !ok || !ok2 || a.Tok != token.DEFINE || b.Tok != token.DEFINE || len(b.Lhs) != 1 || len(b.Rhs) != 1 || len(a.Lhs) != 1 {
					continue
				}
				x, ok := a.Lhs[0].(*ast.Ident)
				o := c.info.Defs[x]
				if !ok || o == nil || c.info.TypeOf(b.Rhs[0]) == nil {
					continue
				}
				// a is only used in b
				n := 0
				ast.Inspect(c.decls[len(c.decls)-1], func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && c.info.Uses[i] == o {
						n++
					}
					return true
				})
				nb := 0
				ast.Inspect(b, func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && c.info.Uses[i] == o {
						nb++
					}
					return true
				})
				if n != nb || n == 0 {
					continue
				}
				ret := &ast.ReturnStmt{Results: []ast.Expr{b.Rhs[0]}}
				vars, ok := c.free([]ast.Stmt{a, ret})
				t := c.typeExpr(c.info.TypeOf(b.Rhs[0]))
				if !ok || t == nil {
					continue
				}
				ft := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{List: []*ast.Field{{Type: t}}}}
				var args []ast.Expr
				bad := false
				for _, v := range vars {
					t := c.typeExpr(v.Type())
					if t == nil {
						bad = true
						break
					}
					ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: t})
					q := id(v.Name())
					c.info.Uses[q] = v
					args = append(args, q)
				}
				if bad || !c.take(a) {
					continue
				}
				b.Rhs[0] = c.helperDecl(ft, args, vars, &ast.BlockStmt{List: []ast.Stmt{a, ret}})
				l = append(append([]ast.Stmt{}, l[:k]...), l[k+1:]...)
			}
			return l
		})
	}
	// if a {} else if b {} else {}  ->  switch { case a: case b: default: }
	ops["ifswitch"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else == nil {
				return nil
			}
			w := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
			for x := ast.Stmt(i); x != nil; {
				switch y := x.(type) {
				case *ast.IfStmt:
					if y.Init != nil || jumps(y.Body, false).brk {
						return nil
					}
					w.Body.List = append(w.Body.List, &ast.CaseClause{List: []ast.Expr{y.Cond}, Body: y.Body.List})
					x = y.Else
				case *ast.BlockStmt:
					if jumps(y, false).brk {
						return nil
					}
					w.Body.List = append(w.Body.List, &ast.CaseClause{Body: y.List})
					x = nil
				}
			}
			if !c.take(i) {
				return nil
			}
			return []ast.Stmt{w}
		})
	}
	// defer mu.Unlock()  ->  mu.Unlock() before every return
	ops["undefer"] = func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			if !body || namedRes(c.sig()) {
				return l
			}
			at := -1
			for k, s := range l {
				if d, ok := s.(*ast.DeferStmt); ok {
					sel, ok := d.Call.Fun.(*ast.SelectorExpr)
					if at >= 0 || !ok || len(d.Call.Args) > 0 || !pure(sel.X) || sel.Sel.Name != "Unlock" && sel.Sel.Name != "RUnlock" && sel.Sel.Name != "Done" {
						return l
					}
					at = k
				} else if jumps(s, false).def {
					return l
				}
			}
			if at < 0 || !c.take(l[at]) {
				return l
			}
			call := l[at].(*ast.DeferStmt).Call
			rest := &ast.BlockStmt{List: append([]ast.Stmt{}, l[at+1:]...)}
			un := func() ast.Stmt { return &ast.ExprStmt{X: call} }
			astutil.Apply(rest, func(cu *astutil.Cursor) bool {
				if _, ok := cu.Node().(*ast.FuncLit); ok {
					return false
				}
				r, ok := cu.Node().(*ast.ReturnStmt)
				if !ok {
					return true
				}
				var pre []ast.Stmt
				if len(r.Results) == 1 && c.sig().Results().Len() > 1 {
					as := &ast.AssignStmt{Tok: token.DEFINE, Rhs: r.Results}
					r.Results = nil
					for i := 0; i < c.sig().Results().Len(); i++ {
						n := c.name("out")
						as.Lhs = append(as.Lhs, id(n))
						r.Results = append(r.Results, id(n))
					}
					pre = append(pre, as)
				} else {
					for k, e := range r.Results {
						tv := c.info.Types[e]
						if tv.IsNil() || tv.Value != nil {
							continue
						}
						if _, ok := e.(*ast.Ident); ok {
							continue
						}
						n := c.name("out")
						pre = append(pre, define(n, e))
						r.Results[k] = id(n)
					}
				}
				cu.Replace(&ast.BlockStmt{List: append(append(pre, un()), r)})
				return false
			}, nil)
			out := append(append([]ast.Stmt{}, l[:at]...), rest.List...)
			if !terminates(rest.List) {
				out = append(out, un())
			}
			return out
		})
	}
	// x.Done() or x.Unlock() at the end of a function without returns  ->  defer at its start
	ops["dodefer"] = func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			if !body || len(l) < 2 {
				return l
			}
			e, ok := l[len(l)-1].(*ast.ExprStmt)
			if !ok {
				return l
			}
			call, ok := e.X.(*ast.CallExpr)
			if !ok || len(call.Args) > 0 {
				return l
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok || sel.Sel.Name != "Done" || !pure(sel.X) {
				return l
			}
			if jumps(&ast.BlockStmt{List: l}, false).ret || !c.take(e) {
				return l
			}
			return append([]ast.Stmt{&ast.DeferStmt{Call: call}}, l[:len(l)-1]...)
		})
	}
	// if a {X; return}; if b {X; return}  ->  if a || b
	ops["ormerge"] = func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, _ bool) []ast.Stmt {
			for k := 0; k+1 < len(l); k++ {
				a, ok := l[k].(*ast.IfStmt)
				b, ok2 := l[k+1].(*ast.IfStmt)
				if !ok || !ok2 || a.Init != nil || b.Init != nil || a.Else != nil || b.Else != nil || !terminates(a.Body.List) || c.text(a.Body) != c.text(b.Body) || !c.take(a) {
					continue
				}
				a.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: a.Cond}, Op: token.LOR, Y: &ast.ParenExpr{X: b.Cond}}
				l = append(append([]ast.Stmt{}, l[:k+1]...), l[k+2:]...)
				k--
			}
			return l
		})
	}
	// if a { if b {X} }  ->  if a && b {X}
	ops["andmerge"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.IfStmt)
			if !ok || a.Else != nil || len(a.Body.List) != 1 {
				return nil
			}
			b, ok := a.Body.List[0].(*ast.IfStmt)
			if !ok || b.Else != nil || b.Init != nil || !c.take(a) {
				return nil
			}
			a.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: a.Cond}, Op: token.LAND, Y: &ast.ParenExpr{X: b.Cond}}
			a.Body = b.Body
			return nil
		})
	}
	// var xs []T  ->  xs := make([]T, 0)
	ops["prealloc"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			d, ok := s.(*ast.DeclStmt)
			if !ok {
				return nil
			}
			g := d.Decl.(*ast.GenDecl)
			if g.Tok != token.VAR || len(g.Specs) != 1 {
				return nil
			}
			v := g.Specs[0].(*ast.ValueSpec)
			if len(v.Names) != 1 || len(v.Values) > 0 {
				return nil
			}
			if _, ok := v.Type.(*ast.ArrayType); !ok || v.Type.(*ast.ArrayType).Len != nil || !c.take(v) {
				return nil
			}
			return []ast.Stmt{define(v.Names[0].Name, &ast.CallExpr{Fun: id("make"), Args: []ast.Expr{v.Type, &ast.BasicLit{Kind: token.INT, Value: "0"}, &ast.BasicLit{Kind: token.INT, Value: "4"}}})}
		})
	}
	// s.f.M()  ->  x := s.f; x.M()
	ops["fieldvar"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			var e ast.Expr
			switch x := s.(type) {
			case *ast.ExprStmt:
				e = x.X
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					e = x.Rhs[0]
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					e = x.Results[0]
				}
			}
			call, ok := e.(*ast.CallExpr)
			if !ok {
				return nil
			}
			sel, ok := call.Fun.(*ast.SelectorExpr)
			if !ok {
				return nil
			}
			in, ok := sel.X.(*ast.SelectorExpr)
			if !ok {
				return nil
			}
			se := c.info.Selections[in]
			if se == nil || se.Kind() != types.FieldVal {
				return nil
			}
			switch se.Type().Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Slice:
			default:
				return nil
			}
			if !c.take(s) {
				return nil
			}
			n := c.name("fld")
			sel.X = id(n)
			return []ast.Stmt{define(n, in), s}
		})
	}
	// literals become package constants
	ops["constlit"] = func(c *C) {
		g := &ast.GenDecl{Tok: token.CONST, Lparen: 1}
		for _, d := range c.file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil {
				continue
			}
			astutil.Apply(f.Body, func(cu *astutil.Cursor) bool {
				if _, ok := cu.Node().(*ast.ImportSpec); ok {
					return false
				}
				if f, ok := cu.Node().(*ast.Field); ok && f.Tag != nil {
					return false
				}
				if b, ok := cu.Node().(*ast.BasicLit); ok && c.take(b) {
					n := "lit" + strings.Map(func(r rune) rune {
						if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
							return r
						}
						return '_'
					}, c.fname) + c.name("x")
					g.Specs = append(g.Specs, &ast.ValueSpec{Names: []*ast.Ident{id(n)}, Values: []ast.Expr{b}})
					cu.Replace(id(n))
				}
				return true
			}, nil)
		}
		if len(g.Specs) > 0 {
			c.extra = append(c.extra, g)
		}
	}
	// for _, v := range xs  ->  for i := range xs { v := xs[i]
	ops["rangekey"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE || !pure(r.X) {
				return nil
			}
			v, ok := r.Value.(*ast.Ident)
			if !ok || v.Name == "_" {
				return nil
			}
			if _, ok := c.info.TypeOf(r.X).Underlying().(*types.Slice); !ok || !c.take(r) {
				return nil
			}
			k, ok := r.Key.(*ast.Ident)
			if !ok || k.Name == "_" {
				k = id(c.name("pos"))
				r.Key = k
			}
			r.Value = nil
			r.Body.List = append([]ast.Stmt{define(v.Name, &ast.IndexExpr{X: r.X, Index: id(k.Name)})}, r.Body.List...)
			return nil
		})
	}
	// for i := 0; i < len(xs); i++  ->  for i := range xs
	ops["idxrange"] = func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil || f.Cond == nil || f.Post == nil {
				return nil
			}
			b, ok := f.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LSS {
				return nil
			}
			a, ok := f.Init.(*ast.AssignStmt)
			if !ok || len(a.Lhs) != 1 || c.text(a.Rhs[0]) != "0" || c.text(a.Lhs[0]) != c.text(b.X) || c.text(f.Post) != c.text(b.X)+"++" {
				return nil
			}
			call, ok := b.Y.(*ast.CallExpr)
			if !ok || c.text(call.Fun) != "len" {
				return nil
			}
			for o := range c.assigned(f.Body) {
				if o == c.info.Defs[a.Lhs[0].(*ast.Ident)] {
					return nil
				}
			}
			if !c.take(f) {
				return nil
			}
			return []ast.Stmt{&ast.RangeStmt{Key: a.Lhs[0], Tok: token.DEFINE, X: call.Args[0], Body: f.Body}}
		})
	}
	// v, ok := e; if ok {  ->  if v, ok := e; ok {
	ops["ifscope"] = func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, _ bool) []ast.Stmt {
			for k := 0; k+1 < len(l); k++ {
				a, ok := l[k].(*ast.AssignStmt)
				i, ok2 := l[k+1].(*ast.IfStmt)
				if !ok || !ok2 || a.Tok != token.DEFINE || i.Init != nil {
					continue
				}
				bad := false
				for _, e := range a.Lhs {
					x := e.(*ast.Ident)
					if x.Name == "_" {
						continue
					}
					o := c.info.Defs[x]
					if o == nil {
						bad = true
						break
					}
					for _, s := range l[k+2:] {
						ast.Inspect(s, func(m ast.Node) bool {
							if y, ok := m.(*ast.Ident); ok && c.info.Uses[y] == o {
								bad = true
							}
							return true
						})
					}
				}
				if bad || !c.take(a) {
					continue
				}
				i.Init = a
				l = append(append([]ast.Stmt{}, l[:k]...), l[k+1:]...)
			}
			return l
		})
	}
}

func isCall(e ast.Expr) bool { _, ok := e.(*ast.CallExpr); return ok }
