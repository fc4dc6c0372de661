// Command refac applies behaviour-preserving edits of one kind to a copy of the repository.
// usage: refac -repo SRC -out DST -op NAME [-lo N -hi M] [-file substr]; prints the sites it edited.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type C struct {
	info   *types.Info
	pkg    *types.Package
	fset   *token.FileSet
	file   *ast.File
	n      int
	lo, hi int
	hits   []string
	sigs   []*types.Signature // enclosing functions
	decls  []*ast.FuncDecl
	bodies []*ast.BlockStmt
	extra  []ast.Decl
	uniq   int
	test   map[string]bool
	fname  string
	method bool // helpers are methods where they can be
}

var dry = flag.Bool("dry", false, "only list the places")

func (c *C) take(n ast.Node) bool {
	c.n++
	if c.n-1 < c.lo || c.n-1 >= c.hi {
		return false
	}
	p := c.fset.Position(n.Pos())
	c.hits = append(c.hits, fmt.Sprintf("%d %s:%d", c.n-1, c.fname, p.Line))
	return !*dry
}

func (c *C) name(s string) string {
	c.uniq++
	return fmt.Sprintf("%s%d", s, c.uniq)
}

func (c *C) sig() *types.Signature { return c.sigs[len(c.sigs)-1] }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func define(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func not(e ast.Expr) ast.Expr {
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// terminates: the list ends in a terminating statement.
func terminates(l []ast.Stmt) bool {
	if len(l) == 0 {
		return false
	}
	switch s := l[len(l)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BlockStmt:
		return terminates(s.List)
	case *ast.IfStmt:
		if s.Else == nil {
			return false
		}
		return terminates(s.Body.List) && terminates([]ast.Stmt{s.Else})
	case *ast.ExprStmt:
		if k, ok := s.X.(*ast.CallExpr); ok {
			if i, ok := k.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	case *ast.ForStmt:
		return s.Cond == nil && !jumps(s.Body, false).brk
	}
	return false
}

type jump struct{ ret, brk, cont, lab, def, rec bool }

// jumps: what in n leaves n.
func jumps(n ast.Node, intoLoop bool) jump {
	var j jump
	var walk func(n ast.Node, loop, sw bool)
	walk = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch s := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt:
				walk(s, true, true)
				return false
			case *ast.RangeStmt:
				walk(s, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				walk(s, loop, true)
				return false
			case *ast.ReturnStmt:
				j.ret = true
			case *ast.DeferStmt:
				j.def = true
			case *ast.LabeledStmt:
				j.lab = true
			case *ast.CallExpr:
				if i, ok := s.Fun.(*ast.Ident); ok && i.Name == "recover" {
					j.rec = true
				}
			case *ast.BranchStmt:
				if s.Label != nil || s.Tok == token.GOTO || s.Tok == token.FALLTHROUGH {
					j.lab = true
				} else if s.Tok == token.BREAK && !sw {
					j.brk = true
				} else if s.Tok == token.CONTINUE && !loop {
					j.cont = true
				}
			}
			return true
		})
	}
	b := &ast.BlockStmt{List: []ast.Stmt{}}
	switch s := n.(type) {
	case *ast.BlockStmt:
		b.List = s.List
		walk(b, intoLoop, intoLoop)
	default:
		walk(&ast.BlockStmt{List: []ast.Stmt{n.(ast.Stmt)}}, false, false)
	}
	return j
}

// lists applies f to every statement list, inner ones first.
func (c *C) lists(root ast.Node, f func(l []ast.Stmt, body bool) []ast.Stmt) {
	astutil.Apply(root, func(cu *astutil.Cursor) bool {
		switch n := cu.Node().(type) {
		case *ast.FuncDecl:
			if n.Body == nil {
				return false
			}
			c.sigs = append(c.sigs, c.info.Defs[n.Name].Type().(*types.Signature))
			c.decls = append(c.decls, n)
			c.bodies = append(c.bodies, n.Body)
		case *ast.FuncLit:
			s, _ := c.info.TypeOf(n).(*types.Signature)
			c.sigs = append(c.sigs, s)
			c.bodies = append(c.bodies, n.Body)
		}
		return true
	}, func(cu *astutil.Cursor) bool {
		switch n := cu.Node().(type) {
		case *ast.BlockStmt:
			_, a := cu.Parent().(*ast.FuncDecl)
			_, b := cu.Parent().(*ast.FuncLit)
			n.List = f(n.List, a || b)
		case *ast.CaseClause:
			n.Body = f(n.Body, false)
		case *ast.CommClause:
			n.Body = f(n.Body, false)
		case *ast.FuncDecl:
			if n.Body != nil {
				c.sigs = c.sigs[:len(c.sigs)-1]
				c.decls = c.decls[:len(c.decls)-1]
				c.bodies = c.bodies[:len(c.bodies)-1]
			}
		case *ast.FuncLit:
			c.sigs = c.sigs[:len(c.sigs)-1]
			c.bodies = c.bodies[:len(c.bodies)-1]
		}
		return true
	})
}

func (c *C) each(root ast.Node, f func(s ast.Stmt) []ast.Stmt) {
	c.lists(root, func(l []ast.Stmt, _ bool) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r := f(s); r != nil {
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}

func (c *C) exprs(root ast.Node, f func(e ast.Expr) ast.Expr) {
	astutil.Apply(root, nil, func(cu *astutil.Cursor) bool {
		if e, ok := cu.Node().(ast.Expr); ok {
			if r := f(e); r != nil {
				cu.Replace(r)
			}
		}
		return true
	})
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if i, k := x.Fun.(*ast.Ident); !k || i.Name != "len" {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// assigned: objects the node assigns or takes the address of.
func (c *C) assigned(n ast.Node) map[types.Object]int {
	m := map[types.Object]int{}
	obj := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				if t := c.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Struct); ok {
						e = x.X
						continue
					}
				}
			case *ast.IndexExpr:
				if t := c.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						e = x.X
						continue
					}
				}
			case *ast.Ident:
				if o := c.info.Uses[x]; o != nil {
					m[o]++
				}
				if o := c.info.Defs[x]; o != nil {
					m[o]++
				}
			}
			return
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				obj(l)
			}
		case *ast.IncDecStmt:
			obj(s.X)
		case *ast.RangeStmt:
			if s.Key != nil {
				obj(s.Key)
			}
			if s.Value != nil {
				obj(s.Value)
			}
		case *ast.UnaryExpr:
			if s.Op == token.AND {
				obj(s.X)
			}
		case *ast.CallExpr:
			// a method with a pointer receiver takes the address of an addressable value
			if sel, ok := s.Fun.(*ast.SelectorExpr); ok {
				if se := c.info.Selections[sel]; se != nil && se.Kind() == types.MethodVal {
					if sg, ok := se.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
						if _, p := sg.Recv().Type().(*types.Pointer); p {
							if t := c.info.TypeOf(sel.X); t != nil {
								if _, p := t.(*types.Pointer); !p {
									obj(sel.X)
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return m
}

func (c *C) typeExpr(t types.Type) ast.Expr {
	bad := strings.Contains(t.String(), "any")
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg {
			return ""
		}
		for _, im := range c.file.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		bad = true
		return p.Name()
	})
	if bad {
		return nil
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	ast.Inspect(e, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && !s.Sel.IsExported() {
			bad = true
		}
		return true
	})
	if bad {
		return nil
	}
	return e
}

func isPanic(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	k, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	i, ok := k.Fun.(*ast.Ident)
	return ok && i.Name == "panic"
}

// redeclares: a := of the list assigns a variable declared before.
func (c *C) redeclares(l []ast.Stmt) bool {
	for _, s := range l {
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			for _, e := range a.Lhs {
				if i, ok := e.(*ast.Ident); ok && i.Name != "_" && c.info.Defs[i] == nil && c.info.Uses[i] != nil {
					return true
				}
			}
		}
	}
	return false
}

func namedRes(s *types.Signature) bool { return s != nil && s.Results().Len() > 0 && s.Results().At(0).Name() != "" }

// free: the local variables of the function the list uses but does not declare.
func (c *C) free(l []ast.Stmt) ([]*types.Var, bool) {
	in := map[types.Object]bool{}
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if o := c.info.Defs[i]; o != nil {
					in[o] = true
				}
			}
			if cc, ok := n.(*ast.CaseClause); ok {
				if o := c.info.Implicits[cc]; o != nil {
					in[o] = true
				}
			}
			return true
		})
	}
	asg := map[types.Object]int{}
	lit := false
	for _, s := range l {
		for o, k := range c.assigned(s) {
			asg[o] += k
		}
		ast.Inspect(s, func(n ast.Node) bool {
			if _, ok := n.(*ast.FuncLit); ok {
				lit = true
			}
			return true
		})
	}
	all := c.assigned(c.decls[len(c.decls)-1])
	inLit := map[types.Object]int{}
	ast.Inspect(c.decls[len(c.decls)-1], func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			for o, k := range c.assigned(f.Body) {
				if o.Pos() < f.Pos() || o.Pos() > f.End() {
					inLit[o] += k
				}
			}
		}
		return true
	})
	seen := map[*types.Var]bool{}
	var out []*types.Var
	good := true
	for _, s := range l {
		ast.Inspect(s, func(n ast.Node) bool {
			i, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := c.info.Uses[i]
			if o == nil || in[o] {
				return true
			}
			switch v := o.(type) {
			case *types.Var:
				if v.IsField() || v.Parent() == nil && false || v.Parent() == c.pkg.Scope() || v.Pkg() != c.pkg {
					return true
				}
				if asg[v] > 0 || inLit[v] > 0 || lit && all[v] > 1 {
					good = false
				}
				if strings.Contains(v.Type().String(), "sync.") && !strings.HasPrefix(v.Type().String(), "*") {
					good = false
				}
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			case *types.Const, *types.TypeName:
				if o.Parent() != c.pkg.Scope() && o.Parent() != types.Universe && o.Pkg() == c.pkg {
					good = false
				}
			}
			return true
		})
	}
	return out, good
}

// helperDecl declares the function and makes the call.
func (c *C) helperDecl(ft *ast.FuncType, args []ast.Expr, vars []*types.Var, body *ast.BlockStmt) *ast.CallExpr {
	n := c.name("part")
	d := &ast.FuncDecl{Name: id(n), Type: ft, Body: body}
	c.extra = append(c.extra, d)
	if c.method {
		rv := c.decls[len(c.decls)-1].Recv
		if rv != nil && len(rv.List[0].Names) > 0 {
			for i, v := range vars {
				if v == c.info.Defs[rv.List[0].Names[0]] {
					d.Recv = &ast.FieldList{List: []*ast.Field{ft.Params.List[i]}}
					ft.Params.List = append(append([]*ast.Field{}, ft.Params.List[:i]...), ft.Params.List[i+1:]...)
					recv := args[i]
					args = append(append([]ast.Expr{}, args[:i]...), args[i+1:]...)
					return &ast.CallExpr{Fun: &ast.SelectorExpr{X: recv, Sel: id(n)}, Args: args}
				}
			}
		}
	}
	return &ast.CallExpr{Fun: id(n), Args: args}
}

// exprHelper makes a function that returns the expression.
func (c *C) exprHelper(e ast.Expr, ts []types.Type) ast.Expr {
	if len(c.decls) == 0 {
		return nil
	}
	lit := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			lit = true
		}
		if k, ok := n.(*ast.CallExpr); ok {
			if i, ok := k.Fun.(*ast.Ident); ok && i.Name == "recover" {
				lit = true
			}
		}
		return true
	})
	if lit {
		return nil
	}
	vars, ok := c.free([]ast.Stmt{&ast.ExprStmt{X: e}})
	if !ok {
		return nil
	}
	ft := &ast.FuncType{Params: &ast.FieldList{}, Results: &ast.FieldList{}}
	var args []ast.Expr
	for _, v := range vars {
		t := c.typeExpr(v.Type())
		if t == nil || v.Name() == "_" {
			return nil
		}
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: t})
		a := id(v.Name())
		c.info.Uses[a] = v
		args = append(args, a)
	}
	for _, t := range ts {
		x := c.typeExpr(t)
		if x == nil {
			return nil
		}
		ft.Results.List = append(ft.Results.List, &ast.Field{Type: x})
	}
	if !c.take(e) {
		return nil
	}
	return c.helperDecl(ft, args, vars, &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{e}}}})
}

// helper makes a function of the statements and returns the call of it.
func (c *C) helper(l []ast.Stmt, async bool) []ast.Stmt {
	if len(l) == 0 || len(c.decls) == 0 || c.sig() == nil {
		return nil
	}
	j := jumps(&ast.BlockStmt{List: l}, false)
	last := false
	if j.ret && !async {
		if r, ok := l[len(l)-1].(*ast.ReturnStmt); ok && !jumps(&ast.BlockStmt{List: l[:len(l)-1]}, false).ret && len(r.Results) == c.sig().Results().Len() {
			last, j.ret = true, false
		}
	}
	if async {
		j.def, j.ret = false, false
	}
	if j.ret || j.brk || j.cont || j.lab || j.def || j.rec {
		return nil
	}
	// unlocking or locking pairs stay where they are
	vars, ok := c.free(l)
	if !ok {
		return nil
	}
	ft := &ast.FuncType{Params: &ast.FieldList{}}
	var args []ast.Expr
	for _, v := range vars {
		t := c.typeExpr(v.Type())
		if t == nil || v.Name() == "_" {
			return nil
		}
		ft.Params.List = append(ft.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: t})
		a := id(v.Name())
		c.info.Uses[a] = v
		args = append(args, a)
	}
	if last {
		ft.Results = &ast.FieldList{}
		for i := 0; i < c.sig().Results().Len(); i++ {
			t := c.typeExpr(c.sig().Results().At(i).Type())
			if t == nil {
				return nil
			}
			ft.Results.List = append(ft.Results.List, &ast.Field{Type: t})
		}
	}
	if !c.take(l[0]) {
		return nil
	}
	call := c.helperDecl(ft, args, vars, &ast.BlockStmt{List: l})
	if last && len(ft.Results.List) > 0 {
		return []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
	}
	if last {
		return []ast.Stmt{&ast.ExprStmt{X: call}, &ast.ReturnStmt{}}
	}
	return []ast.Stmt{&ast.ExprStmt{X: call}}
}

var ops = map[string]func(c *C){
	// if c {A} else {B}  ->  if !(c) {B} else {A}
	"ifinvert": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else == nil {
				return nil
			}
			b, ok := i.Else.(*ast.BlockStmt)
			if !ok || !c.take(i) {
				return nil
			}
			i.Cond, i.Body, i.Else = not(i.Cond), b, i.Body
			return nil
		})
	},
	// if c {...return}; rest  ->  if c {...return} else {rest}
	"else": func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			for k := len(l) - 2; k >= 0; k-- {
				i, ok := l[k].(*ast.IfStmt)
				if !ok || i.Else != nil || !terminates(i.Body.List) || namedRes(c.sig()) {
					continue
				}
				if body && c.sig().Results().Len() > 0 && !terminates(l[k+1:]) {
					continue
				}
				if jumps(&ast.BlockStmt{List: l[k+1:]}, false).lab || c.redeclares(l[k+1:]) {
					continue
				}
				// the init variable of the if must not capture names of the rest
				if i.Init != nil {
					continue
				}
				if !c.take(i) {
					continue
				}
				i.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, l[k+1:]...)}
				l = l[:k+1]
			}
			return l
		})
	},
	// if c {A; return}; rest  ->  if !c {rest}; A; return
	"guard": func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			for k := len(l) - 2; k >= 0; k-- {
				i, ok := l[k].(*ast.IfStmt)
				if !ok || i.Else != nil || i.Init != nil || !terminates(i.Body.List) || namedRes(c.sig()) {
					continue
				}
				rest := append([]ast.Stmt{}, l[k+1:]...)
				if !terminates(rest) {
					if !body || c.sig().Results().Len() > 0 {
						continue
					}
					rest = append(rest, &ast.ReturnStmt{})
				}
				if jumps(&ast.BlockStmt{List: rest}, false).lab || c.redeclares(rest) || !c.take(i) {
					continue
				}
				l = append(append(append([]ast.Stmt{}, l[:k]...), &ast.IfStmt{Cond: not(i.Cond), Body: &ast.BlockStmt{List: rest}}), i.Body.List...)
			}
			return l
		})
	},
	// if c {  ->  ok := c; if ok {
	"condvar": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init != nil || !c.take(i) {
				return nil
			}
			n := c.name("cond")
			d := define(n, i.Cond)
			i.Cond = id(n)
			return []ast.Stmt{d, i}
		})
	},
	// arguments that are calls become variables
	"argvar": func(c *C) {
		hoist := func(call *ast.CallExpr) []ast.Stmt {
			if tv, ok := c.info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
				return nil
			}
			var pre []ast.Stmt
			if !pure(call.Fun) {
				return nil
			}
			for k, a := range call.Args {
				ac, ok := a.(*ast.CallExpr)
				if !ok {
					continue
				}
				if tv, ok := c.info.Types[ac.Fun]; !ok || tv.IsType() {
					continue
				}
				if t, ok := c.info.TypeOf(ac).(*types.Tuple); ok && t.Len() != 1 {
					continue
				}
				if !c.take(ac) {
					continue
				}
				n := c.name("arg")
				pre = append(pre, define(n, ac))
				call.Args[k] = id(n)
			}
			return pre
		}
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			var e ast.Expr
			switch x := s.(type) {
			case *ast.ExprStmt:
				e = x.X
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					e = x.Rhs[0]
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					e = x.Results[0]
				}
			}
			if call, ok := e.(*ast.CallExpr); ok {
				if p := hoist(call); p != nil {
					return append(p, s)
				}
			}
			return nil
		})
	},
	// return f(x)  ->  r := f(x); return r
	"retvar": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.ReturnStmt)
			if !ok || len(r.Results) == 0 {
				return nil
			}
			var pre []ast.Stmt
			if len(r.Results) == 1 {
				if t, ok := c.info.TypeOf(r.Results[0]).(*types.Tuple); ok {
					if !c.take(r) {
						return nil
					}
					a := &ast.AssignStmt{Tok: token.DEFINE, Rhs: r.Results}
					r.Results = nil
					for i := 0; i < t.Len(); i++ {
						n := c.name("res")
						a.Lhs = append(a.Lhs, id(n))
						r.Results = append(r.Results, id(n))
					}
					return []ast.Stmt{a, r}
				}
			}
			for k, e := range r.Results {
				tv := c.info.Types[e]
				if tv.IsNil() || tv.Type == nil || tv.Value != nil {
					continue
				}
				if _, ok := e.(*ast.Ident); ok {
					continue
				}
				if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					continue
				}
				if !c.take(e) {
					continue
				}
				n := c.name("res")
				pre = append(pre, define(n, e))
				r.Results[k] = id(n)
			}
			if pre == nil {
				return nil
			}
			return append(pre, r)
		})
	},
	// for i, v := range xs  ->  for i := 0; i < len(xs); i++ { v := xs[i]
	"rangeidx": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			r, ok := s.(*ast.RangeStmt)
			if !ok || r.Tok != token.DEFINE {
				return nil
			}
			if _, ok := c.info.TypeOf(r.X).Underlying().(*types.Slice); !ok || !c.take(r) {
				return nil
			}
			xs, i := c.name("items"), c.name("pos")
			if k, ok := r.Key.(*ast.Ident); ok && k.Name != "_" {
				i = k.Name
			}
			body := r.Body
			if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
				body = &ast.BlockStmt{List: append([]ast.Stmt{define(v.Name, &ast.IndexExpr{X: id(xs), Index: id(i)})}, r.Body.List...)}
			}
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{define(xs, r.X), &ast.ForStmt{
				Init: define(i, &ast.BasicLit{Kind: token.INT, Value: "0"}),
				Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(xs)}}},
				Post: &ast.IncDecStmt{X: id(i), Tok: token.INC}, Body: body}}}}
		})
	},
	// for i := a; c; p {B}  ->  i := a; for c {B; p}
	"forwhile": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Init == nil && f.Post == nil || jumps(f.Body, false).cont || jumps(f.Body, false).lab || !c.take(f) {
				return nil
			}
			b := &ast.BlockStmt{}
			if f.Init != nil {
				b.List = append(b.List, f.Init)
			}
			if f.Post != nil {
				f.Body.List = append(f.Body.List, f.Post)
			}
			f.Init, f.Post = nil, nil
			b.List = append(b.List, f)
			return []ast.Stmt{b}
		})
	},
	// for c {B}  ->  for { if !c {break}; B }
	"forbreak": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			f, ok := s.(*ast.ForStmt)
			if !ok || f.Cond == nil || !c.take(f) {
				return nil
			}
			f.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(f.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, f.Body.List...)
			f.Cond = nil
			return nil
		})
	},
	// if c {B} at the end of a loop body  ->  if !c {continue}; B
	"continue": func(c *C) {
		do := func(b *ast.BlockStmt) {
			if len(b.List) == 0 {
				return
			}
			i, ok := b.List[len(b.List)-1].(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil || !c.take(i) {
				return
			}
			rest := i.Body.List
			i.Cond = not(i.Cond)
			i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}
			b.List = append(b.List, rest...)
		}
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch f := s.(type) {
			case *ast.ForStmt:
				do(f.Body)
			case *ast.RangeStmt:
				do(f.Body)
			}
			return nil
		})
	},
	// defer f()  ->  defer func() { f() }()
	"deferfn": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			d, ok := s.(*ast.DeferStmt)
			if !ok {
				return nil
			}
			if _, lit := d.Call.Fun.(*ast.FuncLit); lit {
				return nil
			}
			if i, ok := d.Call.Fun.(*ast.Ident); ok && i.Name == "close" {
			} else if !pure(d.Call.Fun) {
				return nil
			}
			for _, a := range d.Call.Args {
				if _, ok := a.(*ast.BasicLit); !ok {
					if x, ok := a.(*ast.Ident); !ok || c.assigned(c.decls[len(c.decls)-1])[c.info.Uses[x]] > 1 {
						return nil
					}
				}
			}
			if !c.take(d) {
				return nil
			}
			return []ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}}}
		})
	},
	// a function forwards to another with its body
	"fnimpl": func(c *C) {
		for _, d := range append([]ast.Decl{}, c.file.Decls...) {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || len(f.Body.List) == 0 || f.Name.Name == "init" || f.Name.Name == "main" && f.Recv == nil || !c.take(f) {
				continue
			}
			var args []ast.Expr
			call := &ast.CallExpr{}
			for _, p := range f.Type.Params.List {
				if len(p.Names) == 0 {
					p.Names = []*ast.Ident{id(c.name("p"))}
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						n.Name = c.name("p")
					}
					args = append(args, id(n.Name))
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					call.Ellipsis = 1
				}
			}
			call.Args = args
			nn := f.Name.Name + "Impl"
			g := &ast.FuncDecl{Recv: f.Recv, Name: id(nn), Type: f.Type, Body: f.Body}
			if f.Recv != nil {
				if len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_" {
					f.Recv.List[0].Names = []*ast.Ident{id(c.name("r"))}
				}
				call.Fun = &ast.SelectorExpr{X: id(f.Recv.List[0].Names[0].Name), Sel: id(nn)}
			} else {
				call.Fun = id(nn)
			}
			var st ast.Stmt = &ast.ExprStmt{X: call}
			ft := *f.Type
			if f.Type.Results != nil && len(f.Type.Results.List) > 0 {
				st = &ast.ReturnStmt{Results: []ast.Expr{call}}
			}
			nf := &ast.FuncDecl{Recv: f.Recv, Name: f.Name, Type: &ft, Body: &ast.BlockStmt{List: []ast.Stmt{st}}}
			for k := range c.file.Decls {
				if c.file.Decls[k] == d {
					c.file.Decls[k] = nf
				}
			}
			c.extra = append(c.extra, g)
		}
	},
	// blocks of ifs become functions
	"helperif": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			if i, ok := s.(*ast.IfStmt); ok {
				if l := c.helper(i.Body.List, false); l != nil {
					i.Body = &ast.BlockStmt{List: l}
				}
				if e, ok := i.Else.(*ast.BlockStmt); ok {
					if l := c.helper(e.List, false); l != nil {
						i.Else = &ast.BlockStmt{List: l}
					}
				}
			}
			return nil
		})
	},
	// bodies of loops become functions
	"helperfor": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			var b *ast.BlockStmt
			switch f := s.(type) {
			case *ast.ForStmt:
				b = f.Body
			case *ast.RangeStmt:
				b = f.Body
			default:
				return nil
			}
			if l := c.helper(b.List, false); l != nil {
				b.List = l
			}
			return nil
		})
	},
	// cases of switches and selects become functions
	"helpercase": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			var b *ast.BlockStmt
			switch f := s.(type) {
			case *ast.SwitchStmt:
				b = f.Body
			case *ast.SelectStmt:
				b = f.Body
			default:
				return nil
			}
			for _, k := range b.List {
				switch q := k.(type) {
				case *ast.CaseClause:
					if l := c.helper(q.Body, false); l != nil {
						q.Body = l
					}
				case *ast.CommClause:
					if l := c.helper(q.Body, false); l != nil {
						q.Body = l
					}
				}
			}
			return nil
		})
	},
	// tails of function bodies, after the first statement, become functions
	"helpertail": func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			if !body {
				return l
			}
			for k := 1; k < len(l); k++ {
				if len(l)-k < 2 {
					break
				}
				if h := c.helper(append([]ast.Stmt{}, l[k:]...), false); h != nil {
					return append(append([]ast.Stmt{}, l[:k]...), h...)
				}
			}
			return l
		})
	},
	// whole loops become functions
	"helperloop": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.IfStmt:
				return c.helper([]ast.Stmt{s}, false)
			}
			return nil
		})
	},
	// single calls and assignments to fields become functions
	"helperstmt": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch a := s.(type) {
			case *ast.ExprStmt:
				if isPanic(s) {
					return nil
				}
				return c.helper([]ast.Stmt{s}, false)
			case *ast.SendStmt, *ast.IncDecStmt:
				return c.helper([]ast.Stmt{s}, false)
			case *ast.AssignStmt:
				if a.Tok != token.DEFINE {
					return c.helper([]ast.Stmt{s}, false)
				}
			}
			return nil
		})
	},
	// loops run in a closure
	"closure": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.ExprStmt:
				if isPanic(s) {
					return nil
				}
			default:
				return nil
			}
			j := jumps(s, false)
			if j.ret || j.brk || j.cont || j.lab || j.def || j.rec || !c.take(s) {
				return nil
			}
			return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}}}}
		})
	},
	// go func() {...}()  ->  go named(captured)
	"gonamed": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			g, ok := s.(*ast.GoStmt)
			if !ok || len(g.Call.Args) > 0 || len(c.decls) == 0 {
				return nil
			}
			f, ok := g.Call.Fun.(*ast.FuncLit)
			if !ok {
				return nil
			}
			vars, ok := c.free(f.Body.List)
			if !ok {
				return nil
			}
			all := c.assigned(c.decls[len(c.decls)-1])
			for _, v := range vars {
				if all[v] > 1 || v.Pos() > g.Pos() {
					return nil
				}
			}
			l := c.helper(f.Body.List, true)
			if l == nil {
				return nil
			}
			return []ast.Stmt{&ast.GoStmt{Call: l[0].(*ast.ExprStmt).X.(*ast.CallExpr)}}
		})
	},
	// go f(x)  ->  go func() { f(x) }()
	"goclosure": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			g, ok := s.(*ast.GoStmt)
			if !ok {
				return nil
			}
			if _, lit := g.Call.Fun.(*ast.FuncLit); lit {
				return nil
			}
			if !pure(g.Call.Fun) {
				return nil
			}
			all := c.assigned(c.decls[len(c.decls)-1])
			ok = true
			ast.Inspect(g.Call, func(n ast.Node) bool {
				if i, k := n.(*ast.Ident); k && all[c.info.Uses[i]] > 1 {
					ok = false
				}
				return true
			})
			for _, a := range g.Call.Args {
				if _, k := a.(*ast.Ident); !k {
					ok = false
				}
			}
			if !ok || !c.take(g) {
				return nil
			}
			return []ast.Stmt{&ast.GoStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: g.Call}}}}}}}
		})
	},
	// if a && b {X}  ->  if a { if b {X} }
	"andnest": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil {
				return nil
			}
			b, ok := i.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND || !c.take(i) {
				return nil
			}
			i.Cond = b.X
			i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}
			return nil
		})
	},
	// if a || b {X; return}  ->  if a {X; return}; if b {X; return}
	"orsplit": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil || i.Init != nil || !terminates(i.Body.List) {
				return nil
			}
			b, ok := i.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LOR || !c.take(i) {
				return nil
			}
			return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: i.Body}, &ast.IfStmt{Cond: b.Y, Body: i.Body}}
		})
	},
	// if v := f(); c {  ->  { v := f(); if c {...} }
	"ifinit": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init == nil || !c.take(i) {
				return nil
			}
			in := i.Init
			i.Init = nil
			return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{in, i}}}
		})
	},
	// a != b -> !(a == b), a < b -> b > a
	"flipcmp": func(c *C) {
		c.exprs(c.file, func(e ast.Expr) ast.Expr {
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return nil
			}
			switch b.Op {
			case token.NEQ:
				if c.take(b) {
					return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: token.EQL, Y: b.Y}}}
				}
			case token.EQL:
				if pure(b.X) && pure(b.Y) && c.take(b) {
					return &ast.BinaryExpr{X: b.Y, Op: token.EQL, Y: b.X}
				}
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if pure(b.X) && pure(b.Y) && c.take(b) {
					return &ast.BinaryExpr{X: b.Y, Op: map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}[b.Op], Y: b.X}
				}
			}
			return nil
		})
	},
	// a < b -> !(a >= b); !x -> x == false
	"negcmp": func(c *C) {
		c.exprs(c.file, func(e ast.Expr) ast.Expr {
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT && c.take(u) {
				return &ast.BinaryExpr{X: u.X, Op: token.EQL, Y: id("false")}
			}
			b, ok := e.(*ast.BinaryExpr)
			if !ok {
				return nil
			}
			o, ok := map[token.Token]token.Token{token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR, token.EQL: token.NEQ}[b.Op]
			if !ok || !c.take(b) {
				return nil
			}
			return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}}}
		})
	},
	// a && b -> !(!a || !b)
	"demorgan": func(c *C) {
		c.exprs(c.file, func(e ast.Expr) ast.Expr {
			b, ok := e.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND && b.Op != token.LOR || !c.take(b) {
				return nil
			}
			o := token.LOR
			if b.Op == token.LOR {
				o = token.LAND
			}
			return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: not(b.X), Op: o, Y: not(b.Y)}}}
		})
	},
	// x := e -> var x = e ; x++ -> x += 1 ; x += y -> x = x + y
	"assign": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			switch a := s.(type) {
			case *ast.AssignStmt:
				if a.Tok == token.DEFINE {
					for _, l := range a.Lhs {
						if i, ok := l.(*ast.Ident); !ok || i.Name != "_" && c.info.Defs[i] == nil {
							return nil
						}
					}
					if !c.take(a) {
						return nil
					}
					v := &ast.ValueSpec{Values: a.Rhs}
					for _, l := range a.Lhs {
						v.Names = append(v.Names, l.(*ast.Ident))
					}
					return []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{v}}}}
				}
				if a.Tok == token.ADD_ASSIGN && pure(a.Lhs[0]) && c.take(a) {
					a.Tok, a.Rhs = token.ASSIGN, []ast.Expr{&ast.BinaryExpr{X: a.Lhs[0], Op: token.ADD, Y: a.Rhs[0]}}
				}
			case *ast.IncDecStmt:
				if c.take(a) {
					t := token.ADD_ASSIGN
					if a.Tok == token.DEC {
						t = token.SUB_ASSIGN
					}
					return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{a.X}, Tok: t, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}}
				}
			}
			return nil
		})
	},
	// keyed literals in the opposite order
	"litorder": func(c *C) {
		ast.Inspect(c.file, func(n ast.Node) bool {
			l, ok := n.(*ast.CompositeLit)
			if !ok || len(l.Elts) < 2 {
				return true
			}
			if t := c.info.TypeOf(l); t == nil {
				return true
			} else if _, ok := t.Underlying().(*types.Struct); !ok {
				if _, ok := t.Underlying().(*types.Map); !ok {
					return true
				}
			}
			for _, e := range l.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok || !pure(kv.Value) {
					return true
				}
			}
			if c.take(l) {
				for i, j := 0, len(l.Elts)-1; i < j; i, j = i+1, j-1 {
					l.Elts[i], l.Elts[j] = l.Elts[j], l.Elts[i]
				}
			}
			return true
		})
	},
	// struct literals become field assignments: x := &T{a: 1} -> x := &T{}; x.a = 1
	"litfields": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
				if r, ok := s.(*ast.ReturnStmt); ok && len(r.Results) > 0 {
					var pre []ast.Stmt
					for k, e := range r.Results {
						if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
							if l, ok := u.X.(*ast.CompositeLit); ok && len(l.Elts) > 0 && l.Type != nil {
								if _, ok := l.Elts[0].(*ast.KeyValueExpr); ok && c.take(l) {
									n := c.name("obj")
									els := l.Elts
									l.Elts = nil
									pre = append(pre, define(n, u))
									for _, e := range els {
										kv := e.(*ast.KeyValueExpr)
										pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
									}
									r.Results[k] = id(n)
								}
							}
						}
					}
					if pre != nil {
						return append(pre, r)
					}
				}
				return nil
			}
			e := a.Rhs[0]
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
				e = u.X
			}
			l, ok := e.(*ast.CompositeLit)
			if !ok || len(l.Elts) == 0 {
				return nil
			}
			if _, ok := c.info.TypeOf(l).Underlying().(*types.Struct); !ok {
				return nil
			}
			for _, e := range l.Elts {
				if _, ok := e.(*ast.KeyValueExpr); !ok {
					return nil
				}
			}
			if !c.take(l) {
				return nil
			}
			out := []ast.Stmt{s}
			for _, e := range l.Elts {
				kv := e.(*ast.KeyValueExpr)
				out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: a.Lhs[0], Sel: kv.Key.(*ast.Ident)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
			}
			l.Elts = nil
			return out
		})
	},
	// switch x { case a: A ... }  ->  if x == a {A} else ...
	"switchif": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			w, ok := s.(*ast.SwitchStmt)
			if !ok || w.Init != nil {
				return nil
			}
			if w.Tag != nil && !pure(w.Tag) {
				return nil
			}
			var head, cur *ast.IfStmt
			var def *ast.BlockStmt
			for _, k := range w.Body.List {
				cc := k.(*ast.CaseClause)
				j := jumps(&ast.BlockStmt{List: cc.Body}, false)
				if j.brk || j.lab {
					return nil
				}
			}
			if !c.take(w) {
				return nil
			}
			for _, k := range w.Body.List {
				cc := k.(*ast.CaseClause)
				if cc.List == nil {
					def = &ast.BlockStmt{List: cc.Body}
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					var x ast.Expr = e
					if w.Tag != nil {
						x = &ast.BinaryExpr{X: w.Tag, Op: token.EQL, Y: e}
					}
					if cond == nil {
						cond = x
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
				if head == nil {
					head, cur = i, i
				} else {
					cur.Else = i
					cur = i
				}
			}
			if head == nil {
				return nil
			}
			if def != nil {
				cur.Else = def
			}
			return []ast.Stmt{head}
		})
	},
	// the receiver is used under another name
	"self": func(c *C) {
		for _, d := range c.file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || f.Recv == nil || len(f.Recv.List[0].Names) == 0 {
				continue
			}
			o := c.info.Defs[f.Recv.List[0].Names[0]]
			if o == nil {
				continue
			}
			used := false
			ast.Inspect(f.Body, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && c.info.Uses[i] == o {
					used = true
				}
				return true
			})
			if !used || !c.take(f) {
				continue
			}
			ast.Inspect(f.Body, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok && c.info.Uses[i] == o {
					i.Name = "self"
				}
				return true
			})
			f.Body.List = append([]ast.Stmt{define("self", id(f.Recv.List[0].Names[0].Name))}, f.Body.List...)
		}
	},
	// functions in the opposite order
	"order": func(c *C) {
		var fs []int
		for i, d := range c.file.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Name.Name != "init" {
				fs = append(fs, i)
			}
		}
		for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
			if c.take(c.file.Decls[fs[i]]) {
				c.file.Decls[fs[i]], c.file.Decls[fs[j]] = c.file.Decls[fs[j]], c.file.Decls[fs[i]]
			}
		}
	},
	// neighbouring statements without calls that do not depend on each other change places
	"swap": func(c *C) {
		c.lists(c.file, func(l []ast.Stmt, body bool) []ast.Stmt {
			for k := 0; k+1 < len(l); k++ {
				if c.simple(l[k]) && c.simple(l[k+1]) && c.independent(l[k], l[k+1]) && c.take(l[k]) {
					l[k], l[k+1] = l[k+1], l[k]
					k++
				}
			}
			return l
		})
	},
	// a variable for a constant or string literal argument
	"litvar": func(c *C) {
		c.each(c.file, func(s ast.Stmt) []ast.Stmt {
			var e ast.Expr
			switch x := s.(type) {
			case *ast.ExprStmt:
				e = x.X
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 {
					e = x.Rhs[0]
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					e = x.Results[0]
				}
			}
			call, ok := e.(*ast.CallExpr)
			if !ok {
				return nil
			}
			if tv, ok := c.info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
				return nil
			}
			var pre []ast.Stmt
			for k, a := range call.Args {
				b, ok := a.(*ast.BasicLit)
				if !ok || b.Kind == token.INT && types.TypeString(c.info.TypeOf(b), nil) != "int" || !c.take(b) {
					continue
				}
				n := c.name("lit")
				pre = append(pre, define(n, b))
				call.Args[k] = id(n)
			}
			if pre == nil {
				return nil
			}
			return append(pre, s)
		})
	},
	// named results
	"named": func(c *C) {
		for _, d := range c.file.Decls {
			f, ok := d.(*ast.FuncDecl)
			if !ok || f.Body == nil || f.Type.Results == nil || len(f.Type.Results.List) == 0 || len(f.Type.Results.List[0].Names) > 0 || !c.take(f) {
				continue
			}
			for _, r := range f.Type.Results.List {
				r.Names = []*ast.Ident{id(c.name("out"))}
			}
			var names []string
			for _, r := range f.Type.Results.List {
				names = append(names, r.Names[0].Name)
			}
			astutil.Apply(f.Body, func(cu *astutil.Cursor) bool {
				if _, ok := cu.Node().(*ast.FuncLit); ok {
					return false
				}
				if r, ok := cu.Node().(*ast.ReturnStmt); ok {
					as := &ast.AssignStmt{Tok: token.ASSIGN, Rhs: r.Results}
					for _, n := range names {
						as.Lhs = append(as.Lhs, id(n))
					}
					cu.Replace(&ast.BlockStmt{List: []ast.Stmt{as, &ast.ReturnStmt{}}})
					return false
				}
				return true
			}, nil)
		}
	},
}

func (c *C) simple(s ast.Stmt) bool {
	a, ok := s.(*ast.AssignStmt)
	if !ok {
		return false
	}
	for _, e := range append(append([]ast.Expr{}, a.Lhs...), a.Rhs...) {
		bad := false
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.IndexExpr, *ast.SliceExpr, *ast.TypeAssertExpr, *ast.StarExpr:
				bad = true
			case *ast.UnaryExpr:
				if n.(*ast.UnaryExpr).Op == token.ARROW {
					bad = true
				}
			}
			return true
		})
		if bad {
			return false
		}
	}
	return true
}

func (c *C) names(n ast.Node) map[string]bool {
	m := map[string]bool{}
	ast.Inspect(n, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			m[i.Name] = true
		}
		return true
	})
	return m
}

func (c *C) independent(a, b ast.Stmt) bool {
	w := func(s ast.Stmt) map[string]bool {
		m := map[string]bool{}
		for _, l := range s.(*ast.AssignStmt).Lhs {
			switch x := l.(type) {
			case *ast.Ident:
				m[x.Name] = true
			case *ast.SelectorExpr:
				m[x.Sel.Name] = true
			}
		}
		return m
	}
	hit := func(x, y map[string]bool) bool {
		for k := range x {
			if k != "_" && y[k] {
				return true
			}
		}
		return false
	}
	return !hit(w(a), c.names(b)) && !hit(w(b), c.names(a))
}

// renaming of unexported names, over all packages
func rename(pkgs []*packages.Package, kind string, test map[string]bool, lo, hi int) []string {
	type key struct{ pkg, name string }
	pick := map[key]bool{}
	want := func(o types.Object) bool {
		if o == nil || o.Pkg() == nil || !strings.HasPrefix(o.Pkg().Path(), "github.com/lxdlam/vertex") || o.Exported() || test[o.Name()] || o.Name() == "_" || o.Name() == "main" || o.Name() == "init" {
			return false
		}
		switch v := o.(type) {
		case *types.Func:
			return kind == "renfunc"
		case *types.TypeName:
			return kind == "rentype"
		case *types.Var:
			if v.IsField() {
				if v.Embedded() {
					return kind == "rentype"
				}
				return kind == "renfield"
			}
			if v.Parent() == o.Pkg().Scope() {
				return kind == "renvar"
			}
			return kind == "renlocal"
		case *types.Const:
			return kind == "renvar"
		}
		return false
	}
	for _, p := range pkgs {
		for _, o := range p.TypesInfo.Defs {
			if want(o) && !strings.HasSuffix(p.Fset.Position(o.Pos()).Filename, ".pb.go") {
				pick[key{o.Pkg().Path(), o.Name()}] = true
			}
		}
	}
	var ks []key
	for k := range pick {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].pkg+" "+ks[i].name < ks[j].pkg+" "+ks[j].name })
	sel := map[key]bool{}
	var hits []string
	for i, k := range ks {
		if i >= lo && i < hi {
			sel[k] = true
			hits = append(hits, fmt.Sprintf("%d %s.%s", i, k.pkg, k.name))
		}
	}
	for _, p := range pkgs {
		for _, m := range []map[*ast.Ident]types.Object{p.TypesInfo.Defs, p.TypesInfo.Uses} {
			for i, o := range m {
				if want(o) && sel[key{o.Pkg().Path(), o.Name()}] && !strings.HasSuffix(i.Name, "Renamed") && !strings.HasSuffix(p.Fset.Position(o.Pos()).Filename, ".pb.go") {
					i.Name += "Renamed"
				}
			}
		}
		// the variable of a type switch has no object
		if kind == "renlocal" {
			for _, f := range p.Syntax {
				ast.Inspect(f, func(n ast.Node) bool {
					if t, ok := n.(*ast.TypeSwitchStmt); ok {
						if a, ok := t.Assign.(*ast.AssignStmt); ok {
							if i, ok := a.Lhs[0].(*ast.Ident); ok && sel[key{p.PkgPath, i.Name}] && !strings.HasSuffix(i.Name, "Renamed") {
								i.Name += "Renamed"
							}
						}
					}
					return true
				})
			}
		}
	}
	return hits
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "a copy of the repository, rewritten in place")
	op := flag.String("op", "", "")
	lo := flag.Int("lo", 0, "")
	hi := flag.Int("hi", 1<<30, "")
	only := flag.String("file", "", "")
	flag.Parse()
	if *op == "list" {
		var n []string
		for k := range ops {
			n = append(n, k)
		}
		n = append(n, "renfunc", "rentype", "renfield", "renvar", "renlocal")
		for _, k := range []string{"helperif", "helperfor", "helpercase", "helpertail", "helperloop", "helperstmt", "helperdef", "predfn", "exprfn"} {
			n = append(n, "m:"+k)
		}
		sort.Strings(n)
		fmt.Println(strings.Join(n, " "))
		return
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: *out, ParseFile: func(fs *token.FileSet, fn string, src []byte) (*ast.File, error) {
		return parser.ParseFile(fs, fn, src, parser.SkipObjectResolution)
	}}
	_ = repo
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil || packages.PrintErrors(pkgs) > 0 {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	test := map[string]bool{}
	filepath.Walk(*out, func(p string, _ os.FileInfo, _ error) error {
		if strings.HasSuffix(p, "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
			if err == nil {
				ast.Inspect(f, func(n ast.Node) bool {
					if i, ok := n.(*ast.Ident); ok {
						test[i.Name] = true
					}
					return true
				})
			}
		}
		return nil
	})
	write := func(fn string, fset *token.FileSet, f *ast.File) {
		w, err := os.Create(fn)
		if err == nil {
			err = format.Node(w, fset, f)
			w.Close()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, fn, err)
			os.Exit(2)
		}
	}
	if strings.HasPrefix(*op, "ren") && ops[*op] == nil {
		for _, h := range rename(pkgs, *op, test, *lo, *hi) {
			fmt.Println(h)
		}
		for _, p := range pkgs {
			for i, f := range p.Syntax {
				if !strings.HasSuffix(p.CompiledGoFiles[i], ".pb.go") {
					write(p.CompiledGoFiles[i], p.Fset, f)
				}
			}
		}
		return
	}
	c := &C{lo: *lo, hi: *hi, test: test}
	if strings.HasPrefix(*op, "m:") {
		c.method = true
		*op = (*op)[2:]
	}
	for _, p := range pkgs {
		c.info, c.pkg, c.fset = p.TypesInfo, p.Types, p.Fset
		for i, f := range p.Syntax {
			fn := p.CompiledGoFiles[i]
			rel, _ := filepath.Rel(*out, fn)
			if strings.HasSuffix(fn, ".pb.go") || !strings.Contains(rel, *only) {
				continue
			}
			c.file, c.fname, c.extra = f, rel, nil
			n := len(c.hits)
			ops[*op](c)
			f.Decls = append(f.Decls, c.extra...)
			if len(c.hits) > n {
				write(fn, c.fset, f)
			}
		}
	}
	for _, h := range c.hits {
		fmt.Println(h)
	}
}
