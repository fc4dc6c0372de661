package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callees resolves the repo functions a call may reach (empty for library calls).
func (p *Prog) callees(c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return p.dispatch(cc.Value.Type(), cc.Method.Name())
	}
	if f := cc.StaticCallee(); f != nil {
		f = unwrap(f)
		if p.isRepo(f) && f.Blocks != nil {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	if fs := p.funcValues(cc.Value, map[ssa.Value]bool{}); fs != nil {
		return fs
	}
	// function value of unknown origin: every address-taken function with this signature
	sig := cc.Signature()
	var out []*ssa.Function
	for _, f := range p.addrTaken {
		if types.Identical(stripRecv(f.Signature), stripRecv(sig)) && p.isRepo(f) {
			out = append(out, unwrap(f))
		}
	}
	return out
}

func stripRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// funcValues follows a function value to its definitions when they are local; nil if unknown.
func (p *Prog) funcValues(v ssa.Value, seen map[ssa.Value]bool) []*ssa.Function {
	if seen[v] {
		return []*ssa.Function{}
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{unwrap(x)}
	case *ssa.MakeClosure:
		return []*ssa.Function{unwrapBound(x.Fn.(*ssa.Function))}
	case *ssa.ChangeType:
		return p.funcValues(x.X, seen)
	case *ssa.Phi:
		out := []*ssa.Function{}
		for _, e := range x.Edges {
			fs := p.funcValues(e, seen)
			if fs == nil {
				return nil
			}
			out = append(out, fs...)
		}
		return out
	case *ssa.UnOp:
		// load of a local variable that is stored exactly once
		if al, ok := x.X.(*ssa.Alloc); ok {
			var out []*ssa.Function
			n := 0
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					n++
					fs := p.funcValues(st.Val, seen)
					if fs == nil {
						return nil
					}
					out = append(out, fs...)
				}
			}
			if n > 0 {
				return out
			}
		}
	}
	return nil
}

// unwrapBound maps a bound-method closure to the method.
func unwrapBound(f *ssa.Function) *ssa.Function { return unwrap(f) }

// lib names the library function or method called, e.g. "(*os.File).Close", "errors.Is",
// "(net.Conn).Close" for interface calls; "" for repo functions and unknown values.
func libName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		f = unwrap(f)
		if o := f.Object(); o != nil {
			return o.(*types.Func).FullName()
		}
		return f.String()
	}
	return ""
}

// methodOf reports whether the call is a call of the named method on a type of the repo
// package/type (interface or concrete), seen through the interface it is declared by.
func (p *Prog) isMethodCall(c *ssa.CallCommon, pkg, typ, method string) bool {
	n := p.named(pkg, typ)
	if c.IsInvoke() {
		if c.Method.Name() != method {
			return false
		}
		t := c.Value.Type()
		if types.Identical(t, n) {
			return true
		}
		// embedded or widened interfaces
		if i, ok := n.Underlying().(*types.Interface); ok {
			if j, ok := t.Underlying().(*types.Interface); ok {
				return types.Implements(n, j) && hasMethod(i, method) && j.NumMethods() > 0 || types.Implements(t, i)
			}
		}
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	f = unwrap(f)
	if f.Name() != method || f.Signature.Recv() == nil {
		return false
	}
	rt := f.Signature.Recv().Type()
	if i, ok := n.Underlying().(*types.Interface); ok {
		return types.Implements(rt, i)
	}
	return derefNamed(rt) == n
}

func hasMethod(i *types.Interface, m string) bool {
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == m {
			return true
		}
	}
	return false
}

// callsOf lists the call instructions of a function body.
func callsOf(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c)
			}
		}
	}
	return out
}

// callersOf returns the call sites that may reach fn.
func (p *Prog) callersOf(fn *ssa.Function) []CallSite {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]CallSite{}
		for _, f := range p.Funcs {
			for _, c := range callsOf(f) {
				for _, g := range p.callees(c) {
					p.callers[g] = append(p.callers[g], CallSite{f, c})
				}
				for _, g := range p.funcArgs(c) {
					p.callers[g] = append(p.callers[g], CallSite{f, c})
				}
			}
		}
	}
	return p.callers[fn]
}

// funcArgs lists closures passed to a library call, which the library is assumed to call.
func (p *Prog) funcArgs(c ssa.CallInstruction) []*ssa.Function {
	if len(p.callees(c)) > 0 {
		return nil
	}
	var out []*ssa.Function
	for _, a := range c.Common().Args {
		if _, ok := a.Type().Underlying().(*types.Signature); ok {
			out = append(out, p.funcValues(a, map[ssa.Value]bool{})...)
		}
	}
	return out
}

// succs lists the functions a function may call, with the kind of the edge.
type Edge struct {
	Site ssa.CallInstruction
	To   *ssa.Function
	Go   bool
}

func (p *Prog) edges(fn *ssa.Function) []Edge {
	var out []Edge
	for _, c := range callsOf(fn) {
		_, isGo := c.(*ssa.Go)
		for _, g := range p.callees(c) {
			out = append(out, Edge{c, g, isGo})
		}
		for _, g := range p.funcArgs(c) {
			out = append(out, Edge{c, g, isGo || spawns(c)})
		}
	}
	return out
}

// spawns reports library calls which run their function argument in another goroutine.
func spawns(c ssa.CallInstruction) bool {
	switch libName(c.Common()) {
	case "time.AfterFunc", "(*golang.org/x/sync/errgroup.Group).Go", "(*sync.WaitGroup).Go", "context.AfterFunc":
		return true
	}
	return false
}

// reach computes the functions reachable from roots. With sync set, go edges are not followed.
func (p *Prog) reach(sync bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var st []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			st = append(st, f)
		}
	}
	for _, r := range roots {
		push(r)
	}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for _, e := range p.edges(f) {
			if sync && e.Go {
				continue
			}
			push(e.To)
		}
	}
	return seen
}

// mayReach reports whether some function satisfying pred is reachable from fn (synchronously).
func (p *Prog) pathTo(from *ssa.Function, pred func(*ssa.Function) bool, sync bool) []*ssa.Function {
	type node struct {
		f    *ssa.Function
		prev int
	}
	q := []node{{from, -1}}
	seen := map[*ssa.Function]bool{from: true}
	for i := 0; i < len(q); i++ {
		if pred(q[i].f) {
			var path []*ssa.Function
			for j := i; j >= 0; j = q[j].prev {
				path = append([]*ssa.Function{q[j].f}, path...)
			}
			return path
		}
		for _, e := range p.edges(q[i].f) {
			if sync && e.Go {
				continue
			}
			if !seen[e.To] {
				seen[e.To] = true
				q = append(q, node{e.To, i})
			}
		}
	}
	return nil
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].String() < out[j].String()
	})
	return out
}
