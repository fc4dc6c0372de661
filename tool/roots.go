package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mutation effects of the data containers: which parameters a function may change, by a
// flow-insensitive, interprocedural analysis of where pointers come from.
//
// Every value has a set of roots D (parameters the object may be, or be reached from) and a
// set of content roots C (parameters reachable through a fresh object).  Index of a root:
// 0.. parameters, 100.. free variables, 1000 global state.

type rootSet map[int]bool

func (a rootSet) add(b rootSet) bool {
	ch := false
	for k := range b {
		if !a[k] {
			a[k] = true
			ch = true
		}
	}
	return ch
}

func (a rootSet) list() []int {
	var out []int
	for k := range a {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

type rootSum struct {
	mut    rootSet
	mutAt  map[int]string // where
	retD   []rootSet
	retC   []rootSet
	into   map[int]rootSet
	shared bool
}

type rootAn struct {
	p    *Prog
	pkg  string // package whose writes count as mutations
	sums map[*ssa.Function]*rootSum
	ch   bool
}

// mutations analyses the whole repo; writes in package pkg (short name) count.
func (p *Prog) mutations(pkg string) *rootAn {
	if r, ok := p.rootMemo[pkg]; ok {
		return r
	}
	a := &rootAn{p: p, pkg: pkg, sums: map[*ssa.Function]*rootSum{}}
	for _, f := range p.Funcs {
		n := f.Signature.Results().Len()
		s := &rootSum{mut: rootSet{}, mutAt: map[int]string{}, into: map[int]rootSet{}}
		for i := 0; i < n; i++ {
			s.retD = append(s.retD, rootSet{})
			s.retC = append(s.retC, rootSet{})
		}
		a.sums[f] = s
	}
	for i := 0; ; i++ {
		a.ch = false
		for _, f := range p.Funcs {
			a.fn(f)
		}
		if !a.ch {
			break
		}
		if i > 60 {
			fatalf("undecided: mutation effects do not converge")
		}
	}
	p.rootMemo[pkg] = a
	return a
}

type rootFn struct {
	a    *rootAn
	f    *ssa.Function
	d, c map[ssa.Value]rootSet
	ch   bool
}

func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Tuple:
		return true
	}
	return true
}

func (r *rootFn) get(m map[ssa.Value]rootSet, v ssa.Value) rootSet {
	s := m[v]
	if s == nil {
		s = rootSet{}
		m[v] = s
	}
	return s
}

func (r *rootFn) addTo(m map[ssa.Value]rootSet, v ssa.Value, s rootSet) {
	if len(s) == 0 || !pointerLike(v.Type()) {
		return
	}
	if r.get(m, v).add(s) {
		r.ch = true
	}
}

// bases strips address arithmetic and conversions.
func (r *rootFn) bases(v ssa.Value, out map[ssa.Value]bool) {
	if out[v] {
		return
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		r.bases(x.X, out)
	case *ssa.IndexAddr:
		r.bases(x.X, out)
	case *ssa.Slice:
		r.bases(x.X, out)
	case *ssa.ChangeType:
		r.bases(x.X, out)
	case *ssa.ChangeInterface:
		r.bases(x.X, out)
	case *ssa.MakeInterface:
		r.bases(x.X, out)
	case *ssa.TypeAssert:
		r.bases(x.X, out)
	case *ssa.Phi:
		out[v] = true
		for _, e := range x.Edges {
			r.bases(e, out)
		}
	default:
		out[v] = true
	}
}

func (r *rootFn) D(v ssa.Value) rootSet {
	out := rootSet{}
	bs := map[ssa.Value]bool{}
	r.bases(v, bs)
	for b := range bs {
		switch x := b.(type) {
		case *ssa.Parameter:
			if pointerLike(x.Type()) {
				for i, p := range r.f.Params {
					if p == x {
						out[i] = true
					}
				}
			}
		case *ssa.FreeVar:
			for i, p := range r.f.FreeVars {
				if p == x {
					out[100+i] = true
				}
			}
		case *ssa.Global:
			out[1000] = true
		default:
			out.add(r.d[b])
		}
	}
	return out
}

func (r *rootFn) C(v ssa.Value) rootSet {
	out := rootSet{}
	bs := map[ssa.Value]bool{}
	r.bases(v, bs)
	for b := range bs {
		out.add(r.c[b])
	}
	return out
}

func (r *rootFn) all(v ssa.Value) rootSet {
	s := r.D(v)
	s.add(r.C(v))
	return s
}

func (r *rootFn) intoVal(base ssa.Value, s rootSet) {
	bs := map[ssa.Value]bool{}
	r.bases(base, bs)
	for b := range bs {
		if _, ok := b.(*ssa.Const); ok {
			continue
		}
		r.addTo(r.c, b, s)
	}
	sum := r.a.sums[r.f]
	for p := range r.D(base) {
		if sum.into[p] == nil {
			sum.into[p] = rootSet{}
		}
		if sum.into[p].add(s) {
			r.a.ch = true
		}
	}
}

func (r *rootFn) mutate(s rootSet, where string) {
	sum := r.a.sums[r.f]
	for k := range s {
		if !sum.mut[k] {
			sum.mut[k] = true
			sum.mutAt[k] = where
			r.a.ch = true
		}
	}
}

func (a *rootAn) fn(f *ssa.Function) {
	r := &rootFn{a: a, f: f, d: map[ssa.Value]rootSet{}, c: map[ssa.Value]rootSet{}}
	counts := pkgName(f) == a.pkg
	for it := 0; ; it++ {
		r.ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				r.instr(in, counts)
			}
		}
		if !r.ch || it > 40 {
			break
		}
	}
}

func (r *rootFn) instr(in ssa.Instruction, counts bool) {
	where := func() string { return r.a.p.instrPos(in) }
	switch i := in.(type) {
	case *ssa.UnOp:
		s := r.all(i.X)
		r.addTo(r.d, i, s)
		r.addTo(r.c, i, s)
	case *ssa.Store:
		if counts && !isLocalAddr(i.Addr) {
			r.mutate(r.D(i.Addr), where())
		}
		r.intoVal(i.Addr, r.all(i.Val))
	case *ssa.MapUpdate:
		if counts {
			r.mutate(r.D(i.Map), where())
		}
		s := r.all(i.Value)
		s.add(r.all(i.Key))
		r.intoVal(i.Map, s)
	case *ssa.Lookup:
		s := r.all(i.X)
		r.addTo(r.d, i, s)
		r.addTo(r.c, i, s)
	case *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.Next, *ssa.Range, *ssa.Convert, *ssa.SliceToArrayPointer:
		v := in.(ssa.Value)
		if e, ok := in.(*ssa.Extract); ok {
			if call, ok := e.Tuple.(*ssa.Call); ok {
				r.callResult(call, e.Index, e)
				return
			}
		}
		s := r.all(*in.Operands(nil)[0])
		r.addTo(r.d, v, s)
		r.addTo(r.c, v, s)
	case *ssa.Phi:
		for _, e := range i.Edges {
			r.addTo(r.d, i, r.D(e))
			r.addTo(r.c, i, r.C(e))
		}
	case *ssa.MakeClosure:
		g := unwrap(i.Fn.(*ssa.Function))
		for k, b := range i.Bindings {
			r.addTo(r.c, i, r.all(b))
			if s := r.a.sums[g]; s != nil {
				root := 100 + k
				if g != i.Fn {
					root = k
				}
				if s.mut[root] {
					r.mutate(r.all(b), s.mutAt[root])
				}
				for _, x := range s.into[root].list() {
					_ = x
				}
			}
		}
	case *ssa.Return:
		sum := r.a.sums[r.f]
		for k, v := range i.Results {
			if sum.retD[k].add(r.D(v)) {
				r.a.ch = true
			}
			if sum.retC[k].add(r.C(v)) {
				r.a.ch = true
			}
		}
	case *ssa.Send:
		r.intoVal(i.Chan, r.all(i.X))
	case ssa.CallInstruction:
		r.call(i, counts)
	}
}

// isLocalAddr holds for stores to a local variable itself (not through a pointer).
func isLocalAddr(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

func (r *rootFn) argOf(c ssa.CallInstruction, k int) ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		if k == 0 {
			return cc.Value
		}
		k--
	}
	if k < len(cc.Args) {
		return cc.Args[k]
	}
	return nil
}

func (r *rootFn) mapRoots(c ssa.CallInstruction, s rootSet, content bool) rootSet {
	out := rootSet{}
	for k := range s {
		if k >= 100 {
			if k >= 1000 {
				out[k] = true
			} else if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok && k-100 < len(mc.Bindings) {
				out.add(r.all(mc.Bindings[k-100]))
			}
			continue
		}
		if v := r.argOf(c, k); v != nil {
			out.add(r.D(v))
			if content {
				out.add(r.C(v))
			}
		}
	}
	return out
}

func (r *rootFn) call(c ssa.CallInstruction, counts bool) {
	cc := c.Common()
	callees := r.a.p.dispatchMulti(c)
	if len(callees) == 0 {
		r.libCall(c, counts)
		return
	}
	for _, g := range callees {
		s := r.a.sums[g]
		if s == nil {
			continue
		}
		for k := range s.mut {
			r.mutate(r.mapRoots(c, rootSet{k: true}, false), s.mutAt[k])
		}
		for k, in := range s.into {
			if k < 100 {
				if v := r.argOf(c, k); v != nil {
					r.intoVal(v, r.mapRoots(c, in, true))
				}
			}
		}
	}
	if v := c.Value(); v != nil && cc.Signature().Results().Len() == 1 {
		r.callResult(v, 0, v)
	}
}

func (r *rootFn) callResult(c *ssa.Call, idx int, v ssa.Value) {
	callees := r.a.p.dispatchMulti(c)
	if len(callees) == 0 {
		// library: the result may be or hold any argument
		s := rootSet{}
		for _, a := range c.Common().Args {
			s.add(r.all(a))
		}
		if c.Common().IsInvoke() {
			s.add(r.all(c.Common().Value))
		}
		if allocLib(libName(c.Common())) {
			r.addTo(r.c, v, s)
			return
		}
		r.addTo(r.d, v, s)
		r.addTo(r.c, v, s)
		return
	}
	for _, g := range callees {
		s := r.a.sums[g]
		if s == nil || idx >= len(s.retD) {
			continue
		}
		r.addTo(r.d, v, r.mapRoots(c, s.retD[idx], false))
		cs := r.mapRoots(c, s.retC[idx], true)
		for k := range s.retD[idx] {
			if k < 100 {
				if a := r.argOf(c, k); a != nil {
					cs.add(r.C(a))
				}
			}
		}
		r.addTo(r.c, v, cs)
	}
}

// allocLib: library calls whose result is a fresh object.
func allocLib(n string) bool {
	return nonNilLib[n] || strings.HasPrefix(n, "fmt.") || strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "strconv.") || strings.HasPrefix(n, "errors.") || strings.HasPrefix(n, "math")
}

func (r *rootFn) libCall(c ssa.CallInstruction, counts bool) {
	cc := c.Common()
	n := libName(cc)
	switch n {
	case "builtin.append":
		v := c.Value()
		if v == nil {
			return
		}
		// a new or the old backing array
		r.addTo(r.d, v, r.D(cc.Args[0]))
		r.addTo(r.c, v, r.C(cc.Args[0]))
		if len(cc.Args) > 1 {
			r.addTo(r.c, v, r.all(cc.Args[1]))
		}
		return
	case "builtin.delete", "builtin.clear":
		if counts {
			r.mutate(r.D(cc.Args[0]), r.a.p.instrPos(c))
		}
		return
	case "builtin.copy":
		if counts {
			r.mutate(r.D(cc.Args[0]), r.a.p.instrPos(c))
		}
		r.intoVal(cc.Args[0], r.all(cc.Args[1]))
		return
	}
	if counts && !cc.IsInvoke() {
		if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil && len(cc.Args) > 0 {
			if _, ok := f.Signature.Recv().Type().(*types.Pointer); ok && !harmlessLib(n) {
				r.mutate(r.D(cc.Args[0]), r.a.p.instrPos(c))
			}
		}
		if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "slices.Reverse") {
			if len(cc.Args) > 0 {
				r.mutate(r.D(cc.Args[0]), r.a.p.instrPos(c))
			}
		}
	}
	if v := c.Value(); v != nil && cc.Signature().Results().Len() == 1 {
		r.callResult(v, 0, v)
	}
}

func harmlessLib(n string) bool {
	for _, p := range []string{"(*sync.", "(*math/rand.", "(*strings.Reader", "(*regexp.", "(*sync/atomic."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// mutatesParam reports whether f may change what its parameter i refers to.
func (a *rootAn) mutatesParam(f *ssa.Function, i int) (string, bool) {
	s := a.sums[f]
	if s == nil {
		return "", false
	}
	return s.mutAt[i], s.mut[i]
}

func (s *rootSum) String() string { return fmt.Sprint(s.mut.list()) }
