package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// step runs a state until it forks, merges with a known one or ends.
func (x *Exec) step(s *State) {
	for {
		fr := s.top()
		if fr.running {
			if !x.runDefers(s) {
				return
			}
			continue
		}
		if fr.idx >= len(fr.block.Instrs) {
			fatalf("internal: block without terminator in %s", fname(fr.fn))
		}
		x.Steps++
		if x.Steps > x.Budget {
			return
		}
		in := fr.block.Instrs[fr.idx]
		if x.H.Instr != nil {
			x.H.Instr(x, s, in)
		}
		if s.dead {
			return
		}
		switch i := in.(type) {
		case *ssa.If:
			cond := x.eval(s, i.Cond)
			t := s
			f := s.clone()
			okT, okF := x.Assume(t, cond, true), x.Assume(f, cond, false)
			if okF {
				if x.H.Branch != nil {
					x.H.Branch(x, f, cond, false, i)
				}
				f.note("%s: condition %s is false", x.p.instrPos(i), condText(i))
				if !f.dead && x.enter(f, fr.block.Succs[1]) {
					x.push(f)
				}
			}
			if okT {
				if x.H.Branch != nil {
					x.H.Branch(x, t, cond, true, i)
				}
				t.note("%s: condition %s is true", x.p.instrPos(i), condText(i))
				if !t.dead && x.enter(t, fr.block.Succs[0]) {
					continue
				}
			}
			return
		case *ssa.Jump:
			if !x.enter(s, fr.block.Succs[0]) {
				return
			}
			continue
		case *ssa.Return:
			var res []*Term
			for _, r := range i.Results {
				res = append(res, x.eval(s, r))
			}
			if !x.ret(s, res) {
				return
			}
			continue
		case *ssa.Panic:
			if x.H.Panic != nil {
				x.H.Panic(x, s, i)
			}
			return
		case *ssa.RunDefers:
			fr.idx++
			fr.running = true
			continue
		case *ssa.Defer:
			x.applyDefer(s, i)
			fr.idx++
			continue
		case *ssa.Go:
			callees, args, _ := x.resolve(s, i)
			if x.H.Go != nil {
				x.H.Go(x, s, i, callees, args)
			}
			if s.dead {
				return
			}
			if x.GoInline {
				if !x.call(s, i) {
					return
				}
				continue
			}
			fr.idx++
			continue
		case *ssa.Call:
			if !x.call(s, i) {
				return
			}
			continue
		default:
			x.simple(s, in)
			if s.dead {
				return
			}
			fr.idx++
		}
	}
}

func condText(i *ssa.If) string {
	switch c := i.Cond.(type) {
	case *ssa.BinOp:
		return valText(c.X) + " " + c.Op.String() + " " + valText(c.Y)
	}
	return valText(i.Cond)
}

func valText(v ssa.Value) string {
	switch c := v.(type) {
	case *ssa.Const:
		return c.Name()
	case *ssa.Call:
		if n := libName(c.Common()); n != "" {
			if j := strings.LastIndexByte(n, '/'); j >= 0 {
				n = n[j+1:]
			}
			return n + "(..)"
		}
	case *ssa.UnOp:
		if c.Op == token.MUL {
			return valText(c.X)
		}
		return c.Op.String() + valText(c.X)
	case *ssa.FieldAddr:
		return valText(c.X) + "." + fieldVar(c.X.Type(), c.Field).Name()
	case *ssa.Global:
		return c.Name()
	case *ssa.Extract:
		return valText(c.Tuple) + fmt.Sprintf("#%d", c.Index)
	}
	return v.Name()
}

// ---- block entry ----

// enter moves the top frame to block b; false if the resulting state is already known.
func (x *Exec) enter(s *State, b *ssa.BasicBlock) bool {
	fr := s.top()
	from := fr.block
	pi := predIndex(b, from)
	// evaluate phis simultaneously
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, x.eval(s, phi.Edges[pi]))
	}
	back := b.Dominates(from)
	// drop dead values
	live := x.liveness(fr.fn).in[b.Index]
	for v := range fr.env {
		if !live[v] {
			delete(fr.env, v)
		}
	}
	for i, phi := range phis {
		fr.env[phi] = vals[i]
	}
	fr.prev = from
	fr.block = b
	fr.idx = len(phis)
	if x.H.Phi != nil {
		for i, phi := range phis {
			x.H.Phi(x, s, phi, vals[i])
		}
	}
	if back {
		x.widen(s, b, phis)
	}
	if x.H.Block != nil && !x.H.Block(x, s, b) {
		return false
	}
	k := x.key(s)
	if x.memo[k] {
		return false
	}
	x.memo[k] = true
	x.States++
	x.dump(s)
	return true
}

// widen makes the loop-carried values of a second iteration site-named.
func (x *Exec) widen(s *State, b *ssa.BasicBlock, phis []*ssa.Phi) {
	fr := s.top()
	for _, phi := range phis {
		v := fr.env[phi]
		if v.op == "const" || v.op == "nil" || v.op == "param" || v.op == "global" || v.op == "func" {
			if !(isIntType(phi.Type()) && v.op == "const") {
				continue
			}
		}
		if isIntType(phi.Type()) || v.depth > x.Depth-2 || v.any(func(u *Term) bool { return u.op == "append" || u.op == "appendv" || u.op == "iter" }) {
			ls := []*Term{}
			for _, l := range v.leaves() {
				if l.op != "const" && l.op != "old" && l.op != "iter" {
					ls = append(ls, l)
				}
			}
			n := x.Nilness(s, v)
			aux := ""
			if !isIntType(phi.Type()) && x.elemsNonNil(s, v) {
				aux = ".nn"
			}
			t := x.fresh(s, "iter", aux, phi, phi.Type(), dedupTerms(ls)...)
			fr.env[phi] = t
			if n == 2 {
				x.setNil(s, t, 2)
			}
		}
	}
	x.dropOld(s)
	// cells of local variables assigned in the loop
	for a, v := range s.store {
		if a.op == "alloc" && v.typ != nil && isIntType(v.typ) && v.op != "const" && v.depth > 1 {
			s.store[a] = x.tp.mk("iter", "cell", v.typ, a)
		} else if v.depth > x.Depth-1 {
			n := x.leafTerm(v)
			if x.Nilness(s, v) == 2 && !n.inherentNonNil() {
				n = x.tp.mk("nonnil", "", v.typ, n.leaves()...)
			}
			s.store[a] = n
		}
	}
}

// dropOld forgets element cells and facts of earlier iterations that nothing can ask for.
func (x *Exec) dropOld(s *State) {
	isOld := func(t *Term) bool { return t.any(func(u *Term) bool { return u.op == "old" }) }
	for a := range s.store {
		if a.op == "elemaddr" && isOld(a.args[1]) {
			delete(s.store, a)
		}
	}
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, t := range f.args {
			mark(t)
		}
		for _, d := range f.defers {
			for _, t := range d.args {
				mark(t)
			}
			mark(d.clo)
		}
	}
	for _, v := range s.ts {
		mark(v.t)
	}
	for a, v := range s.store {
		if a.op != "elemsum" && a.op != "elemaddr" {
			mark(v)
		}
	}
	for t := range s.facts {
		if !reach[t] && isOld(t) && !(t.op == "ok" && reach[t.args[0]]) {
			delete(s.facts, t)
		}
	}
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

// ---- returns ----

// ret pops the top frame; false when the path ends.
func (x *Exec) ret(s *State, res []*Term) bool {
	fr := s.top()
	if x.H.Return != nil {
		x.H.Return(x, s, fr, res)
	}
	if s.dead {
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		if x.Chain != nil {
			if n := x.Chain(x, s, fr, res); n != nil && !s.dead {
				x.Inlined[n.fn] = true
				s.frames = append(s.frames, n)
				return true
			}
		}
		return false
	}
	if fr.resume != nil {
		fr.resume(x, s, res)
		return !s.dead
	}
	x.finishCall(s, fr.call, []*ssa.Function{fr.fn}, fr.args, res)
	return !s.dead
}

// finishCall binds the results of a call in the top frame and advances it.
func (x *Exec) finishCall(s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
	fr := s.top()
	if x.H.After != nil {
		x.H.After(x, s, c, callees, args, res)
	}
	if fr.running {
		return
	}
	if v := c.Value(); v != nil {
		switch n := c.Common().Signature().Results().Len(); {
		case n == 1 && len(res) == 1:
			fr.env[v] = res[0]
		case n > 1:
			fr.env[v] = x.tp.mk("tuple", "", nil, res...)
		}
	}
	fr.idx++
}

// ---- calls ----

// resolve finds the repo callees of a call on this path and its argument terms
// (receiver first for methods).  lib is the name of a library callee.
func (x *Exec) resolve(s *State, c ssa.CallInstruction) (callees []*ssa.Function, args []*Term, clo *Term) {
	cc := c.Common()
	if cc.IsInvoke() {
		recv := x.eval(s, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, x.eval(s, a))
		}
		callees, args[0] = x.resolveInvoke(s, recv, cc.Value.Type(), cc.Method.Name(), c)
		return callees, args, nil
	}
	for _, a := range cc.Args {
		args = append(args, x.eval(s, a))
	}
	if f := cc.StaticCallee(); f != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			clo = x.eval(s, mc)
		}
		f = unwrap(f)
		if x.p.isRepo(f) && f.Blocks != nil {
			return []*ssa.Function{f}, args, clo
		}
		return nil, args, clo
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, args, nil
	}
	v := x.eval(s, cc.Value)
	for v.op == "chg" {
		v = v.args[0]
	}
	if (v.op == "clo" || v.op == "func") && v.fn != nil {
		f := unwrap(v.fn)
		if f != v.fn && len(v.args) > 0 { // bound method value
			args = append(append([]*Term{}, v.args...), args...)
			v = nil
		} else if it := boundIface(f); it != nil {
			as := append(append([]*Term{}, v.args...), args...)
			if len(as) > 0 {
				callees, as[0] = x.resolveInvoke(s, as[0], it, f.Object().Name(), c)
				return callees, as, nil
			}
		}
		if x.p.isRepo(f) && f.Blocks != nil {
			return []*ssa.Function{f}, args, v
		}
		return nil, args, v
	}
	return x.p.callees(c), args, nil
}

// boundIface is the interface of a method value or method expression on an interface.
func boundIface(f *ssa.Function) types.Type {
	if f.Synthetic == "" || f.Object() == nil {
		return nil
	}
	o, ok := f.Object().(*types.Func)
	if !ok {
		return nil
	}
	rc := o.Type().(*types.Signature).Recv()
	if rc == nil || !types.IsInterface(rc.Type()) {
		return nil
	}
	return rc.Type()
}

// resolveInvoke finds the methods an interface call may reach and the receiver they get.
func (x *Exec) resolveInvoke(s *State, recv *Term, it types.Type, name string, in ssa.Instruction) ([]*ssa.Function, *Term) {
	r := recv
	for r.op == "chg" || r.op == "ta" {
		r = r.args[0]
	}
	if r.op == "mi" && r.args[0].typ != nil {
		t := r.args[0].typ
		if _, isI := t.Underlying().(*types.Interface); !isI {
			f, to := x.methodOf(s, r.args[0], t, name, in)
			if to == r.args[0] {
				to = recv
			}
			if f != nil {
				if x.p.isRepo(f) && f.Blocks != nil {
					return []*ssa.Function{f}, to
				}
				return nil, to
			}
		}
	}
	fs := x.p.dispatch(it, name)
	if i, ok := it.Underlying().(*types.Interface); ok && len(fs) == 1 {
		if ts := x.p.implementers(i); len(ts) == 1 {
			if sel := x.p.selection(ts[0], name); sel != nil && len(sel.Index()) > 1 {
				_, to := x.methodOf(s, recv.canon(), ts[0], name, in)
				return fs, to
			}
		}
	}
	return fs, recv
}

func (p *Prog) selection(t types.Type, name string) *types.Selection {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return ms.At(i)
		}
	}
	return nil
}

// methodOf finds the declared method and, when it is promoted from an embedded field, that field.
func (x *Exec) methodOf(s *State, recv *Term, t types.Type, name string, in ssa.Instruction) (*ssa.Function, *Term) {
	sel := x.p.selection(t, name)
	if sel == nil {
		return nil, recv
	}
	f := unwrap(x.p.SSA.MethodValue(sel))
	idx := sel.Index()
	for _, i := range idx[:len(idx)-1] {
		ft := fieldVar(t, i).Type()
		addr := x.fieldAddr(recv, t, i)
		t = types.NewPointer(ft)
		recv = addr
		if _, ok := ft.Underlying().(*types.Struct); !ok {
			recv, t = x.load(s, addr, in, ft), ft
		}
	}
	if types.IsInterface(t) {
		if fs, to := x.resolveInvoke(s, recv, t, name, in); len(fs) == 1 {
			return fs[0], to
		}
		return nil, recv
	}
	return f, recv
}

func (x *Exec) onStack(s *State, f *ssa.Function) bool {
	for _, fr := range s.frames {
		if fr.fn == f {
			return true
		}
	}
	return false
}

// call interprets a call; false when the path ends or was forked.
func (x *Exec) call(s *State, c ssa.CallInstruction) bool {
	callees, args, clo := x.resolve(s, c)
	act := CallAction{}
	if x.H.Call != nil {
		act = x.H.Call(x, s, c, callees, args)
	}
	if act.Stop || s.dead {
		return false
	}
	return x.callWith(s, c, callees, args, clo, act)
}

func (x *Exec) callWith(s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term, clo *Term, act CallAction) bool {
	var cands []*ssa.Function
	for _, f := range callees {
		if f.Blocks != nil {
			cands = append(cands, f)
		}
	}
	inline := act.Kind != actOpaque && len(cands) > 0 && len(s.frames) < x.MaxDepth
	if act.Kind == actDefault && (len(cands) != 1) {
		inline = false
	}
	for _, f := range cands {
		if x.onStack(s, f) || (act.Kind == actDefault && x.Opaque != nil && x.Opaque(f) && !x.p.simple(c, f)) {
			inline = false
		}
	}
	if inline {
		for i := len(cands) - 1; i > 0; i-- {
			n := s.clone()
			x.inline(n, c, cands[i], args, clo, nil)
			x.push(n)
		}
		x.inline(s, c, cands[0], args, clo, nil)
		return true
	}
	if len(callees) > 0 {
		var res []*Term
		if !act.Pure {
			x.havoc(s, callees, args, c)
		}
		res = x.results(s, c, callees, args, act.Results)
		x.finishCall(s, c, callees, args, res)
		return !s.dead
	}
	return x.libCall(s, c, args, act)
}

// simple: a small unexported function without loops or effects of its own that gives a value to a
// caller of its own package, such as a condition or an expression with a name.
func (p *Prog) simple(c ssa.CallInstruction, f *ssa.Function) bool {
	if v, ok := p.simpleMemo[f]; ok {
		return v && f.Pkg == c.Parent().Pkg && c.Common().StaticCallee() == f
	}
	if p.simpleMemo == nil {
		p.simpleMemo = map[*ssa.Function]bool{}
	}
	ok := f.Object() != nil && !f.Object().Exported() && f.Pkg != nil && f.Signature.Results().Len() > 0 && len(f.Blocks) <= 8
	n := 0
	for _, b := range f.Blocks {
		for _, d := range b.Succs {
			if d.Index <= b.Index && d.Dominates(b) {
				ok = false
			}
		}
		for _, in := range b.Instrs {
			n++
			switch i := in.(type) {
			case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer, *ssa.MakeClosure, *ssa.MapUpdate, *ssa.Panic, *ssa.MakeChan:
				ok = false
			case *ssa.Store:
				if fa, isF := i.Addr.(*ssa.FieldAddr); isF {
					if _, local := fa.X.(*ssa.Alloc); !local {
						ok = false
					}
				} else if ia, isI := i.Addr.(*ssa.IndexAddr); isI {
					if _, local := ia.X.(*ssa.Alloc); !local {
						ok = false
					}
				} else if _, local := i.Addr.(*ssa.Alloc); !local {
					ok = false
				}
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					ok = false
				}
			}
		}
	}
	p.simpleMemo[f] = ok && n <= 60
	return p.simpleMemo[f] && f.Pkg == c.Parent().Pkg && c.Common().StaticCallee() == f
}

// inline pushes a frame for f.
func (x *Exec) inline(s *State, c ssa.CallInstruction, f *ssa.Function, args []*Term, clo *Term, resume func(x *Exec, s *State, res []*Term)) {
	x.Inlined[f] = true
	fr := &Frame{fn: f, block: f.Blocks[0], env: map[ssa.Value]*Term{}, call: c, resume: resume, args: args}
	fr.ctx = x.subCtx(s.top().ctx, c)
	if len(x.p.dispatchMulti(c)) > 1 {
		fr.ctx = x.subCtx(fr.ctx, f.Blocks[0].Instrs[0])
	}
	for i, pa := range f.Params {
		if i < len(args) {
			a := args[i]
			// an interface receiver holding a known concrete value
			if i == 0 && f.Signature.Recv() != nil {
				if _, isI := pa.Type().Underlying().(*types.Interface); !isI && a.op != "unknown" {
					b := a
					for b.op == "chg" {
						b = b.args[0]
					}
					if b.op == "mi" {
						a = b.args[0]
					}
				}
			}
			fr.env[pa] = a
		} else {
			fr.env[pa] = x.tp.mk("unknown", fmt.Sprintf("arg%d.%s", i, f.String()), pa.Type())
		}
	}
	for i, fv := range f.FreeVars {
		if clo != nil && i < len(clo.args) {
			fr.env[fv] = clo.args[i]
		} else {
			fr.env[fv] = x.tp.mk("unknown", "free."+f.String()+"."+fv.Name(), fv.Type())
		}
	}
	s.frames = append(s.frames, fr)
	s.note("%s: calls %s", x.p.instrPos(c), fname(f))
}

// results makes terms for the results of a call that is not inlined.
func (x *Exec) results(s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term, given []*Term) []*Term {
	rs := c.Common().Signature().Results()
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		if i < len(given) && given[i] != nil {
			out = append(out, given[i])
			continue
		}
		t := x.fresh(s, "call", fmt.Sprintf(".%d", i), c, rs.At(i).Type(), x.bound(args)...)
		nn := len(callees) > 0
		for _, f := range callees {
			if !x.p.neverNil(f, i) {
				nn = false
			}
		}
		if nn {
			x.setNil(s, t, 2)
		}
		out = append(out, t)
	}
	return out
}

func (x *Exec) applyDefer(s *State, d *ssa.Defer) {
	fr := s.top()
	df := deferred{in: d}
	cc := d.Common()
	if cc.IsInvoke() {
		df.args = append(df.args, x.eval(s, cc.Value))
	} else if _, ok := cc.Value.(*ssa.Builtin); !ok {
		df.clo = x.eval(s, cc.Value)
	}
	for _, a := range cc.Args {
		df.args = append(df.args, x.eval(s, a))
	}
	fr.defers = append(fr.defers, df)
}

// runDefers starts the next deferred call of the top frame; false when the path ends.
func (x *Exec) runDefers(s *State) bool {
	fr := s.top()
	if len(fr.defers) == 0 {
		fr.running = false
		return true
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	cc := d.in.Common()
	var callees []*ssa.Function
	args := d.args
	var clo *Term
	if cc.IsInvoke() {
		args = append([]*Term{}, args...)
		callees, args[0] = x.resolveInvoke(s, args[0], cc.Value.Type(), cc.Method.Name(), d.in)
	} else if d.clo != nil {
		v := d.clo
		if (v.op == "clo" || v.op == "func") && v.fn != nil {
			f := unwrap(v.fn)
			clo = v
			if f != v.fn && len(v.args) > 0 {
				args = append(append([]*Term{}, v.args...), args...)
				clo = nil
			}
			if x.p.isRepo(f) && f.Blocks != nil {
				callees = []*ssa.Function{f}
			}
		} else {
			callees = x.p.callees(d.in)
		}
	}
	act := CallAction{}
	if x.H.Call != nil {
		act = x.H.Call(x, s, d.in, callees, args)
	}
	if act.Stop || s.dead {
		return false
	}
	return x.callWith(s, d.in, callees, args, clo, act)
}

// ---- library calls ----

// pureLib are library functions whose result depends on their arguments only.
var pureLib = map[string]bool{
	"errors.Is": true, "strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.HasPrefix": true, "strings.HasSuffix": true,
	"strings.EqualFold": true, "strings.Contains": true, "strings.Trim": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true,
	"strconv.Itoa": true, "strconv.FormatInt": true, "strconv.Quote": true, "(time.Time).IsZero": true, "strings.Compare": true,
	"(*sync.Map).Load": false,
}

// nonNilLib are library functions whose single or first result is never nil.
var nonNilLib = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "strings.NewReader": true, "bufio.NewReader": true, "bufio.NewWriter": true, "bufio.NewReadWriter": true,
	"bufio.NewReaderSize": true, "bufio.NewScanner": true, "bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.NewBufferString": true,
	"rand.New": true, "math/rand.New": true, "math/rand.NewSource": true, "time.NewTimer": true, "time.NewTicker": true, "time.After": true, "time.AfterFunc": true,
	"context.Background": true, "context.WithTimeout": true, "context.WithCancel": true, "sync.NewCond": true, "container/list.New": true,
	"(*container/list.List).Init": true, "reflect.TypeOf": false, "context.TODO": true,
}

func (x *Exec) libCall(s *State, c ssa.CallInstruction, args []*Term, act CallAction) bool {
	cc := c.Common()
	name := libName(cc)
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() && (act.Results == nil || act.Kind != actOpaque) {
		x.finishCall(s, c, nil, args, x.builtin(s, c, b.Name(), args))
		return !s.dead
	}
	if act.Results != nil && act.Kind == actOpaque {
		res := x.results(s, c, nil, args, act.Results)
		if !act.Pure {
			x.havocArgs(s, args, c)
		}
		x.finishCall(s, c, nil, args, res)
		return !s.dead
	}
	switch name {
	case "(*sync.Once).Do":
		return x.maybeCall(s, c, args, args[1], nil, true)
	case "(*sync.Map).Range":
		return x.maybeCall(s, c, args, args[1], []string{"rangekey", "rangeval"}, false)
	}
	rs := cc.Signature().Results()
	if pureLib[name] && rs.Len() == 1 {
		if len(args) == 1 {
			if v, ok := args[0].strVal(); ok {
				switch name {
				case "strings.ToLower":
					args = []*Term{x.tp.strT(strings.ToLower(v))}
					x.finishCall(s, c, nil, args, args)
					return !s.dead
				case "strings.ToUpper":
					args = []*Term{x.tp.strT(strings.ToUpper(v))}
					x.finishCall(s, c, nil, args, args)
					return !s.dead
				case "strings.TrimSpace":
					args = []*Term{x.tp.strT(strings.TrimSpace(v))}
					x.finishCall(s, c, nil, args, args)
					return !s.dead
				}
			}
		}
		t := x.tp.mk("pure", name, rs.At(0).Type(), x.bound(args)...)
		x.finishCall(s, c, nil, args, []*Term{t})
		return !s.dead
	}
	// any other function value handed to the library may be called by it, now
	for _, a := range args {
		if x.GoInline && spawns(c) && a.op == "clo" && a.fn != nil && x.p.isRepo(a.fn) && a.fn.Blocks != nil && unwrap(a.fn) == a.fn && !x.onStack(s, a.fn) {
			x.inline(s, c, a.fn, nil, a, func(x *Exec, s *State, res []*Term) { x.finishCall(s, c, nil, args, x.results(s, c, nil, args, nil)) })
			return true
		}
		if (a.op == "clo" || a.op == "func") && a.fn != nil && x.p.isRepo(a.fn) && !spawns(c) {
			return x.maybeCall(s, c, args, a, nil, false)
		}
	}
	x.havocArgs(s, args, c)
	res := x.results(s, c, nil, args, nil)
	x.libFacts(s, name, res)
	x.finishCall(s, c, nil, args, res)
	return !s.dead
}

func (x *Exec) libFacts(s *State, name string, res []*Term) {
	if nonNilLib[name] && len(res) > 0 {
		x.setNil(s, res[0], 2)
	}
}

// maybeCall models a library function that calls a closure or not (sync.Once.Do, Range).
func (x *Exec) maybeCall(s *State, c ssa.CallInstruction, args []*Term, f *Term, params []string, once bool) bool {
	for f.op == "chg" {
		f = f.args[0]
	}
	done := func(x *Exec, s *State, res []*Term) {
		r := x.results(s, c, nil, args, nil)
		x.libFacts(s, libName(c.Common()), r)
		x.finishCall(s, c, nil, args, r)
	}
	if (f.op != "clo" && f.op != "func") || f.fn == nil || x.onStack(s, f.fn) {
		done(x, s, nil)
		return !s.dead
	}
	fn := unwrap(f.fn)
	var as []*Term
	clo := f
	if fn != f.fn {
		as = append(as, f.args...)
		clo = nil
	}
	if !x.p.isRepo(fn) || fn.Blocks == nil {
		done(x, s, nil)
		return !s.dead
	}
	skip := s.clone()
	for i := len(as); i < len(fn.Params); i++ {
		op := "cbarg"
		if i < len(params) {
			op = params[i]
		}
		as = append(as, x.fresh(s, op, fmt.Sprintf(".%d", i), c, fn.Params[i].Type()))
	}
	// not called (again): only when the rule does not know better
	key := ""
	if once && len(args) > 0 {
		key = fmt.Sprintf("once:%d", args[0].id)
	}
	if key == "" || s.get(key) == "" {
		if key != "" {
			s.set(key, "done")
		}
		if x.H.Call != nil {
			act := x.H.Call(x, s, c, []*ssa.Function{fn}, as)
			if act.Kind == actOpaque {
				x.havoc(s, []*ssa.Function{fn}, as, c)
				done(x, s, nil)
				x.push(s)
				s = nil
			}
		}
		if s != nil {
			x.inline(s, c, fn, as, clo, done)
			x.push(s)
		}
	}
	if key != "" {
		skip.set(key, "done")
		skip.set("skipped:"+key, "1")
	}
	done(x, skip, nil)
	if !skip.dead {
		x.push(skip)
	}
	return false
}

func (x *Exec) builtin(s *State, c ssa.CallInstruction, name string, args []*Term) []*Term {
	rs := c.Common().Signature().Results()
	var typ types.Type
	if rs.Len() > 0 {
		typ = rs.At(0).Type()
	}
	switch name {
	case "len":
		return []*Term{x.lenOf(s, args[0], c)}
	case "append":
		if len(args) == 2 {
			return []*Term{x.appendTo(s, args, typ)}
		}
		return []*Term{args[0]}
	case "delete":
		s.dirty["map"] = true
		for a := range s.store {
			if a.op == "mapcell" && mayAlias(a.args[0], args[0]) {
				delete(s.store, a)
			}
		}
		if x.H.Write != nil {
			x.H.Write(x, s, x.tp.mk("mapcell", "", nil, args[0], args[1]), x.tp.nilT(), c)
		}
		return nil
	case "copy":
		s.dirty["elem"] = true
		if x.H.Write != nil {
			x.H.Write(x, s, x.tp.mk("elemaddr", "", nil, args[0], x.tp.mk("unknown", "idx", nil)), args[1], c)
		}
	case "ssa:wrapnilchk":
		return []*Term{args[0]}
	}
	if typ == nil {
		return nil
	}
	return []*Term{x.fresh(s, "call", "", c, typ, x.bound(args)...)}
}

func (x *Exec) lenOf(s *State, a *Term, c ssa.Instruction) *Term {
	if v, ok := a.strVal(); ok {
		return x.tp.intT(int64(len(v)))
	}
	if a.isNil() {
		return x.tp.intT(0)
	}
	switch a.op {
	case "slice": // args: base, low, high(or nil)
		hi := a.args[2]
		if hi.isNil() {
			hi = x.lenOf(s, a.args[0], c)
		}
		return x.binop(s, token.SUB, hi, a.args[1], types.Typ[types.Int])
	case "alloc":
		if pt, ok := a.typ.Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return x.tp.intT(at.Len())
			}
		}
	case "append":
		// appending n known elements to a nil slice
		if a.args[0].isNil() {
			return x.tp.intT(int64(len(a.args) - 1))
		}
	case "make":
		if len(a.args) > 0 && a.args[0].typ != nil && isIntType(a.args[0].typ) {
			return a.args[0]
		}
	case "chg":
		if a.typ != nil && a.args[0].typ != nil && !isStringBytes(a.typ, a.args[0].typ) {
			return x.lenOf(s, a.args[0], c)
		}
	}
	return x.tp.mk("len", "", types.Typ[types.Int], a)
}

// appendTo models append: the known elements of a variadic call are kept as arguments.
func (x *Exec) appendTo(s *State, args []*Term, typ types.Type) *Term {
	base := args[0]
	if b := args[1]; b.op == "slice" && b.args[0].op == "alloc" {
		arr := b.args[0]
		if n, ok := x.lenOf(s, b, nil).intVal(); ok && n <= 8 {
			as := []*Term{base}
			for i := int64(0); i < n; i++ {
				v, ok := s.store[x.tp.mk("elemaddr", "", nil, arr, x.tp.intT(i))]
				if !ok {
					v = x.tp.nilT()
				}
				as = append(as, x.keepNil(s, v))
			}
			if base.op == "append" && len(base.args)+len(as) < 10 {
				as = append(append([]*Term{}, base.args...), as[1:]...)
			}
			return x.boundAppend(s, x.tp.mk("append", "", typ, as...))
		}
	}
	return x.boundAppend(s, x.tp.mk("appendv", "", typ, args...))
}

func (x *Exec) boundAppend(s *State, t *Term) *Term {
	if t.depth <= x.Depth {
		return t
	}
	aux := ""
	if x.elemsNonNil(s, t) {
		aux = "nn"
	}
	return x.tp.mk("iter", aux, t.typ, t.leaves()...)
}

func isStringBytes(a, b types.Type) bool {
	_, s1 := a.Underlying().(*types.Basic)
	_, s2 := b.Underlying().(*types.Basic)
	return s1 != s2
}

// ---- simple instructions ----

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return types.NewVar(0, nil, "?", nil)
	}
	return st.Field(i)
}

// fieldKey names a field by its struct type.
func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n := "struct"
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = nt.Obj().Name()
		if nt.Obj().Pkg() != nil {
			n = nt.Obj().Pkg().Name() + "." + n
		}
	}
	return n + "." + fieldVar(t, i).Name()
}

func (x *Exec) deref(s *State, base *Term, in ssa.Instruction) {
	if x.H.Deref != nil {
		x.H.Deref(x, s, base, in)
	}
	if x.Nilness(s, base) == 1 {
		s.dead = true // the path ends in a run-time panic
		return
	}
	x.setNil(s, base, 2)
}

func (x *Exec) fieldAddr(base *Term, st types.Type, i int) *Term {
	ft := fieldVar(st, i).Type()
	return x.tp.mk("fieldaddr", fieldKey(st, i), types.NewPointer(ft), x.bound([]*Term{base})...)
}

func (x *Exec) elemAddr(base, idx *Term, elem types.Type) *Term {
	for base.op == "slice" {
		lo := base.args[1]
		a, ok1 := lo.intVal()
		b, ok2 := idx.intVal()
		switch {
		case ok1 && a == 0:
		case ok1 && ok2:
			idx = x.tp.intT(a + b)
		case ok1:
			idx = x.tp.mk("bin", "+", types.Typ[types.Int], x.bound([]*Term{idx, lo})...)
		default:
			idx = x.tp.mk("bin", "+", types.Typ[types.Int], x.bound([]*Term{lo, idx})...)
		}
		base = base.args[0]
	}
	as := x.bound([]*Term{base, idx})
	return x.tp.mk("elemaddr", "", types.NewPointer(elem), as...)
}

// readCell loads a value of type typ from addr; struct values are taken apart.
func (x *Exec) readCell(s *State, addr *Term, typ types.Type, in ssa.Instruction) *Term {
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 24 {
		if v, ok := s.store[addr]; ok {
			return v
		}
		var fs []*Term
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, x.readCell(s, x.fieldAddr(addr, typ, i), st.Field(i).Type(), in))
		}
		return x.tp.mk("struct", typ.String(), typ, fs...)
	}
	v := x.load(s, addr, in, typ)
	if x.H.Load != nil {
		x.H.Load(x, s, addr, v, in)
	}
	return v
}

func (x *Exec) writeCell(s *State, addr, val *Term, typ types.Type, in ssa.Instruction) {
	if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 24 {
		delete(s.store, addr)
		for i := 0; i < st.NumFields(); i++ {
			x.writeCell(s, x.fieldAddr(addr, typ, i), x.fieldOf(s, val, typ, i), st.Field(i).Type(), in)
		}
		return
	}
	if x.H.Write != nil {
		x.H.Write(x, s, addr, val, in)
	}
	x.storeTo(s, addr, val, in)
}

// fieldOf selects a field of a struct value.
func (x *Exec) fieldOf(s *State, v *Term, typ types.Type, i int) *Term {
	ft := fieldVar(typ, i).Type()
	if v.op == "struct" && i < len(v.args) {
		return v.args[i]
	}
	if v.op == "zero" || v.isNil() {
		return x.tp.zero(ft)
	}
	return x.tp.mk("field", fieldKey(typ, i), ft, x.bound([]*Term{v})...)
}

func (x *Exec) simple(s *State, in ssa.Instruction) {
	fr := s.top()
	set := func(v ssa.Value, t *Term) { fr.env[v] = t }
	switch i := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.fresh(s, "alloc", "", i, i.Type())
		// the variable starts at zero
		for a := range s.store {
			if a.mentions(t) {
				delete(s.store, a)
			}
		}
		set(i, t)
	case *ssa.FieldAddr:
		b := x.eval(s, i.X)
		x.deref(s, b, in)
		if !s.dead {
			set(i, x.fieldAddr(b, i.X.Type(), i.Field))
		}
	case *ssa.Field:
		set(i, x.fieldOf(s, x.eval(s, i.X), i.X.Type(), i.Field))
	case *ssa.IndexAddr:
		b := x.eval(s, i.X)
		x.deref(s, b, in)
		if s.dead {
			return
		}
		set(i, x.elemAddr(b, x.eval(s, i.Index), i.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Index:
		set(i, x.tp.mk("index", "", i.Type(), x.bound([]*Term{x.eval(s, i.X), x.eval(s, i.Index)})...))
	case *ssa.UnOp:
		a := x.eval(s, i.X)
		switch i.Op {
		case token.MUL:
			x.deref(s, a, in)
			if s.dead {
				return
			}
			v := x.readCell(s, a, i.Type(), in)
			set(i, v)
		case token.NOT:
			set(i, x.not(a))
		case token.ARROW:
			if x.H.Recv != nil {
				x.H.Recv(x, s, a, in)
			}
			et := a.chanElem(i.X.Type())
			v := x.fresh(s, "recv", "", in, et, a)
			if i.CommaOk {
				set(i, x.tp.mk("tuple", "", nil, v, x.fresh(s, "recvok", "", in, types.Typ[types.Bool], a)))
			} else {
				set(i, v)
			}
		case token.SUB:
			if a.isConst() {
				if v := constant.UnaryOp(token.SUB, a.val, 0); v != nil {
					set(i, x.tp.constant(v, i.Type()))
					return
				}
			}
			set(i, x.tp.mk("un", i.Op.String(), i.Type(), x.bound([]*Term{a})...))
		default:
			set(i, x.tp.mk("un", i.Op.String(), i.Type(), x.bound([]*Term{a})...))
		}
	case *ssa.BinOp:
		set(i, x.binop(s, i.Op, x.eval(s, i.X), x.eval(s, i.Y), i.Type()))
	case *ssa.ChangeInterface:
		set(i, x.eval(s, i.X)) // same dynamic value
	case *ssa.ChangeType:
		a := x.eval(s, i.X)
		if a.op == "clo" || a.op == "func" {
			set(i, a)
		} else {
			set(i, x.retype(a, i.Type()))
		}
	case *ssa.Convert:
		a := x.eval(s, i.X)
		if a.isConst() && types.Identical(a.typ.Underlying(), i.Type().Underlying()) {
			set(i, a)
		} else if a.isConst() && isIntType(i.Type()) && a.val.Kind() == constant.Int {
			set(i, x.tp.constant(a.val, i.Type()))
		} else {
			set(i, x.retype(a, i.Type()))
		}
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		set(in.(ssa.Value), x.fresh(s, "conv", "", in, in.(ssa.Value).Type(), x.eval(s, *in.Operands(nil)[0])))
	case *ssa.MakeInterface:
		a := x.eval(s, i.X)
		if a.typ == nil || a.isNil() {
			a = x.tp.mk("typed", i.X.Type().String(), i.X.Type(), a)
		}
		t := x.tp.mk("mi", i.X.Type().String(), i.Type(), a)
		if t.conc == nil {
			t.conc = i.X.Type()
		}
		set(i, t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, x.eval(s, b))
		}
		t := x.tp.mk("clo", i.Fn.String(), i.Type(), bs...)
		t.fn = i.Fn.(*ssa.Function)
		set(i, t)
	case *ssa.MakeChan:
		t := x.fresh(s, "make", "chan", i, i.Type(), x.eval(s, i.Size))
		set(i, t)
	case *ssa.MakeMap:
		t := x.fresh(s, "make", "map", i, i.Type())
		for a := range s.store {
			if a.mentions(t) {
				delete(s.store, a)
			}
		}
		set(i, t)
	case *ssa.MakeSlice:
		set(i, x.fresh(s, "make", "slice", i, i.Type(), x.eval(s, i.Len)))
	case *ssa.Slice:
		b := x.eval(s, i.X)
		lo, hi := x.tp.intT(0), x.tp.nilT()
		if i.Low != nil {
			lo = x.eval(s, i.Low)
		}
		if i.High != nil {
			hi = x.eval(s, i.High)
		}
		if l, ok := lo.intVal(); ok && l == 0 && i.High == nil {
			if _, isPtr := i.X.Type().Underlying().(*types.Pointer); !isPtr {
				set(i, b)
				return
			}
		}
		if b.op == "slice" && b.args[2].isNil() {
			if l2, ok := b.args[1].intVal(); ok {
				if l, ok := lo.intVal(); ok {
					if h, ok := hi.intVal(); ok {
						hi = x.tp.intT(h + l2)
					}
					if hi.isNil() || hi.isConst() {
						lo = x.tp.intT(l + l2)
						b = b.args[0]
					}
				}
			}
		}
		set(i, x.tp.mk("slice", "", i.Type(), x.bound([]*Term{b, lo, hi})...))
	case *ssa.TypeAssert:
		a := x.eval(s, i.X)
		if x.H.TypeAssert != nil {
			x.H.TypeAssert(x, s, a, i)
		}
		v, ok := x.typeAssert(s, a, i)
		if i.CommaOk {
			set(i, x.tp.mk("tuple", "", nil, v, ok))
		} else {
			if x.Truth(s, ok) == 2 {
				s.dead = true
				return
			}
			x.Assume(s, ok, true)
			set(i, v)
		}
	case *ssa.Lookup:
		m, k := x.eval(s, i.X), x.eval(s, i.Index)
		if _, isStr := i.X.Type().Underlying().(*types.Basic); isStr {
			set(i, x.tp.mk("index", "", i.Type(), x.bound([]*Term{m, k})...))
			return
		}
		vt := i.Type()
		if i.CommaOk {
			vt = vt.(*types.Tuple).At(0).Type()
		}
		var v, ok *Term
		cell := x.tp.mk("mapcell", "", nil, x.bound([]*Term{m, k})...)
		if c, has := s.store[cell]; has {
			v, ok = c, x.tp.boolT(true)
		} else if m.isNil() {
			v, ok = x.tp.zero(vt), x.tp.boolT(false)
		} else if f, known := x.globalMapFunc(m, k); known {
			if f == nil {
				v, ok = x.tp.zero(vt), x.tp.boolT(false)
			} else {
				v, ok = x.eval(s, f), x.tp.boolT(true)
			}
		} else {
			if m.op == "make" && !s.dirtyMap(m) {
				v, ok = x.tp.zero(vt), x.tp.boolT(false)
			} else if s.dirty["map"] {
				v = x.fresh(s, "lookup", "", in, vt, x.bound([]*Term{m, k})...)
				ok = x.tp.mk("ok", "map", types.Typ[types.Bool], v)
			} else {
				v = x.tp.mk("lookup", "", vt, x.bound([]*Term{m, k})...)
				ok = x.tp.mk("ok", "map", types.Typ[types.Bool], v)
			}
		}
		if x.H.Load != nil {
			x.H.Load(x, s, cell, v, in)
		}
		if i.CommaOk {
			set(i, x.tp.mk("tuple", "", nil, v, ok))
		} else {
			set(i, v)
		}
	case *ssa.MapUpdate:
		m, k, v := x.eval(s, i.Map), x.eval(s, i.Key), x.eval(s, i.Value)
		x.deref(s, m, in)
		if s.dead {
			return
		}
		cell := x.tp.mk("mapcell", "", nil, x.bound([]*Term{m, k})...)
		if x.H.Write != nil {
			x.H.Write(x, s, cell, v, in)
		}
		for a := range s.store {
			if a.op == "mapcell" && a != cell && mayAlias(a.args[0], m) && !(a.args[1].isConst() && k.isConst()) {
				delete(s.store, a)
			}
		}
		if m.op != "make" {
			s.dirty["map"] = true
		} else {
			s.dirty[fmt.Sprintf("map%d", m.id)] = true
		}
		s.store[cell] = v
	case *ssa.Range:
		set(i, x.tp.mk("range", "", i.Type(), x.eval(s, i.X)))
	case *ssa.Next:
		r := x.eval(s, i.Iter)
		src := r
		if len(r.args) == 1 {
			src = r.args[0]
		}
		tt := i.Type().(*types.Tuple)
		ok := x.fresh(s, "next", "", in, types.Typ[types.Bool])
		k := x.fresh(s, "rangekey", "", in, tt.At(1).Type(), src)
		v := x.fresh(s, "rangeval", "", in, tt.At(2).Type(), src)
		set(i, x.tp.mk("tuple", "", nil, ok, k, v))
	case *ssa.Extract:
		t := x.eval(s, i.Tuple)
		if t.op == "tuple" && i.Index < len(t.args) {
			set(i, t.args[i.Index])
		} else {
			set(i, x.tp.mk("ext", fmt.Sprint(i.Index), i.Type(), t))
		}
	case *ssa.Select:
		var res []*Term
		idx := x.fresh(s, "selidx", fmt.Sprintf("/%d,%t", len(i.States), i.Blocking), in, types.Typ[types.Int])
		delete(s.facts, idx)
		res = append(res, idx, x.fresh(s, "recvok", "", in, types.Typ[types.Bool]))
		for _, st := range i.States {
			ch := x.eval(s, st.Chan)
			if st.Dir == types.RecvOnly {
				res = append(res, x.fresh(s, "recv", fmt.Sprintf(".%d", len(res)), in, ch.chanElem(st.Chan.Type()), ch))
			}
		}
		if x.H.Select != nil {
			x.H.Select(x, s, i, idx)
		}
		if x.H.Case != nil {
			k := 0
			if !i.Blocking {
				k = -1
			}
			for ; k < len(i.States); k++ {
				n := s.clone()
				rs := append([]*Term{x.tp.intT(int64(k))}, res[1:]...)
				n.top().env[i] = x.tp.mk("tuple", "", nil, rs...)
				x.H.Case(x, n, i, k, rs)
				n.note("%s: case %d of the select", x.p.instrPos(i), k)
				n.top().idx++
				if !n.dead {
					x.push(n)
				}
			}
			s.dead = true
			return
		}
		set(i, x.tp.mk("tuple", "", nil, res...))
	case *ssa.Send:
		if x.H.Send != nil {
			x.H.Send(x, s, x.eval(s, i.Chan), x.eval(s, i.X), in)
		}
	case *ssa.Store:
		a, v := x.eval(s, i.Addr), x.eval(s, i.Val)
		x.deref(s, a, in)
		if s.dead {
			return
		}
		x.writeCell(s, a, v, i.Val.Type(), in)
	default:
		if v, ok := in.(ssa.Value); ok {
			set(v, x.fresh(s, "unknown", "", in, v.Type()))
		}
	}
}

func (s *State) dirtyMap(m *Term) bool {
	return s.dirty[fmt.Sprintf("map%d", m.id)] || s.dirty["map"]
}

func (x *Exec) retype(a *Term, t types.Type) *Term {
	if a.typ != nil && types.Identical(a.typ, t) {
		return a
	}
	if a.op == "chg" && !(intBits(a.typ) < intBits(a.args[0].typ) && intBits(a.typ) < intBits(t)) {
		return x.retype(a.args[0], t)
	}
	return x.tp.mk("chg", t.String(), t, a)
}

// intBits is the width of an integer type.
func intBits(t types.Type) int {
	if t == nil {
		return 64
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
	}
	return 64
}

func (t *Term) chanElem(ct types.Type) types.Type {
	if c, ok := ct.Underlying().(*types.Chan); ok {
		return c.Elem()
	}
	return nil
}

func (x *Exec) not(a *Term) *Term {
	if b, ok := a.boolVal(); ok {
		return x.tp.boolT(!b)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return x.tp.mk("not", "", types.Typ[types.Bool], a)
}

func (x *Exec) binop(s *State, op token.Token, a, b *Term, typ types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.isConst() && b.isConst() && a.val.Kind() == b.val.Kind() {
			return x.tp.boolT(constant.Compare(a.val, op, b.val))
		}
		neg := false
		switch op {
		case token.NEQ:
			op, neg = token.EQL, true
		case token.LEQ: // a<=b == !(b<a)
			a, b, op, neg = b, a, token.LSS, true
		case token.GTR:
			a, b, op = b, a, token.LSS
		case token.GEQ:
			op, neg = token.LSS, true
		}
		if op == token.EQL {
			// constants and nil go right, otherwise order by id
			if a.isConst() || a.isNil() || (!b.isConst() && !b.isNil() && a.id > b.id) {
				a, b = b, a
			}
			if a.typ != nil && a.typ.Underlying() == types.Typ[types.Bool] && b.isConst() {
				v, _ := b.boolVal()
				if v != neg {
					return a
				}
				return x.not(a)
			}
		}
		t := x.tp.mk("cmp", op.String(), types.Typ[types.Bool], a, b)
		if neg {
			return x.not(t)
		}
		return t
	}
	if a.isConst() && b.isConst() {
		if v := foldBin(op, a.val, b.val); v != nil {
			return x.tp.constant(v, typ)
		}
	}
	if v, ok := b.intVal(); ok && v == 0 && (op == token.ADD || op == token.SUB) {
		return a
	}
	return x.tp.mk("bin", op.String(), typ, x.bound([]*Term{a, b})...)
}

// typeAssert evaluates v.(T).
func (x *Exec) typeAssert(s *State, a *Term, i *ssa.TypeAssert) (v, ok *Term) {
	T := i.AssertedType
	b := a
	if b.isNil() || x.Nilness(s, b) == 1 {
		return x.tp.zero(T), x.tp.boolT(false)
	}
	if b.op == "mi" && b.conc != nil {
		if it, isI := T.Underlying().(*types.Interface); isI {
			if types.Implements(b.conc, it) {
				return a, x.tp.boolT(true)
			}
			return x.tp.zero(T), x.tp.boolT(false)
		}
		if types.Identical(b.conc, T) {
			return b.args[0], x.tp.boolT(true)
		}
		return x.tp.zero(T), x.tp.boolT(false)
	}
	ok = x.tp.mk("ok", T.String(), types.Typ[types.Bool], a)
	v = x.tp.mk("ta", T.String(), T, a)
	return v, ok
}

// NewFrame prepares a root frame for fn in an existing state (for Chain).
func (x *Exec) NewFrame(fn *ssa.Function, args []*Term, tag int) *Frame {
	fr := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, args: args, ctx: 100000 + tag}
	for i, pa := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[pa] = args[i]
		} else {
			fr.env[pa] = x.tp.mk("param", fmt.Sprintf("%s%d", pa.Name(), tag), pa.Type())
		}
	}
	return fr
}

// globalMapFunc looks a constant key up in a map of functions that only package
// initialisation fills; known is false when the contents cannot be told.
func (x *Exec) globalMapFunc(m, k *Term) (f *ssa.Function, known bool) {
	if m.op != "load" || m.args[0].op != "global" {
		return nil, false
	}
	key, ok := k.strVal()
	if !ok {
		return nil, false
	}
	reg := x.p.funcMap(m.args[0].aux)
	if reg == nil {
		return nil, false
	}
	return reg[key], true
}
