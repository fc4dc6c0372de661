package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C45", "set operations have the members they promise", ruleAlgebra)
}

func ruleAlgebra(p *Prog, r *Report) {
	r.rule("Diff, Intersect and Union are interpreted over an abstract domain that follows one arbitrary member: each set has a bit (holds it or not), each list of members has a bit, each item is that member or another one. The receiver holds it or not; there are no arguments, or none, all or only some of them hold it; every loop is followed to a fixed point; a loop over a list that holds the member visits it, one over the arguments meets what they are said to hold. As the member is arbitrary and the sets are independent of each other for different members, the answer is right for all sets iff at every return the bit of the result is that of the operation: receiver and no argument (Diff), receiver and all arguments (Intersect), any of them (Union). Receiver and arguments must not be changed.")
	for _, m := range []string{"Diff", "Intersect", "Union"} {
		f := p.impl("container", "SetContainer", m)
		for _, self := range []string{"0", "1"} {
			for _, class := range []string{"no", "none", "all", "some"} {
				a := &algebra{p: p, r: r, f: f, m: m, class: class}
				a.run(self)
			}
		}
	}
	r.min("operation", 3)
	r.min("state of the result", 3)
}

type algebra struct {
	p     *Prog
	r     *Report
	f     *ssa.Function
	m     string
	x     *Exec
	recv  *Term
	cs    *Term
	cv    *cover
	blind string
	one   bool // some return was decided
	class string
}

func (a *algebra) fail(s *State, pos, key, format string, args ...interface{}) {
	a.r.failPath(key+" in "+a.m, pos, s.path(), "%s: %s", a.m, fmt.Sprintf(format, args...))
}

// giveUp: a form that the domain cannot express; nothing is claimed about it.
func (a *algebra) giveUp(s *State, why string) {
	if a.blind == "" {
		a.blind = why
	}
	s.dead = true
}

func (a *algebra) list(bit string) *Term { return a.x.tp.mk("mlist", bit, nil) }

// listBit: whether a list holds the member.
func (a *algebra) listBit(t *Term) (string, bool) {
	t = stripConv(t)
	switch {
	case t.op == "mlist":
		return t.aux, true
	case t.isNil() || t.op == "zero":
		return "0", true
	case t.op == "make":
		if len(t.args) > 0 {
			if v, ok := t.args[0].intVal(); ok && v == 0 {
				return "0", true
			}
		}
	case t.op == "slice":
		b, ok := a.listBit(t.args[0])
		if !ok {
			return "", false
		}
		if hi, isC := t.args[2].intVal(); isC && hi == 0 {
			return "0", true
		}
		if lo, isC := t.args[1].intVal(); (t.args[1].isNil() || isC && lo == 0) && t.args[2].isNil() || b == "0" {
			return b, true
		}
	}
	return "", false
}

func (a *algebra) item(t *Term) (isE, ok bool) {
	t = stripConv(t)
	if t.op == "item" {
		return t.aux == "e", true
	}
	return false, false
}

func (a *algebra) cell(obj *Term) *Term { return a.x.tp.mk("setbit", "", nil, obj) }

// setBit: whether a set holds the member.
func (a *algebra) setBit(s *State, t *Term) (string, bool) {
	t = stripConv(t)
	switch {
	case t == a.recv.canon():
		return s.get("self"), true
	case t.op == "argset":
		return t.aux, true
	}
	if v, ok := s.store[a.cell(t)]; ok {
		if b, ok := v.strVal(); ok {
			return b, true
		}
	}
	return "", false
}

// fork runs the instruction at hand again for each choice; it returns the choice of this path.
func (a *algebra) fork(s *State, choices ...string) string {
	if c := s.get("choice"); c != "" {
		s.del("choice")
		return c
	}
	for _, c := range choices[1:] {
		n := s.clone()
		n.set("choice", c)
		a.x.push(n)
	}
	return choices[0]
}

// inLoop: block b belongs to the natural loop of header h.
func inLoop(h, b *ssa.BasicBlock) bool {
	if b == h {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{h: true}
	var w func(u *ssa.BasicBlock) bool
	w = func(u *ssa.BasicBlock) bool {
		for _, n := range u.Succs {
			if n == h {
				return true
			}
			if !seen[n] && h.Dominates(n) {
				seen[n] = true
				if w(n) {
					return true
				}
			}
		}
		return false
	}
	return w(b)
}

// loopOf is the header of the innermost loop a block is in.
func loopOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	var best *ssa.BasicBlock
	for _, h := range b.Parent().Blocks {
		if isHeader(h) && inLoop(h, b) && (best == nil || best.Dominates(h)) {
			best = h
		}
	}
	return best
}

func loopKey(in ssa.Instruction, ctx int) string {
	h := loopOf(in.Block())
	if h == nil {
		return ""
	}
	return visKey(h, ctx)
}

func visKey(b *ssa.BasicBlock, ctx int) string { return fmt.Sprintf("vis%d.%d", ctx, b.Index) }

func (a *algebra) run(self string) {
	p, r, f := a.p, a.r, a.f
	r.site("operation", a.m)
	at := p.pos(f.Pos())
	x := NewExec(p)
	a.x = x
	x.Depth = 12
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" }
	a.recv, a.cs = x.Param(f.Params[0]), x.Param(f.Params[1])
	a.cv = newCover("sets", 0)
	a.cv.Done = func(x *Exec, s *State) bool { return true }
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		if a.blind != "" {
			s.dead = true
			return
		}
		switch i := in.(type) {
		case *ssa.UnOp:
			ia, ok := i.X.(*ssa.IndexAddr)
			if !ok || i.Op != token.MUL {
				return
			}
			base := x.eval(s, ia.X)
			addr := x.eval(s, ia)
			if rootSlice(base) == a.cs.canon() {
				if addr.op == "elemaddr" && addr.args[1] == s.getT("csidx") && s.get("csbit") != "" {
					s.store[addr] = x.tp.mk("argset", s.get("csbit"), i.Type())
					return
				}
				var b string
				switch a.class {
				case "no":
					s.dead = true // a run-time panic, or not reached
					return
				case "none":
					b = "0"
				case "all":
					b = "1"
				default:
					b = a.fork(s, "0", "1")
				}
				s.note("%s: this set %s the member followed", p.instrPos(in), map[string]string{"0": "does not have", "1": "has"}[b])
				s.setT("csidx", addr.args[1])
				s.set("csbit", b)
				if k := loopKey(in, s.top().ctx); k != "" {
					s.set(k+"."+b, "1")
				}
				s.store[addr] = nonNil(x, s, x.tp.mk("argset", b, i.Type()))
				return
			}
			if !a.isItems(ia.X.Type()) {
				return
			}
			b, ok := a.listBit(base)
			if !ok {
				a.giveUp(s, "an item of "+base.String())
				return
			}
			c := "other"
			k := loopKey(in, s.top().ctx)
			if b == "1" {
				if k == "" {
					a.giveUp(s, "an item of a list outside of a loop")
					return
				}
				if s.get(k) == "" {
					if c = a.fork(s, "other", "e"); c == "e" {
						s.set(k, "1")
					}
				}
			}
			if c == "e" {
				s.note("%s: the item is the member followed", p.instrPos(in))
			} else {
				s.note("%s: the item is another one", p.instrPos(in))
			}
			s.store[addr] = nonNil(x, s, x.tp.mk("item", c, i.Type()))
		case *ssa.Range:
			if _, ok := i.X.Type().Underlying().(*types.Map); ok {
				a.giveUp(s, "a range over a map")
			}
		case *ssa.Lookup, *ssa.MapUpdate:
			a.giveUp(s, "direct use of a map")
		}
		a.cv.cut(x, s, in)
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		a.cv.load(x, s, addr, val, in)
	}
	x.H.Block = func(x *Exec, s *State, b *ssa.BasicBlock) bool {
		if isHeader(b) && !b.Dominates(s.top().prev) {
			k := visKey(b, s.top().ctx)
			s.del(k)
			s.del(k + ".0")
			s.del(k + ".1")
		}
		return a.blind == ""
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		a.cv.branch(x, s, cond, truth, in)
		if isHeader(in.Block()) && leavesLoop(in, truth) && cond.any(func(u *Term) bool { return u.op == "len" && rootSlice(u.args[0]) == a.cs.canon() }) {
			k := visKey(in.Block(), s.top().ctx)
			saw0, saw1 := s.get(k+".0") != "", s.get(k+".1") != ""
			switch a.class {
			case "none", "all":
				s.dead = !saw0 && !saw1
			case "some":
				s.dead = !saw0 || !saw1
			}
			if s.dead {
				return
			}
		}
		// a list that holds the member is not empty, and its loop has visited it at the end
		holds := func(u *Term) bool {
			if u.op != "mlen" {
				return false
			}
			return u.aux == "1"
		}
		if !cond.any(holds) {
			return
		}
		if isHeader(in.Block()) && leavesLoop(in, truth) {
			if s.get(visKey(in.Block(), s.top().ctx)) == "" {
				s.dead = true
			}
			return
		}
		a.notEmpty(s, cond, truth)
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		return a.call(s, c, callees, args)
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || a.blind != "" {
			return
		}
		in := fr.block.Instrs[len(fr.block.Instrs)-1]
		b, ok := a.setBit(s, res[0])
		if !ok {
			a.giveUp(s, "the result "+res[0].String())
			return
		}
		a.one = true
		r.site("state of the result", fmt.Sprint(a.m, " self=", self, " others=", a.class))
		mine, want := self == "1", false
		switch a.m {
		case "Diff":
			want = mine && (a.class == "none" || a.class == "no")
		case "Intersect":
			want = mine && (a.class == "all" || a.class == "no")
		case "Union":
			want = mine || a.class == "all" || a.class == "some"
		}
		if (b == "1") != want {
			what := map[string]string{"no": "that has no sets to compare with", "none": "none of the other sets has", "all": "all other sets have", "some": "only some of the other sets have"}[a.class]
			a.fail(s, p.instrPos(in), "member", "a member that the set %s, and that %s, is %s the result", map[bool]string{true: "has", false: "does not have"}[mine], what, map[bool]string{true: "in", false: "missing in"}[b == "1"])
		}
	}
	x.Run(f, nil, func(s *State) {
		s.set("self", self)
		a.cv.start(s, a.cs)
	})
	r.exec(x)
	if a.blind != "" {
		r.site("not decided", a.m+": "+a.blind)
		r.site("state of the result", a.m+" not decided")
		return
	}
	for _, e := range a.cv.offs {
		r.failPath("range in "+a.m, e.pos, e.path, "not every set is looked at: %s", e.msg)
	}
	if !a.one {
		r.fail("no result of "+a.m, at, "%s never returns a result", a.m)
	}
}

// leavesLoop: the branch leaves the innermost loop it is in.
func leavesLoop(in *ssa.If, truth bool) bool {
	h := loopOf(in.Block())
	return h == nil || !inLoop(h, succOf(in, truth))
}

func succOf(in *ssa.If, truth bool) *ssa.BasicBlock {
	if truth {
		return in.Block().Succs[0]
	}
	return in.Block().Succs[1]
}

func (a *algebra) isItems(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return a.p.isNamedType(deref(u.Elem()), "container", "StringContainer")
	}
	return false
}

// notEmpty drops paths on which something that holds the member is empty.
func (a *algebra) notEmpty(s *State, cond *Term, truth bool) {
	t := cond
	for t.op == "not" {
		t, truth = t.args[0], !truth
	}
	if t.op != "cmp" {
		return
	}
	l, r := t.args[0], t.args[1]
	lv, lc := l.intVal()
	rv, rc := r.intVal()
	pos := func(u *Term) bool { return u.op == "mlen" && u.aux == "1" }
	switch {
	case t.aux == "==" && truth && (pos(l) && rc && rv <= 0 || pos(r) && lc && lv <= 0):
		s.dead = true
	case t.aux == "<" && truth && pos(l) && rc && rv <= 1:
		s.dead = true
	case t.aux == "<" && !truth && pos(r) && lc && lv <= 0:
		s.dead = true
	}
}

func (a *algebra) call(s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
	x, p := a.x, a.p
	cc := c.Common()
	rs := cc.Signature().Results()
	one := func(t *Term) CallAction {
		return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{t}}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(args) != 2 || !a.isItems(rs.At(0).Type()) {
				return CallAction{}
			}
			bit, ok := a.listBit(args[0])
			if !ok {
				a.giveUp(s, "append to "+args[0].String())
				return CallAction{}
			}
			if more, ok := a.listBit(args[1]); ok {
				if more == "1" {
					bit = "1"
				}
				return one(a.list(bit))
			}
			vs, ok := x.variadic(s, args[1])
			if !ok {
				a.giveUp(s, "append of "+args[1].String())
				return CallAction{}
			}
			for _, v := range vs {
				e, ok := a.item(v)
				if !ok {
					a.giveUp(s, "append of "+v.String())
					return CallAction{}
				}
				if e {
					bit = "1"
				}
			}
			return one(a.list(bit))
		case "len":
			if a.isItems(cc.Args[0].Type()) {
				if bit, ok := a.listBit(args[0]); ok {
					return one(x.tp.mk("mlen", bit, types.Typ[types.Int]))
				}
			}
		}
		return CallAction{}
	}
	if p.isFunc(callees, "container", "NewSetContainer") {
		t := nonNil(x, s, x.fresh(s, "setobj", "", c, rs.At(0).Type()))
		s.store[a.cell(t)] = x.tp.strT("0")
		return one(t)
	}
	iface := p.iface("container", "SetContainer")
	m := ""
	for i := 0; i < iface.NumMethods(); i++ {
		if n := iface.Method(i).Name(); p.isMethodCall(cc, "container", "SetContainer", n) {
			m = n
		}
	}
	if m == "" {
		if len(callees) == 1 && callees[0].Signature.Recv() != nil && p.isNamedType(deref(callees[0].Signature.Recv().Type()), "container", "StringContainer") {
			return a.itemCall(s, callees[0], args)
		}
		return CallAction{}
	}
	obj := stripConv(args[0])
	bit, ok := a.setBit(s, obj)
	if !ok {
		a.giveUp(s, m+" of "+obj.String())
		return CallAction{}
	}
	given := obj == a.recv.canon() || obj.op == "argset"
	set := func(b string) {
		if given {
			if b != bit || m == "Pop" {
				a.fail(s, p.instrPos(c), "changes", "%s of a set that was given: it is changed by the operation", m)
			}
			return
		}
		s.store[a.cell(obj)] = x.tp.strT(b)
	}
	switch m {
	case "Members":
		return one(a.list(bit))
	case "Add", "Delete":
		l, ok := a.listBit(args[1])
		if !ok {
			vs, ok2 := x.variadic(s, args[1])
			if !ok2 {
				a.giveUp(s, m+" of "+args[1].String())
				return CallAction{}
			}
			l = "0"
			for _, v := range vs {
				e, ok := a.item(v)
				if !ok {
					a.giveUp(s, m+" of "+v.String())
					return CallAction{}
				}
				if e {
					l = "1"
				}
			}
		}
		if l == "1" {
			set(map[string]string{"Add": "1", "Delete": "0"}[m])
		}
		return CallAction{Kind: actOpaque, Pure: true}
	case "IsMember":
		e, ok := a.item(args[1])
		if !ok {
			a.giveUp(s, "IsMember of "+args[1].String())
			return CallAction{}
		}
		if e {
			return one(x.tp.boolT(bit == "1"))
		}
		return CallAction{Kind: actOpaque, Pure: true}
	case "Len":
		return one(x.tp.mk("mlen", bit, types.Typ[types.Int], obj))
	case "Pop", "RandomMember":
		n := stripConv(args[1])
		if n.op == "mlen" && len(n.args) == 1 && n.args[0] == obj && n.aux == bit {
			if m == "Pop" {
				set("0")
			}
			return one(a.list(bit))
		}
		a.giveUp(s, m+" of some members")
		return CallAction{}
	case "Type", "Key", "isContainer":
		return CallAction{}
	}
	a.giveUp(s, m)
	return CallAction{}
}

// itemCall: methods of items.
func (a *algebra) itemCall(s *State, g *ssa.Function, args []*Term) CallAction {
	x := a.x
	e, ok := a.item(args[0])
	if g.Name() == "Equals" && ok && len(args) == 2 {
		f, ok := a.item(args[1])
		if ok && (e || f) {
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.boolT(e && f)}}
		}
	}
	return CallAction{Kind: actOpaque, Pure: true}
}
