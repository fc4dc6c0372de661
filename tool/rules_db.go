package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C41", "a command works on the containers of its own keys", ruleResolve)
	register("C42", "a container stays under its key", ruleKeyspace)
}

// kindInterfaces: the container interfaces and the type constants their implementations report.
func (p *Prog) kindInterfaces() map[string]int64 {
	out := map[string]int64{}
	for _, n := range []string{"StringMap", "ListContainer", "HashContainer", "SetContainer"} {
		out[n] = p.kindConst(n)
	}
	return out
}

// lookupOf: the container interface a method of Containers gives, and whether it creates.
func (p *Prog) lookupOf(c *ssa.CallCommon) (kind string, create, ok bool) {
	m := methodName(c)
	if !hasMethod(p.iface("container", "Containers"), m) || !p.isMethodCall(c, "container", "Containers", m) {
		return
	}
	rs := c.Signature().Results()
	if rs.Len() == 0 {
		return
	}
	n, isN := types.Unalias(rs.At(0).Type()).(*types.Named)
	if !isN {
		return
	}
	impl := p.impl("container", "Containers", m)
	// it creates when it can change the containers
	return n.Obj().Name(), p.mayMutate(impl), true
}

// mayMutate: the method can change what its receiver refers to.
func (p *Prog) mayMutate(f *ssa.Function) bool {
	_, m := p.mutations("container").mutatesParam(f, 0)
	return m
}

func ruleResolve(p *Prog, r *Report) {
	r.rule("ExecuteCommand is followed on every path. For every key the command names, in order and exactly once, a container is looked up under that very key; the kind of the lookup must be the kind the command asks for on that path, and a creating lookup must be used exactly when the command asks for creation (for kinds that can be absent). The looked up containers are handed to the command before it is executed, and it is executed exactly once.")
	root := p.impl("db", "DB", "ExecuteCommand")
	kinds := p.kindInterfaces()
	x := NewExec(p)
	x.Depth = 8
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "db" }
	cv := newCover("key", 0)
	isObj := func(t types.Type) bool {
		if !types.IsInterface(t) {
			return false
		}
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "container"
	}
	cmd := x.Param(root.Params[len(root.Params)-1])
	typ := x.tp.mk("pure", ".TargetContainerType", p.named("container", "ContainerType"), cmd)
	create := x.tp.mk("pure", ".ShouldCreate", types.Typ[types.Bool], cmd)
	kindIs := func(s *State, k int64) int8 {
		return x.Truth(s, x.binop(s, token.EQL, typ, x.tp.constant(constInt(k), p.named("container", "ContainerType")), types.Typ[types.Bool]))
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if i := s.getT("keyi"); addr.op == "elemaddr" && cv.base(s) != nil && addr.args[0].canon() == cv.base(s).canon() && i != addr.args[1] {
			s.del("got")
		}
		cv.load(x, s, addr, val, in)
	}
	x.H.Branch = cv.branch
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) { cv.cut(x, s, in) }
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		where := p.instrPos(c)
		if kind, creates, ok := p.lookupOf(c.Common()); ok {
			r.site("lookup", where+" "+kind)
			if k, known := kinds[kind]; known && kindIs(s, k) != 1 {
				r.failPath("kind of "+kind, where, s.path(), "a %s is looked up although the command is not known to ask for one here", kind)
			}
			if len(args) > 1 {
				if same, known := sameTerm(args[1], s.getT("keyv")); !known || !same {
					r.failPath("key of "+kind, where, s.path(), "the %s is looked up under %s, which is not the key at hand", kind, args[1])
				}
				want := x.Truth(s, create)
				if creates && want != 1 {
					r.failPath("creating "+kind, where, s.path(), "a %s is created although the command is not known to ask for creation", kind)
				}
				if !creates && want != 2 {
					r.failPath("not creating "+kind, where, s.path(), "a missing %s is not created although the command may ask for creation", kind)
				}
			}
			s.set("got", "1")
			return CallAction{Kind: actOpaque}
		}
		switch m := p.cmdMethod(c); m {
		case "Keys", "TargetContainerType", "ShouldCreate", "Type", "Name":
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "."+m, args[:1])}
		case "SetAccessObjects":
			r.site("objects handed over", where)
			if args[0].canon() == cmd {
				s.set("handed", "1")
			}
			if s.getT("keyi") != nil {
				cv.finish(x, s, c)
				cv.left(x, s, c)
			}
			if w := s.get("keycut"); w != "" {
				r.failPath("keys cut", w, s.path(), "only a part of the command's keys is looked up")
			}
			if cv.base(s) == nil || s.getT("keyi") != nil && args[1].isNil() {
				r.failPath("objects missing", where, s.path(), "the command is not given the containers of its keys")
			}
			return CallAction{Kind: actOpaque, Pure: true}
		case "Execute":
			r.site("execution", where)
			if s.get("handed") == "" {
				r.failPath("executed without objects", where, s.path(), "the command is executed before it is given its containers")
			}
			if s.get("executed") != "" {
				r.failPath("executed twice", where, s.path(), "the command can be executed twice")
			}
			s.set("executed", "1")
			return CallAction{Kind: actOpaque}
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if p.cmdMethod(c) == "Keys" && len(res) == 1 {
			if cv.base(s) == nil {
				cv.start(s, res[0])
			}
		}
		if _, _, ok := p.lookupOf(c.Common()); ok && len(res) == 1 {
			s.setT("found", res[0])
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if !storesElem(in, isObj) || s.getT("keyi") == nil {
			return
		}
		r.site("container stored", p.instrPos(in))
		cv.use(x, s, in)
		if s.get("got") == "" {
			for n, k := range kinds {
				if kindIs(s, k) != 2 {
					r.failPath("not looked up "+n, p.instrPos(in), s.path(), "no container is looked up for a key of a command that may ask for a %s", n)
				}
			}
		} else if f := s.getT("found"); f != nil && !val.mentions(f) && x.Nilness(s, f) != 1 {
			r.failPath("other container", p.instrPos(in), s.path(), "what is stored for the key is %s, not the container that was looked up", val)
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 && s.get("executed") == "" {
			r.failPath("not executed", p.pos(root.Pos()), s.path(), "ExecuteCommand can return without having executed the command")
		}
	}
	x.Run(root, nil, nil)
	r.exec(x)
	cv.report(r, "key of the command", "looked up")
	r.min("lookup", 4)
	r.min("objects handed over", 1)
	r.min("execution", 1)
	r.min("container stored", 1)
}

// ---- C42 ----

// ruleKeyspace decides that a lookup finds what was created under the same key.
func ruleKeyspace(p *Prog, r *Report) {
	r.rule("Every lookup of the key space (the methods of Containers that take a key) is followed on every path. It may only read and change the map of its kind, at the key it was given; a container is put into the map only where the lookup of that key has found none, and is then the one returned, and was made with that key; where one was found, that one is returned; a lookup that does not create changes nothing. The lookups of one kind all use the same map, and different kinds use different maps.")
	ci := p.iface("container", "Containers")
	owner := map[string]string{} // map field -> kind
	kindField := map[string]string{}
	for i := 0; i < ci.NumMethods(); i++ {
		m := ci.Method(i)
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() != 1 || sg.Results().Len() != 1 || !isStringType(sg.Params().At(0).Type()) {
			continue
		}
		kn, ok := types.Unalias(sg.Results().At(0).Type()).(*types.Named)
		if !ok {
			continue
		}
		kind := kn.Obj().Name()
		f := p.impl("container", "Containers", m.Name())
		r.site("lookup", m.Name())
		creates := strings.Contains(m.Name(), "Create")
		x := NewExec(p)
		x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" || strings.HasPrefix(g.Name(), "New") }
		key := x.Param(f.Params[1])
		recv := x.Param(f.Params[0])
		use := func(s *State, fa *Term, in ssa.Instruction) {
			if o, had := owner[fa.aux]; had && o != kind {
				r.failPath("map of "+m.Name(), p.instrPos(in), s.path(), "%s uses the map %s, which holds containers of kind %s", m.Name(), fa.aux, o)
			} else if g, had := kindField[kind]; had && g != fa.aux {
				r.failPath("other map of "+m.Name(), p.instrPos(in), s.path(), "%s uses the map %s, the other lookups of %s use %s", m.Name(), fa.aux, kind, g)
			} else {
				owner[fa.aux], kindField[kind] = kind, fa.aux
			}
		}
		mapField := func(t *Term) *Term {
			t = t.canon()
			if (t.op == "load" || t.op == "reload") && t.args[0].op == "fieldaddr" && t.args[0].args[0] == recv {
				return t.args[0]
			}
			return nil
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			lk, ok := in.(*ssa.Lookup)
			if !ok {
				return
			}
			fa := mapField(x.eval(s, lk.X))
			if fa == nil {
				return
			}
			r.site("read of the map", p.instrPos(in))
			use(s, fa, in)
			if same, known := sameTerm(x.eval(s, lk.Index), key); known && !same {
				r.failPath("key of "+m.Name(), p.instrPos(in), s.path(), "%s looks the container up under %s instead of the key it was given", m.Name(), x.eval(s, lk.Index))
			} else {
				s.set("looked", "1")
			}
		}
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "fieldaddr" && addr.args[0] == recv && addr.typ != nil {
				r.failPath("field of "+m.Name(), p.instrPos(in), s.path(), "%s replaces the map %s", m.Name(), addr.aux)
				return
			}
			if addr.op != "mapcell" {
				return
			}
			fa := mapField(addr.args[0])
			if fa == nil {
				return
			}
			r.site("change of the map", p.instrPos(in))
			use(s, fa, in)
			if same, known := sameTerm(addr.args[1], key); known && !same {
				r.failPath("stored key of "+m.Name(), p.instrPos(in), s.path(), "%s stores the container under %s instead of the key it was given", m.Name(), addr.args[1])
			}
			if !creates {
				r.failPath("change by "+m.Name(), p.instrPos(in), s.path(), "%s changes the map although it only looks up", m.Name())
			}
			if x.foundKnown(s, fa, key) != 2 {
				r.failPath("replaced by "+m.Name(), p.instrPos(in), s.path(), "%s puts a container into the map although one may be there", m.Name())
			}
			s.setT("stored", val.canon())
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && mapField(args[0]) != nil {
				r.failPath("delete by "+m.Name(), p.instrPos(c), s.path(), "%s removes a container from the map", m.Name())
			}
			return CallAction{}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			v := stripConv(res[0])
			if s.get("looked") == "" {
				// only a key that can never have a container may be refused outright
				if x.Truth(s, x.binop(s, token.EQL, key, x.tp.strT(""), types.Typ[types.Bool])) != 1 {
					r.failPath("not looked "+m.Name(), p.pos(f.Pos()), s.path(), "%s answers without having looked the key up", m.Name())
				}
				return
			}
			if st := s.getT("stored"); st != nil {
				if stripConv(st) != v {
					r.failPath("other stored "+m.Name(), p.pos(f.Pos()), s.path(), "%s returns another container than the one it stored", m.Name())
				}
				if !st.mentions(key) && !x.cellsMention(s, st, key) {
					r.failPath("made key "+m.Name(), p.pos(f.Pos()), s.path(), "%s makes the container without its key", m.Name())
				}
				return
			}
			switch x.foundKnown(s, nil, key) {
			case 1:
				if x.Nilness(s, v) == 1 || !v.mentions(key) {
					r.failPath("not returned "+m.Name(), p.pos(f.Pos()), s.path(), "%s does not return the container it found", m.Name())
				}
			case 2:
				if creates {
					r.failPath("not stored "+m.Name(), p.pos(f.Pos()), s.path(), "%s returns without having stored a container for a key that has none", m.Name())
				} else if x.Nilness(s, v) == 2 {
					r.failPath("invented "+m.Name(), p.pos(f.Pos()), s.path(), "%s returns a container for a key that has none", m.Name())
				}
			default:
				if creates {
					r.failPath("not stored "+m.Name(), p.pos(f.Pos()), s.path(), "%s may return without a container for a key that has none", m.Name())
				}
			}
		}
		x.Run(f, nil, nil)
		r.exec(x)
	}
	// the maps are made once and belong to one key space
	r.min("lookup", 6)
	r.min("read of the map", 3)
	r.min("change of the map", 3)
}

// foundKnown: what the path knows about a map lookup of the key: 1 found, 2 absent.
func (x *Exec) foundKnown(s *State, fa *Term, key *Term) int8 {
	for t, f := range s.facts {
		if !t.mentions(key) {
			continue
		}
		if strings.HasPrefix(t.op, "mapok") || t.op == "lookupok" || t.op == "ok" {
			if f.truth != 0 {
				return f.truth
			}
		}
		if t.op == "lookup" && f.nilness != 0 {
			return 3 - f.nilness
		}
	}
	return 0
}

func (x *Exec) cellsMention(s *State, obj, u *Term) bool {
	for a, v := range s.store {
		b := a
		for b.op == "fieldaddr" || b.op == "elemaddr" {
			b = b.args[0]
		}
		if b == obj && v.mentions(u) {
			return true
		}
	}
	return false
}
