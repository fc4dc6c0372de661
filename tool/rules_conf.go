package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "what is configured takes effect", ruleConfigured)
}

func isMasterT(p *Prog, t types.Type) bool {
	return t != nil && p.isNamedType(t, "replication", "Master")
}

func isFileT(p *Prog, t types.Type) bool {
	return t != nil && p.isNamedType(t, "log", "PersistentFile")
}

// confField: the term is the setting of that name.
func confField(t *Term, name string) bool {
	t = t.canon()
	for t.op == "load" || t.op == "reload" || (t.op == "chg" || t.op == "conv") && len(t.args) == 1 {
		t = t.args[0].canon()
	}
	return (t.op == "fieldaddr" || t.op == "field") && strings.HasSuffix(t.aux, "Config."+name)
}

func ruleConfigured(p *Prog, r *Report) {
	r.rule("The functions by which settings reach the parts that work with them are followed on every path. Init must listen on the configured port, and must give the engine the port for replicas if and only if replication is enabled: the one configured where it is usable, another than the server's own otherwise. NewEngine must keep a master that listens on the port given, if the port is positive, and none otherwise; Start of the engine must start the master it has before it takes requests, and Start of the master must lead to its accept loop in a goroutine. SetFile of the engine must keep a writer of exactly the file given, and hand that writer and the path to the master if there is one; SetFile of the master must keep both. The topics the engine and the server subscribe to are those the other side publishes on, and exist before.")
	p.confEngine(r)
	p.confMaster(r)
	p.confInit(r)
	p.confTopics(r)
}

func (p *Prog) confEngine(r *Report) {
	mk := func() *Exec {
		x := NewExec(p)
		x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "db" }
		return x
	}
	newPF := p.fn("log", "NewPersistentFile")
	newM := p.fn("replication", "NewMaster")
	receiverOf := func(f *ssa.Function, x *Exec) *Term { return x.Param(f.Params[0]) }

	// SetFile
	set := p.impl("db", "Engine", "SetFile")
	x := mk()
	recv := receiverOf(set, x)
	file, path := x.Param(set.Params[1]), x.Param(set.Params[2])
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && isMasterT(p, val.typ) {
			s.setT("master", val)
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && addr.args[0].canon() == recv && isFileT(p, val.typ) {
			s.setT("kept", val.canon())
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) == 1 && callees[0] == newPF {
			if args[0].canon() == file {
				s.set("ofgiven", "1")
			} else {
				r.failPath("writer of another file", p.instrPos(c), s.path(), "the writer of the database file is made for %s, not for the file given", args[0])
			}
		}
		if p.isMethodCall(c.Common(), "replication", "Master", "SetFile") {
			r.site("file given to the master", p.instrPos(c))
			s.set("given", "1")
			if k := s.getT("writer"); k == nil || args[1].canon() != k {
				r.failPath("other file for master", p.instrPos(c), s.path(), "the master is given %s, not the writer the engine uses", args[1])
			}
			if args[2].canon() != path {
				r.failPath("other path for master", p.instrPos(c), s.path(), "the master is given the path %s, not that of the file", args[2])
			}
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if len(callees) == 1 && callees[0] == newPF && s.get("ofgiven") != "" {
			s.setT("writer", res[0].canon())
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || x.Nilness(s, file) == 1 {
			return
		}
		r.site("end of SetFile", "")
		if k := s.getT("kept"); k == nil || k != s.getT("writer") {
			r.failPath("file not kept", p.pos(set.Pos()), s.path(), "SetFile can return without the engine having a writer for the file: nothing would be recorded")
		}
		if m := s.getT("master"); s.get("given") == "" && (m == nil || x.Nilness(s, m) != 1) {
			r.failPath("master without file", p.pos(set.Pos()), s.path(), "SetFile can return without the master having the file: no replica would get it")
		}
	}
	x.Run(set, nil, nil)
	r.exec(x)

	// NewEngine
	ne := p.fn("db", "NewEngine")
	x = mk()
	port := x.Param(ne.Params[0])
	positive := func(s *State) int8 {
		return x.Truth(s, x.binop(s, token.GTR, port, x.tp.intT(0), types.Typ[types.Bool]))
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) == 1 && callees[0] == newM {
			r.site("master made", p.instrPos(c))
			if positive(s) != 1 {
				r.failPath("unasked master", p.instrPos(c), s.path(), "a master is made although the port given may not be positive")
			}
			if v := x.portOf(s, args[0]); v == nil || stripConv(v) != port {
				r.failPath("other port", p.instrPos(c), s.path(), "the master is made for port %s, not for the port given", v)
			}
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if len(callees) == 1 && callees[0] == newM {
			s.setT("made", res[0].canon())
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && strings.HasPrefix(addr.aux, "db.") && isMasterT(p, val.typ) {
			s.setT("kept", val.canon())
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		if x.Nilness(s, res[0]) == 1 {
			for t, f := range s.facts {
				if f.nilness == 2 && t.typ != nil && types.Identical(t.typ, errType()) {
					return
				}
			}
			r.failPath("no engine", p.pos(ne.Pos()), s.path(), "NewEngine can give no engine although nothing has failed")
			return
		}
		for t, f := range s.facts {
			if f.nilness == 2 && t.typ != nil && types.Identical(t.typ, errType()) {
				r.failPath("failed engine", p.pos(ne.Pos()), s.path(), "NewEngine gives an engine although a step has failed")
			}
		}
		r.site("engine made", "")
		if positive(s) == 2 {
			return
		}
		if k := s.getT("kept"); s.getT("made") == nil || k != s.getT("made") {
			r.failPath("master not kept", p.pos(ne.Pos()), s.path(), "NewEngine can give an engine without a master although a port for replicas was given")
		}
	}
	x.Run(ne, nil, nil)
	r.exec(x)

	// Start
	start := p.impl("db", "Engine", "Start")
	x = p.engineExec()
	op := x.Opaque
	leads := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		return p.isMethodCall(c.Common(), "replication", "Master", "Start")
	})
	x.Opaque = func(f *ssa.Function) bool { return op(f) && !(pkgName(f) == "db" && leads[f]) }
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && isMasterT(p, val.typ) {
			s.setT("master", val)
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if p.isMethodCall(c.Common(), "replication", "Master", "Start") {
			r.site("master started", p.instrPos(c))
			s.set("mstarted", "1")
		}
		if p.isMethodCall(c.Common(), "concurrency", "Receiver", "Receive") {
			r.site("requests taken", p.instrPos(c))
			if m := s.getT("master"); s.get("mstarted") == "" && (m == nil || x.Nilness(s, m) != 1) {
				r.failPath("master not started", p.instrPos(c), s.path(), "the engine takes requests although its master may not have been started: no replica could reach it")
			}
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.Run(start, nil, nil)
	r.exec(x)
	r.min("file given to the master", 1)
	r.min("end of SetFile", 1)
	r.min("master made", 1)
	r.min("engine made", 1)
	r.min("master started", 1)
	r.min("requests taken", 1)
}

// portOf: the port of the network address a term points to.
func (x *Exec) portOf(s *State, addr *Term) *Term {
	a := stripConv(addr)
	if a.typ == nil {
		return nil
	}
	n := derefNamed(a.typ)
	if n == nil {
		return nil
	}
	if st, ok := n.Underlying().(*types.Struct); !ok || !hasField(st, "Port") {
		return nil
	}
	return x.field(s, a, n, "Port")
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

// accepts: the functions in which a connection is accepted, with all that leads to them synchronously.
func (p *Prog) accepts() map[*ssa.Function]bool {
	return p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		if _, ok := c.(*ssa.Go); ok {
			return false
		}
		switch libName(c.Common()) {
		case "(net.Listener).Accept", "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP":
			return true
		}
		return false
	})
}

func (p *Prog) confMaster(r *Report) {
	// Start
	acc := p.accepts()
	start := p.impl("replication", "Master", "Start")
	spawned := false
	for f := range p.reach(false, start) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				for _, k := range p.callees(g) {
					if acc[k] {
						r.site("accept loop of the master", p.instrPos(g))
						spawned = true
					}
				}
			}
		}
	}
	if !spawned {
		r.fail("master accepts nothing", p.pos(start.Pos()), "starting the master does not lead to a goroutine that accepts replicas")
	}
	x := NewExec(p)
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "replication" }
	x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
		for _, k := range callees {
			if acc[k] {
				s.set("spawned", "1")
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 && s.get("spawned") == "" && !s.lostCAS(x) {
			r.failPath("master not accepting", p.pos(start.Pos()), s.path(), "starting the master can end without a goroutine that accepts replicas")
		}
	}
	x.H.After = noteCAS
	x.Run(start, nil, nil)
	r.exec(x)

	// the goroutine gets to the accept call
	for f := range acc {
		if !p.isSpawned(f) || pkgName(f) != "replication" {
			continue
		}
		x := NewExec(p)
		x.Opaque = func(g *ssa.Function) bool { return !acc[g] }
		x.H.After = noteCAS
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			switch libName(c.Common()) {
			case "(net.Listener).Accept", "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP":
				r.site("replicas accepted", p.instrPos(c))
				s.set("accepted", "1")
			}
			return CallAction{}
		}
		g := f
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) == 1 && s.get("accepted") == "" && !s.lostCAS(x) && !shutDown(x, s) {
				r.failPath("no accept", p.pos(g.Pos()), s.path(), "the goroutine of the master can end without having accepted replicas, although the master was neither started before nor stopped")
			}
		}
		x.Run(f, nil, nil)
		r.exec(x)
	}
	r.min("replicas accepted", 1)

	// SetFile
	set := p.impl("replication", "Master", "SetFile")
	x = NewExec(p)
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "replication" }
	recv := x.Param(set.Params[0])
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != "fieldaddr" || addr.args[0].canon() != recv {
			return
		}
		for _, q := range set.Params[1:] {
			if types.Identical(val.typ, q.Type()) {
				if val.canon() == x.Param(q) {
					s.set("kept "+q.Name(), addr.aux)
				} else {
					r.failPath("other "+q.Name(), p.instrPos(in), s.path(), "SetFile of the master keeps %s instead of what it was given", val)
				}
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("file kept by the master", "")
		for _, q := range set.Params[1:] {
			if s.get("kept "+q.Name()) == "" {
				r.failPath("not kept "+q.Name(), p.pos(set.Pos()), s.path(), "SetFile of the master can return without having kept its %s", q.Name())
			}
		}
	}
	x.Run(set, nil, nil)
	r.exec(x)
	r.min("file kept by the master", 1)

	// NewMaster
	nm := p.fn("replication", "NewMaster")
	x = NewExec(p)
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "replication" }
	addr := x.Param(nm.Params[0])
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if strings.HasPrefix(libName(c.Common()), "net.Listen") {
			r.site("master listens", p.instrPos(c))
			ok := false
			for _, a := range args {
				if stripConv(a) == addr || a.mentions(addr) {
					ok = true
				}
			}
			if !ok {
				r.failPath("listens elsewhere", p.instrPos(c), s.path(), "the master does not listen on the address given")
			}
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if strings.HasPrefix(libName(c.Common()), "net.Listen") && len(res) == 2 {
			s.setT("l", res[0].canon())
			s.setT("lerr", res[1])
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if l := s.getT("l"); l != nil && addr.op == "fieldaddr" && stripConv(val) == stripConv(l) {
			s.set("keptl", "1")
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		v := stripConv(res[0])
		switch {
		case v.isNil() || x.Nilness(s, v) == 1:
			if e := s.getT("lerr"); x.Nilness(s, addr) != 1 && (e == nil || x.Nilness(s, e) != 2) {
				r.failPath("no master", p.pos(nm.Pos()), s.path(), "NewMaster can give no master although it has an address and nothing has failed")
			}
		case s.get("keptl") == "" || x.Nilness(s, s.getT("lerr")) != 1:
			r.failPath("deaf master", p.pos(nm.Pos()), s.path(), "NewMaster can give a master without a working listener")
		default:
			r.site("master ready", "")
		}
	}
	x.Run(nm, nil, nil)
	r.exec(x)
	r.min("master listens", 1)
	r.min("master ready", 1)
}

// noteCAS remembers the outcomes of compare-and-swaps.
func noteCAS(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
	if casNames[libName(c.Common())] && len(res) == 1 {
		s.setT("cas", res[0])
	}
	if strings.HasPrefix(libName(c.Common()), "sync/atomic.Load") || strings.HasSuffix(libName(c.Common()), ").Load") {
		s.setT("flag", res[0])
		s.del("flagkey")
		if len(args) > 0 && args[0].op == "fieldaddr" {
			s.set("flagkey", args[0].aux)
		}
	}
}

// flagValue is the value that an atomic flag gets when it is set: the only constant but zero that is stored in it.
func (p *Prog) flagValue(key string) int64 {
	vals := map[int64]bool{}
	for _, f := range p.Funcs {
		for _, c := range callsOf(f) {
			n := libName(c.Common())
			as := c.Common().Args
			if !strings.Contains(n, "sync/atomic.") || len(as) < 2 {
				continue
			}
			if fa, ok := as[0].(*ssa.FieldAddr); ok && fieldKey(fa.X.Type(), fa.Field) == key {
				k, isC := as[len(as)-1].(*ssa.Const)
				if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
					return 1
				}
				if v, exact := constant.Int64Val(k.Value); exact && v != 0 {
					vals[v] = true
				}
			}
		}
	}
	if len(vals) == 1 {
		for v := range vals {
			return v
		}
	}
	return 1
}

func (s *State) lostCAS(x *Exec) bool {
	t := s.getT("cas")
	return t != nil && x.Truth(s, t) == 2
}

// shutDown: the path has read a flag that is set.
func shutDown(x *Exec, s *State) bool {
	t := s.getT("flag")
	if t == nil {
		return false
	}
	if b, ok := t.typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return x.Truth(s, t) == 1
	}
	return x.Truth(s, x.binopEq(t, x.tp.intT(0))) == 2 || x.Truth(s, x.binopEq(t, x.tp.intT(x.p.flagValue(s.get("flagkey"))))) == 1
}

func (p *Prog) confInit(r *Report) {
	init := p.impl("network", "Server", "Init")
	ne := p.fn("db", "NewEngine")
	x := NewExec(p)
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "network" }
	conf := init.Params[len(init.Params)-1]
	setting := func(s *State, name string) *Term {
		st, ok := conf.Type().Underlying().(*types.Struct)
		for i := 0; ok && i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.fieldOf(s, x.Param(conf), conf.Type(), i)
			}
		}
		fatalf("anchor lost: setting %s", name)
		return nil
	}
	rel := func(s *State, op token.Token, a, b *Term) int8 {
		return x.Truth(s, x.binop(s, op, a, b, types.Typ[types.Bool]))
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		where := p.instrPos(c)
		if strings.HasPrefix(libName(c.Common()), "net.Listen") {
			r.site("server listens", where)
			s.set("listens", "1")
			ok := false
			for _, a := range args {
				if v := x.portOf(s, a); v != nil && confField(v, "Port") {
					ok = true
				}
			}
			if libName(c.Common()) != "net.ListenTCP" {
				fatalf("undecided: Init listens through %s", libName(c.Common()))
			}
			if !ok {
				r.failPath("server port", where, s.path(), "the server does not listen on the configured port")
			}
		}
		if len(callees) == 1 && callees[0] == ne {
			r.site("engine made by Init", where)
			v := stripConv(args[0])
			usable := int8(0)
			rp, own := setting(s, "ReplicaPort"), setting(s, "Port")
			if rel(s, token.LEQ, rp, x.tp.intT(0)) == 1 || rel(s, token.EQL, rp, own) == 1 || rel(s, token.EQL, own, rp) == 1 {
				usable = 2
			} else if rel(s, token.LEQ, rp, x.tp.intT(0)) == 2 && (rel(s, token.EQL, rp, own) == 2 || rel(s, token.EQL, own, rp) == 2) {
				usable = 1
			}
			k, isConst := v.intVal()
			switch x.Truth(s, setting(s, "EnableReplica")) {
			case 2:
				if !(isConst && k <= 0) {
					r.failPath("replication unasked", where, s.path(), "the engine is made with port %s for replicas although replication is not enabled", v)
				}
			case 1:
				switch {
				case confField(v, "ReplicaPort"):
					if usable != 1 {
						r.failPath("replica port unusable", where, s.path(), "the engine is made with the configured port for replicas although that may be no port, or the server's own")
					}
				case isConst && k <= 0:
					r.failPath("replication off", where, s.path(), "replication is enabled, but the engine is made without a port for replicas")
				default:
					if usable != 2 {
						r.failPath("replica port ignored", where, s.path(), "the engine is made with port %s although the configured port for replicas may be usable", v)
					}
					l := linOf(v)
					differs := len(l.m) == 1 && l.c != 0
					for t := range l.m {
						differs = differs && confField(t, "Port")
					}
					if !differs && !isConst {
						r.failPath("replica port same", where, s.path(), "the engine is made with port %s, which is not known to differ from the server's own", v)
					}
				}
			default:
				r.failPath("replication unknown", where, s.path(), "the engine is made although the path does not know whether replication is enabled")
			}
		}
		return CallAction{}
	}
	x.Run(init, nil, nil)
	r.exec(x)
	r.min("server listens", 1)
	r.min("engine made by Init", 1)
}

// confTopics: both sides talk on the same topics.
func (p *Prog) confTopics(r *Report) {
	pub := map[string]map[string]string{"network": {}, "db": {}}
	sub := map[string]map[string]string{"network": {}, "db": {}}
	for _, f := range p.Funcs {
		k := pkgName(f)
		if pub[k] == nil {
			continue
		}
		for _, c := range callsOf(f) {
			for _, m := range []string{"Publish", "PublishWithSource", "Subscribe", "SubscribeWithOptions"} {
				if !p.isMethodCall(c.Common(), "concurrency", "EventBus", m) {
					continue
				}
				a := c.Common().Args
				if !c.Common().IsInvoke() {
					a = a[1:]
				}
				for _, n := range constStrings(p, a[0], 3) {
					if strings.HasPrefix(m, "Pub") {
						pub[k][n] = p.instrPos(c)
					} else {
						sub[k][n] = p.instrPos(c)
					}
				}
			}
		}
	}
	other := map[string]string{"network": "db", "db": "network"}
	for k, m := range pub {
		for n, where := range m {
			r.site("topic published on", n+" "+where)
			if sub[other[k]][n] == "" {
				r.fail("nobody listens to "+n, where, "what is published here on topic %q is not subscribed to by package %s", n, other[k])
			}
		}
	}
	for k, m := range sub {
		for n, where := range m {
			r.site("topic subscribed to", n+" "+where)
			if pub[other[k]][n] == "" {
				r.fail("nobody talks on "+n, where, "topic %q is subscribed to here, but package %s never publishes on it", n, other[k])
			}
		}
	}
	r.min("topic published on", 2)
	r.min("topic subscribed to", 2)
	// topics exist before they are subscribed to
	init := p.impl("network", "Server", "Init")
	ne := p.fn("db", "NewEngine")
	x := NewExec(p)
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "network" }
	need := func(x *Exec, s *State, c ssa.CallInstruction, n string) {
		r.site("topic needed", n+" "+p.instrPos(c))
		if s.get("topic "+n) == "" {
			r.failPath("no topic "+n, p.instrPos(c), s.path(), "topic %q is not made before it is subscribed to here", n)
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) == 1 && callees[0] == ne {
			for n := range sub["db"] {
				need(x, s, c, n)
			}
		}
		for _, m := range []string{"NewTopic", "Subscribe", "SubscribeWithOptions"} {
			if p.isMethodCall(c.Common(), "concurrency", "EventBus", m) {
				n, ok := args[1].strVal()
				if !ok {
					continue
				}
				if m == "NewTopic" {
					s.set("topic "+n, "1")
				} else {
					need(x, s, c, n)
				}
			}
		}
		return CallAction{}
	}
	x.Run(init, nil, nil)
	r.exec(x)
	r.min("topic needed", 2)
}

// constStrings: the texts a value can be, followed through parameters.
func constStrings(p *Prog, v ssa.Value, depth int) []string {
	switch y := v.(type) {
	case *ssa.Const:
		if y.Value != nil {
			return []string{constStr(y)}
		}
	case *ssa.Phi:
		var out []string
		for _, e := range y.Edges {
			if e != v && depth > 0 {
				out = append(out, constStrings(p, e, depth-1)...)
			}
		}
		return out
	case *ssa.Parameter:
		if depth == 0 {
			return nil
		}
		var out []string
		for i, q := range y.Parent().Params {
			if q != y {
				continue
			}
			for _, c := range p.callersOf(y.Parent()) {
				a := c.Instr.Common().Args
				if c.Instr.Common().IsInvoke() {
					if i == 0 {
						continue
					}
					out = append(out, constStrings(p, a[i-1], depth-1)...)
				} else if i < len(a) {
					out = append(out, constStrings(p, a[i], depth-1)...)
				}
			}
		}
		return out
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil && depth > 0 {
			var out []string
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
					out = append(out, constStrings(p, rt.Results[0], depth-1)...)
				}
			}
			return out
		}
	}
	return nil
}
