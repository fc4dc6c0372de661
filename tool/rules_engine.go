package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", "a change is recorded before it is applied", ruleLogFirst)

	register("C12", "every request is answered exactly once", ruleAnswerOnce)
}

// engineRelevant: functions on the engine's path that the rules have to see through.
func (p *Prog) engineRelevant() map[*ssa.Function]bool {
	newCmd := p.fn("command", "NewCommand")
	return p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		if p.quiet(fn) || pkgName(fn) == "container" || pkgName(fn) == "command" || pkgName(fn) == "protocol" {
			return false
		}
		cc := c.Common()
		if p.cmdMethod(c) != "" || isMarshal(libName(cc)) || (isWriterCall(libName(cc)) && pkgName(fn) == "log") {
			return true
		}
		if f := cc.StaticCallee(); f != nil && unwrap(f) == newCmd {
			return true
		}
		for _, m := range []string{"Get", "Set"} {
			if p.isMethodCall(cc, "types", "DataMap", m) {
				return true
			}
		}
		return p.isMethodCall(cc, "concurrency", "EventBus", "Publish") || p.isMethodCall(cc, "concurrency", "EventBus", "PublishWithSource") || p.isMethodCall(cc, "concurrency", "Receiver", "Receive")
	})
}

func (p *Prog) engineExec() *Exec {
	x := NewExec(p)
	rel := p.engineRelevant()
	x.Opaque = func(f *ssa.Function) bool {
		return !rel[f] || p.quiet(f) || pkgName(f) == "container" || pkgName(f) == "command" || pkgName(f) == "protocol" || pkgName(f) == "concurrency" || pkgName(f) == "replication"
	}
	return x
}

func ruleLogFirst(p *Prog, r *Report) {
	r.rule("The engine loop (the implementation of Engine.Start) is followed on every path, with the functions it calls inlined down to the marshalling of a log record and the writer of the database file. Where a command is executed, the path must know that the command is not of the modifying type, or that there is no database file, or must have marshalled a log record after the command was made and then handed bytes to the writer of the file; a failed or empty marshalling is the only other licence. A record written from a new goroutine does not count.")
	r.assume("what the operating system does with bytes handed to the file is not decided")
	modify := constVal(p, "command", "ModifyCommandType")
	start := p.impl("db", "Engine", "Start")
	newCmd := p.fn("command", "NewCommand")
	x := p.engineExec()
	nExec := 0
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		name := libName(cc)
		if len(callees) == 1 && callees[0] == newCmd {
			s.del("marshal")
			s.del("written")
			s.del("licence")
			return CallAction{Kind: actOpaque}
		}
		if p.cmdMethod(c) == "Execute" {
			nExec++
			r.site("execution of a command", p.instrPos(c))
			ty := x.tp.mk("pure", ".Type", p.named("command", "CommandType"), args[0].canon())
			cond := x.binop(s, token.EQL, ty, x.tp.constant(constInt(modify), p.named("command", "CommandType")), types.Typ[types.Bool])
			if x.Truth(s, cond) != 2 && s.get("written") == "" && !x.noFile(s) && !x.marshalFailed(s) {
				r.failPath("execute before log in "+fname(c.Parent()), p.instrPos(c), s.path(), "a modifying command is executed here although its record was not handed to the database file before")
			}
		}
		if isMarshal(name) {
			s.set("marshal", "1")
		}
		if isWriterCall(name) && s.get("marshal") != "" && pkgName(c.Parent()) == "log" {
			s.set("written", "1")
			r.site("write of a record", p.instrPos(c))
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if isMarshal(libName(c.Common())) && len(res) == 2 {
			s.setT("m0", res[0])
			s.setT("m1", res[1])
		}
	}
	x.Run(start, nil, nil)
	r.exec(x)
	r.min("execution of a command", 1)
	r.min("write of a record", 1)
	p.classification(r, modify)
}

// classification: every command that can change a container is of the modifying type.
func (p *Prog) classification(r *Report, modify int64) {
	r.rule("For each command name the life of the command is followed on every path: a path on which a container operation that can change the container is called on the access object, or on which the command asks for the container to be created, must be one on which the command's type is the modifying one. Whether an operation can change the container is computed by a mutation analysis of the container package (stores, map updates, deletes and library mutators on memory reachable from the receiver, closed over the call graph).")
	for i := range cmdSpecs {
		sp := cmdSpecs[i]
		p.life(r, &sp.name, lifeHooks{
			call: func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) {
				if s.get("stage") != "Execute" {
					return
				}
				m, on := containerOp(x, s, c, callees, args)
				if m == "" || !on || !p.mayMutateVia(callees) {
					return
				}
				r.site("changing operation of", sp.name)
				if v, ok := s.getT("r:Type").intVal(); !ok || v != modify {
					r.failPath(sp.name+" type", p.instrPos(c), s.path(), "command %q changes its container here, but is not of the modifying type: it is executed without a record", sp.name)
				}
			},
		}, func(x *Exec, s *State, l *Life) {
			if !l.created {
				return
			}
			r.site("classified command", sp.name)
			if l.create != 2 && l.typ != modify {
				r.failPath(sp.name+" create", "pkg/command", l.path, "command %q has its container created, but is not of the modifying type: the creation leaves no record", sp.name)
			}
		})
	}
	r.min("classified command", len(cmdSpecs))
	r.min("changing operation of", 15)
}

func methodName(cc *ssa.CallCommon) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return unwrap(f).Name()
	}
	return ""
}

// noFile: the path knows that there is no database file.
func (x *Exec) noFile(s *State) bool {
	for t, f := range s.facts {
		if f.nilness == 1 && t.typ != nil && x.p.isNamedType(t.typ, "log", "PersistentFile") {
			return true
		}
	}
	return false
}

// marshalFailed: the record of this command could not be marshalled, or was empty.
func (x *Exec) marshalFailed(s *State) bool {
	if s.get("marshal") == "" {
		return false
	}
	if e := s.getT("m1"); e != nil && x.Nilness(s, e) == 2 {
		return true
	}
	if m := s.getT("m0"); m != nil {
		if d, ok := x.domain(s, x.tp.mk("len", "", types.Typ[types.Int], m)); ok && d == domBit(0) {
			return true
		}
	}
	return false
}

// ---- C12 ----

func ruleAnswerOnce(p *Prog, r *Report) {
	r.rule("The engine loop is followed on every path. Between two calls of Receive (or the end of the loop) a received request is answered by exactly one publication on the response topic, whose data map was made after the request was taken and has been given the id of the request and a response on every path; the only licences for no answer are a Receive error, an event carrying an error, event data that is no data map, or a data map without a proper id or request entry. A request whose content is not a command is not a licence. The loop ends only on a path that knows that its topic was removed or its channel closed, or that has received a stop.")
	start := p.impl("db", "Engine", "Start")
	x := p.engineExec()
	x.observe()
	check := func(x *Exec, s *State, where string) {
		if s.get("taken") == "" {
			return
		}
		if s.get("answered") == "" && !x.malformedEvent(s) {
			r.failPath("unanswered "+where, where, s.path(), "a request can be taken from the bus without any answer being published")
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		if p.isMethodCall(cc, "concurrency", "Receiver", "Receive") {
			r.site("take", p.instrPos(c))
			check(x, s, "engine loop")
			s.del("taken")
			s.del("answered")
			s.del("event")
			s.del("err")
			s.set("taken", "1")
			for k := range s.ts {
				if strings.HasPrefix(k, "map") || strings.HasPrefix(k, "made") {
					s.del(k)
				}
			}
			return CallAction{Kind: actOpaque}
		}
		if p.isMethodCall(cc, "concurrency", "EventBus", "Publish") || p.isMethodCall(cc, "concurrency", "EventBus", "PublishWithSource") {
			topic, ok := args[1].strVal()
			if !ok {
				fatalf("undecided: publication on an unknown topic at %s", p.instrPos(c))
			}
			if topic == "response" {
				r.site("answer", p.instrPos(c))
				if s.get("answered") != "" {
					r.failPath("answered twice", p.instrPos(c), s.path(), "a second answer is published for one request")
				}
				s.set("answered", "1")
				data := args[2].canon()
				if methodName(cc) == "PublishWithSource" {
					data = args[3].canon()
				}
				if m := data.canon(); m.site != nil && s.get(fmt.Sprintf("made%d", x.siteID(m.site))) == "" {
					r.failPath("answer shared", p.instrPos(c), s.path(), "the map published as the answer was made before the request was taken: answers still under way share it and can reach the wrong client")
				}
				id, resp := s.ts[fmt.Sprintf("map%d.id", data.id)].t, s.ts[fmt.Sprintf("map%d.response", data.id)].t
				if id == nil || !id.any(func(u *Term) bool {
					if u.op != "pure" || u.aux != ".Get#0" || len(u.args) != 2 {
						return false
					}
					k, ok := u.args[1].strVal()
					return ok && k == "id" && s.getT("event") != nil && u.mentions(s.getT("event"))
				}) {
					r.failPath("answer id", p.instrPos(c), s.path(), "the answer is published without the id of the request it belongs to")
				}
				if resp == nil {
					r.failPath("answer content", p.instrPos(c), s.path(), "the answer is published without a response")
				}
			}
			return CallAction{Kind: actOpaque}
		}
		if p.isMethodCall(cc, "types", "DataMap", "Set") && len(args) == 3 {
			if k, ok := args[1].strVal(); ok {
				s.setT(fmt.Sprintf("map%d.%s", args[0].canon().id, k), args[2].canon())
			}
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if p.isMethodCall(c.Common(), "concurrency", "Receiver", "Receive") && len(res) == 2 {
			s.setT("event", res[0])
			s.setT("err", res[1])
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 {
			check(x, s, "end of the engine loop")
			if !x.toldToStop(s) {
				r.failPath("loop ends", p.pos(start.Pos()), s.path(), "the engine can end although neither its topic was removed, its channel closed, nor a stop requested: no later request is answered")
			}
		}
	}
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		switch in.(type) {
		case *ssa.Alloc, *ssa.Call, *ssa.MakeMap:
			if s.get("taken") != "" {
				s.set(fmt.Sprintf("made%d", x.siteID(in)), "1")
			}
		}
	}
	x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
		for _, f := range callees {
			for g := range p.reach(false, f) {
				for _, k := range callsOf(g) {
					if g.Pkg != nil && pkgName(g) == "db" && p.isMethodCall(k.Common(), "concurrency", "EventBus", "Publish") {
						fatalf("undecided: answers are published from another goroutine at %s", p.instrPos(c))
					}
				}
			}
		}
	}
	x.Run(start, nil, nil)
	r.exec(x)
	r.min("take", 1)
	r.min("answer", 1)
}

// malformedEvent: what was taken is not a request a connection has published.
func (x *Exec) malformedEvent(s *State) bool {
	if e := s.getT("err"); e != nil && x.Nilness(s, e) == 2 {
		return true
	}
	ev := s.getT("event")
	if ev == nil {
		return false
	}
	for t, f := range s.facts {
		if !t.mentions(ev) {
			continue
		}
		if t.op == "pure" && t.aux == ".Error" && f.nilness == 2 {
			return true
		}
		if t == ev && f.nilness == 1 {
			return true
		}
		if t.op == "pure" && t.aux == ".Data" && f.nilness == 1 {
			return true
		}
		if f.truth == 2 && t.op == "pure" && t.aux == ".Get#1" {
			return true
		}
		if f.truth == 2 && t.op == "ok" && (t.aux == "string" || strings.HasSuffix(t.aux, "types.DataMap")) {
			return true
		}
	}
	return false
}

// toldToStop: the path knows that nothing more will come, or has received a stop.
func (x *Exec) toldToStop(s *State) bool {
	for t, f := range s.facts {
		if f.truth == 1 && t.any(func(u *Term) bool {
			return u.op == "global" && (strings.HasSuffix(u.aux, ".ErrChannelClosed") || strings.HasSuffix(u.aux, ".ErrTopicRemoved"))
		}) {
			return true
		}
	}
	for k := range s.ts {
		if strings.HasPrefix(k, "obs:") {
			return true
		}
	}
	return false
}
