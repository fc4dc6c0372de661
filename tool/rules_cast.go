package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C32", "a broadcast message reaches everyone", ruleBroadcast)
}

func ruleBroadcast(p *Prog, r *Report) {
	r.rule("Set, Get and the making of a broadcaster are followed on every path. Set stores the message it was given, then closes the channel that Get waits for; a path that does not close the channel does not touch the message and has seen that another call came first. Get receives from that channel before it reads the message, and gives the message it read. A new broadcaster has that channel.")
	inConc := func(f *ssa.Function) bool { return pkgName(f) != "concurrency" }
	msgField, doneChan := map[string]bool{}, map[string]bool{}

	set := p.impl("concurrency", "BroadCaster", "Set")
	where := p.pos(set.Pos())
	x := NewExec(p)
	x.Opaque = inConc
	x.observe()
	param := set.Params[len(set.Params)-1]
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		if cond.any(func(u *Term) bool { return u.op == "load" || u.op == "reload" || u.op == "call" }) {
			s.set("asked", "1")
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != "fieldaddr" || addr.args[0].op == "alloc" {
			return
		}
		if stripConv(val) == x.Param(param).canon() {
			r.site("message stored", p.instrPos(in))
			msgField[addr.aux] = true
			s.set("stored", "1")
		} else if msgField[addr.aux] || types.IsInterface(fieldType(addr)) {
			r.failPath("other message", p.instrPos(in), s.path(), "Set stores %s instead of the message it was given", val)
		} else {
			return
		}
		if s.get("done") != "" {
			r.failPath("late message", p.instrPos(in), s.path(), "the message is stored after those that wait for it were woken: they may read none")
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		switch {
		case libName(c.Common()) == "(*sync.Once).Do":
			s.set("asked", "1")
		case isCloseCall(c):
			n, _ := chanName(args[0])
			doneChan[n] = true
			r.site("listeners woken", p.instrPos(c))
			if s.get("stored") == "" {
				r.failPath("woken early", p.instrPos(c), s.path(), "those that wait for the message are woken before it is stored: they may read none")
			}
			s.set("done", "1")
		}
		return CallAction{}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of Set", "")
		switch {
		case s.get("done") != "":
		case s.get("stored") != "":
			r.failPath("set without waking", where, s.path(), "Set can change the message without waking those that wait for it: a later call replaces the message that others have already got")
		case s.get("asked") == "":
			r.failPath("set does nothing", where, s.path(), "Set can end without having stored the message although no other call came first")
		}
	}
	x.Run(set, nil, nil)
	r.exec(x)
	if len(doneChan) == 0 || len(msgField) == 0 {
		if len(doneChan) == 0 && len(msgField) == 0 {
			r.failPath("set does nothing", where, nil, "Set stores no message and wakes nobody")
		}
		r.site("not decided: Set does not close a channel", where)
		return
	}

	get := p.impl("concurrency", "BroadCaster", "Get")
	where = p.pos(get.Pos())
	x = NewExec(p)
	x.Opaque = inConc
	x.observe()
	woken := func(s *State) bool {
		for n := range doneChan {
			if s.get("obs:"+n) != "" {
				return true
			}
		}
		return false
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && msgField[addr.aux] {
			r.site("message read", p.instrPos(in))
			s.setT("read", val)
			if !woken(s) {
				r.failPath("read early", p.instrPos(in), s.path(), "Get reads the message without having waited for it: it may not be there yet")
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || len(res) != 1 {
			return
		}
		r.site("end of Get", "")
		if t := s.getT("read"); t == nil || stripConv(t) != stripConv(res[0]) {
			r.failPath("other result", where, s.path(), "Get gives %s instead of the message", res[0])
		}
	}
	x.Run(get, nil, nil)
	r.exec(x)

	mk := p.fn("concurrency", "NewBroadCaster")
	where = p.pos(mk.Pos())
	x = NewExec(p)
	x.Opaque = inConc
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || len(res) != 1 {
			return
		}
		o := stripConv(res[0])
		r.site("new broadcaster", where)
		if o.op != "alloc" {
			return
		}
		for a, v := range s.store {
			if a.op == "fieldaddr" && a.args[0] == o && v.typ != nil {
				if _, ok := v.typ.Underlying().(*types.Chan); ok && x.Nilness(s, v) == 2 {
					return
				}
			}
		}
		r.failPath("no channel", where, s.path(), "a new broadcaster has no channel to wait for its message")
	}
	x.Run(mk, nil, nil)
	r.exec(x)
	r.min("message stored", 1)
	r.min("message read", 1)
}

// fieldType is the type of the field that an address term names.
func fieldType(addr *Term) types.Type {
	if pt, ok := addr.typ.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return addr.typ
}
