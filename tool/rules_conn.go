package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "a connection says what happened and ends itself only when idle", ruleConn)
}

// rawWrite: the call writes to the network connection.
func rawWrite(cc *ssa.CallCommon) bool {
	switch libName(cc) {
	case "(net.Conn).Write", "(*net.TCPConn).Write", "(io.Writer).Write", "io.WriteString":
		return true
	}
	return false
}

// flagSet: the path has read an atomic flag that is set (1), or one that is not (2).
func flagSet(x *Exec, s *State) int8 {
	t := s.getT("flag")
	if t == nil {
		return 0
	}
	one := x.binop(s, token.EQL, t, x.tp.constant(constInt(x.p.flagValue(s.get("flagkey"))), t.typ), types.Typ[types.Bool])
	zero := x.binop(s, token.EQL, t, x.tp.constant(constInt(0), t.typ), types.Typ[types.Bool])
	b, isB := t.typ.Underlying().(*types.Basic)
	switch {
	case isB && b.Kind() == types.Bool:
		return x.Truth(s, t)
	case x.Truth(s, one) == 1 || x.Truth(s, zero) == 2:
		return 1
	case x.Truth(s, one) == 2 || x.Truth(s, zero) == 1:
		return 2
	}
	return 0
}

func ruleConn(p *Prog, r *Report) {
	r.rule("Read, Write, Close and IsClosed of a client connection, and the making of one together with its idle timer, are followed on every path with the cases of the selects. Read gives the very object the reader gave, without an error, exactly where the reader reported none, and an error otherwise; Write reports success only where the network connection took the text without an error, and an error where it did not; both restart the idle timer before they touch the network and give ErrConnIsClosed where they saw that the connection is closed. Close answers nil where it closed the connection and ErrConnIsClosed where it lost to another; IsClosed tells whether the flag that Close sets is set. A new connection reads from and writes to the network connection it was made for, and its timer runs from the start with the time given: while it waits a restart is taken, and begins a new full interval; only when the timer fires it closes the connection; it ends only after that or when the connection was closed.")
	const closedErr = "network.ErrConnIsClosed"
	resets := map[string]bool{}
	mk := func() *Exec {
		x := p.netExec()
		x.observe()
		return x
	}
	touched := func(s *State) bool {
		for k := range s.ts {
			if strings.HasPrefix(k, "nsent:") {
				return true
			}
		}
		return false
	}
	sawClose := func(x *Exec, s *State) bool {
		for k := range s.ts {
			if strings.HasPrefix(k, "obs:") && k != "obs:timer" {
				return true
			}
		}
		return flagSet(x, s) == 1
	}
	isReadObject := func(cc *ssa.CallCommon) bool { return p.isMethodCall(cc, "protocol", "RESPReader", "ReadObject") }

	for _, m := range []string{"Read", "Write"} {
		m := m
		f := p.impl("network", "Conn", m)
		where := p.pos(f.Pos())
		x := mk()
		io := func(cc *ssa.CallCommon) bool {
			if m == "Read" {
				return isReadObject(cc)
			}
			return rawWrite(cc)
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			if io(c.Common()) {
				r.site(m+" of the network", p.instrPos(c))
				if !touched(s) {
					r.failPath("timer in "+m, p.instrPos(c), s.path(), "%s goes to the network without having restarted the idle timer: a busy connection may be closed", m)
				}
				if s.getT("ioerr") != nil {
					r.failPath("again in "+m, p.instrPos(c), s.path(), "%s goes to the network a second time", m)
				}
				if sawClose(x, s) {
					r.failPath("closed use in "+m, p.instrPos(c), s.path(), "%s goes to the network although it saw that the connection is closed", m)
				}
				return CallAction{Kind: actOpaque}
			}
			if a, ok := errorText(x, c, args); ok && libName(c.Common()) != "" {
				return a
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			noteCAS(x, s, c, callees, args, res)
			if io(c.Common()) && len(res) == 2 {
				s.setT("iores", res[0])
				s.setT("ioerr", res[1])
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of "+m, "")
			for k := range s.ts {
				if strings.HasPrefix(k, "nsent:") {
					resets[k[6:]] = true
				}
			}
			e := res[len(res)-1]
			ioerr := s.getT("ioerr")
			switch {
			case ioerr == nil && x.Nilness(s, e) != 2:
				r.failPath("nothing done in "+m, where, s.path(), "%s can report success although it did not go to the network", m)
			case ioerr == nil && !sawClose(x, s):
				r.failPath("refused in "+m, where, s.path(), "%s can give up although nothing says that the connection is closed", m)
			case ioerr == nil && !mentionsGlobal(x, s, e, closedErr):
				r.failPath("closed error in "+m, where, s.path(), "%s on a closed connection does not give ErrConnIsClosed", m)
			case ioerr == nil:
			case e.canon() == ioerr.canon():
				if m == "Read" && res[0].canon() != s.getT("iores").canon() && x.Nilness(s, ioerr) != 2 {
					r.failPath("other object", where, s.path(), "Read gives %s, not the object that was read", res[0])
				}
			case x.Nilness(s, ioerr) == 1 && m == "Read" && (x.Nilness(s, e) != 1 || res[0].canon() != s.getT("iores").canon()):
				r.failPath("object lost", where, s.path(), "an object was read, but Read gives %s and the error %s", res[0], e)
			case x.Nilness(s, ioerr) == 1 && x.Nilness(s, e) != 1 && !shortWrite(x, s):
				r.failPath("failed in "+m, where, s.path(), "%s can report an error although everything was written", m)
			case x.Nilness(s, ioerr) != 1 && x.Nilness(s, e) != 2:
				r.failPath("error lost in "+m, where, s.path(), "%s can report success although the network may have failed", m)
			case x.Nilness(s, ioerr) == 0:
				r.failPath("unknown in "+m, where, s.path(), "%s reports an error without knowing whether there was one", m)
			}
		}
		x.Run(f, nil, nil)
		r.exec(x)
		r.min(m+" of the network", 1)
		r.min("end of "+m, 1)
	}

	// Close and IsClosed
	cl := p.impl("network", "Conn", "Close")
	flagField, flagVal := "", (*Term)(nil)
	x := mk()
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		noteCAS(x, s, c, callees, args, res)
		if casNames[libName(c.Common())] && len(args) >= 3 && args[0].op == "fieldaddr" {
			flagField, flagVal = args[0].aux, args[2]
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || s.getT("cas") == nil || len(res) != 1 {
			return
		}
		r.site("end of Close", "")
		if x.Truth(s, s.getT("cas")) == 2 && !mentionsGlobal(x, s, res[0], closedErr) {
			r.failPath("closed twice", p.pos(cl.Pos()), s.path(), "Close of a connection that is already closed does not give ErrConnIsClosed")
		}
		if x.Truth(s, s.getT("cas")) == 1 && mentionsGlobal(x, s, res[0], closedErr) {
			r.failPath("closed first", p.pos(cl.Pos()), s.path(), "Close gives ErrConnIsClosed although it was the one that closed the connection")
		}
	}
	x.Run(cl, nil, nil)
	r.exec(x)
	if flagField != "" {
		is := p.impl("network", "Conn", "IsClosed")
		x := mk()
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if n := libName(c.Common()); strings.Contains(n, "sync/atomic.") && strings.Contains(n, "Load") && len(res) == 1 {
				if args[0].op == "fieldaddr" && args[0].aux == flagField {
					s.setT("flag", res[0])
				}
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of IsClosed", "")
			fl := s.getT("flag")
			if fl == nil {
				r.failPath("closed state", p.pos(is.Pos()), s.path(), "IsClosed does not read the flag that Close sets")
				return
			}
			for _, v := range []int64{0, 1} {
				k, ok := flagVal.intVal()
				if !ok {
					return
				}
				got := evalAt(res[0], fl, constant.MakeInt64(v))
				if got == nil || got.Kind() != constant.Bool {
					if b, ok := res[0].boolVal(); ok && flagSet(x, s) != 0 {
						if b != (flagSet(x, s) == 1) {
							r.failPath("closed state", p.pos(is.Pos()), s.path(), "IsClosed says the opposite of what it saw")
						}
					} else {
						r.site("not decided", "result of IsClosed")
					}
					return
				}
				if constant.BoolVal(got) != (v == k) {
					r.failPath("closed state", p.pos(is.Pos()), s.path(), "IsClosed says %v where the flag is %d, which Close sets to %d", constant.BoolVal(got), v, k)
				}
			}
		}
		x.Run(is, nil, nil)
		r.exec(x)
	}
	p.connWorker(r, resets)
}

// shortWrite: the path knows that not everything was written.
func shortWrite(x *Exec, s *State) bool {
	n := s.getT("iores")
	for t, f := range s.facts {
		if n != nil && t.op == "cmp" && f.truth != 0 && t.mentions(n) {
			return true
		}
	}
	return false
}

func (p *Prog) connWorker(r *Report, resets map[string]bool) {
	var mkr *ssa.Function
	for _, f := range p.Funcs {
		if pkgName(f) != "network" || f.Signature.Recv() != nil || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		dur := false
		for _, q := range f.Params {
			dur = dur || strings.HasSuffix(q.Type().String(), "time.Duration")
		}
		if rs := f.Signature.Results(); dur && rs.Len() == 1 && p.isNamedType(rs.At(0).Type(), "network", "Conn") {
			mkr = f
		}
	}
	if mkr == nil {
		fatalf("anchor lost: the function that makes a connection with an expire time")
	}
	x := p.netExec()
	x.GoInline = true
	var raw, dur *Term
	for _, q := range mkr.Params {
		if isRawConn(q.Type()) {
			raw = x.Param(q)
		} else if strings.HasSuffix(q.Type().String(), "time.Duration") {
			dur = x.Param(q)
		}
	}
	if raw == nil {
		fatalf("anchor lost: the network connection a connection is made for")
	}
	isDur := func(s *State, t *Term) bool {
		t = t.canon()
		for (t.op == "load" || t.op == "reload") && len(t.args) > 0 {
			if t.args[0].op == "fieldaddr" && t.args[0].aux == s.get("durfield") {
				return true
			}
			t = t.args[0]
		}
		return t == dur
	}
	inWorker := func(s *State) bool { return s.get("worker") != "" }
	x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
		if len(callees) == 1 && p.waitsForTime(callees[0]) {
			r.site("idle timer", p.instrPos(c))
			s.set("worker", string(rune('0'+len(s.frames))))
			s.set("started", "1")
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op != "fieldaddr" || val.typ == nil {
			return
		}
		if isRawConn(val.typ) && val.canon() != raw {
			r.failPath("other connection", p.instrPos(in), s.path(), "the connection is made for %s, not for the network connection given", val)
		}
		if _, ok := val.typ.Underlying().(*types.Chan); ok {
			s.setT("chan:"+addr.aux, val.canon())
		}
		if strings.HasSuffix(val.typ.String(), "time.Duration") {
			if val.canon() == dur {
				s.set("durfield", addr.aux)
			} else {
				r.failPath("other time", p.instrPos(in), s.path(), "the connection keeps the time %s, not the one given", val)
			}
		}
	}
	arms := func(cc *ssa.CallCommon) int {
		switch libName(cc) {
		case "time.After", "time.NewTimer":
			return 0
		case "(*time.Timer).Reset":
			return 1
		}
		return -1
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		if f := cc.StaticCallee(); f != nil && f.Name() == "NewRESPReader" && len(args) == 1 {
			r.site("reader of a connection", p.instrPos(c))
			if !args[0].mentions(raw) {
				r.failPath("reads elsewhere", p.instrPos(c), s.path(), "the reader of the connection reads from %s, not from the network connection given", args[0])
			}
		}
		if i := arms(cc); i >= 0 {
			s.set("armed", "1")
			if !isDur(s, args[i]) {
				r.failPath("interval", p.instrPos(c), s.path(), "the idle timer runs for %s, not for the time given", args[i])
			}
		}
		if inWorker(s) && p.isMethodCall(cc, "network", "Conn", "Close") {
			if s.get("fired") == "" {
				r.failPath("closes busy", p.instrPos(c), s.path(), "the idle worker closes the connection although its timer has not fired")
			}
			s.set("closed", "1")
			return CallAction{Kind: actOpaque}
		}
		return CallAction{}
	}
	x.H.Case = func(x *Exec, s *State, in *ssa.Select, k int, res []*Term) {
		if !inWorker(s) {
			return
		}
		names := make([]string, len(in.States))
		timer, reset := false, false
		for i, st := range in.States {
			ch := x.eval(s, st.Chan)
			names[i], _ = chanName(ch)
			for k, v := range s.ts {
				if strings.HasPrefix(k, "chan:") && v.t == ch.canon() {
					names[i] = k[5:]
				}
			}
			timer = timer || names[i] == "timer"
			reset = reset || resets[names[i]]
		}
		if timer {
			r.site("wait of the idle worker", p.instrPos(in))
			if s.get("armed") == "" {
				r.failPath("not restarted", p.instrPos(in), s.path(), "the timer the idle worker waits for was not started anew after the last restart")
			}
			if !reset {
				r.failPath("restart not taken", p.instrPos(in), s.path(), "the idle worker waits for its timer without taking restarts")
			}
		}
		switch {
		case k < 0:
		case names[k] == "timer":
			s.set("fired", "1")
		case resets[names[k]]:
			s.del("armed")
		case names[k] != "":
			s.set("gone", "1")
		}
	}
	x.H.Recv = func(x *Exec, s *State, ch *Term, in ssa.Instruction) {
		if n, _ := chanName(ch); inWorker(s) && n == "timer" {
			s.set("fired", "1")
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if inWorker(s) && len(s.frames) == int(s.get("worker")[0]-'0')+1 {
			r.site("end of the idle worker", "")
			switch {
			case s.get("gone") != "":
			case s.get("fired") == "":
				r.failPath("worker ends", p.pos(mkr.Pos()), s.path(), "the idle worker can end although the timer has not fired and the connection is not closed: nothing would take restarts any more")
			case s.get("closed") == "":
				r.failPath("idle not closed", p.pos(mkr.Pos()), s.path(), "the idle worker can end without having closed an idle connection")
			}
			for _, k := range []string{"worker", "gone", "fired", "closed", "armed"} {
				s.del(k)
			}
		}
		if len(s.frames) == 1 && s.get("started") == "" {
			r.failPath("no timer", p.pos(mkr.Pos()), s.path(), "a connection can be made without its idle worker")
		}
	}
	x.Run(mkr, nil, nil)
	r.exec(x)
	r.min("idle timer", 1)
	r.min("wait of the idle worker", 1)
	r.min("reader of a connection", 1)
}

// waitsForTime: the function, or what it calls, receives from a channel of times.
func (p *Prog) waitsForTime(f *ssa.Function) bool {
	isTime := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && strings.HasSuffix(ch.Elem().String(), "time.Time")
	}
	for g := range p.reach(true, f) {
		if pkgName(g) != pkgName(f) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Select:
					for _, st := range i.States {
						if isTime(st.Chan.Type()) {
							return true
						}
					}
				case *ssa.UnOp:
					if i.Op == token.ARROW && isTime(i.X.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}
