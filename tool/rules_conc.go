package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C23", "a future settles once and tells the truth", ruleFuture)
	register("C24", "an event reaches every subscriber once", ruleDistribute)
	register("C25", "a data channel reports what it did", ruleDataChannel)
	register("C26", "a data map keeps and counts its entries", ruleMapSize)
}

// chanName names the channel a term denotes: its field, "timer", or "".
func chanName(t *Term) (string, *Term) {
	t = t.canon()
	if t.any(func(u *Term) bool {
		return u.op == "fieldaddr" && (u.aux == "time.Timer.C" || u.aux == "time.Ticker.C")
	}) {
		return "timer", nil
	}
	for (t.op == "load" || t.op == "reload") && len(t.args) > 0 {
		if t.args[0].op == "fieldaddr" {
			return t.args[0].aux, t.args[0].args[0]
		}
		t = t.args[0]
	}
	if c, ok := t.site.(*ssa.Call); ok {
		switch libName(&c.Call) {
		case "time.After", "time.Tick":
			return "timer", nil
		}
	}
	return "", nil
}

// observe notes the channel operations of a path: obs:<chan> what was received from, sent:<chan>
// what was sent, idle:<chan> what was found not ready.
func (x *Exec) observe() {
	dur := func(s *State, ch *Term) {
		ch.canon().any(func(u *Term) bool {
			if c, ok := u.site.(*ssa.Call); ok && len(u.args) > 0 {
				switch libName(&c.Call) {
				case "time.After", "time.Tick", "time.NewTimer", "time.NewTicker":
					s.setT("timerdur", u.args[0])
					return true
				}
			}
			return false
		})
	}
	x.H.Case = func(x *Exec, s *State, in *ssa.Select, k int, res []*Term) {
		if k < 0 {
			for _, st := range in.States {
				if n, _ := chanName(x.eval(s, st.Chan)); n != "" {
					s.set("idle:"+n, "1")
				}
			}
			return
		}
		st := in.States[k]
		ch := x.eval(s, st.Chan)
		n, _ := chanName(ch)
		if st.Dir == types.SendOnly {
			s.setT("sent:"+n, x.eval(s, st.Send))
			s.set("nsent:"+n, s.get("nsent:"+n)+"1")
			return
		}
		s.set("obs:"+n, "1")
		if n == "timer" {
			dur(s, ch)
		}
		j := 2
		for i := 0; i < k; i++ {
			if in.States[i].Dir == types.RecvOnly {
				j++
			}
		}
		s.setT("got:"+n, res[j])
	}
	x.H.Recv = func(x *Exec, s *State, ch *Term, in ssa.Instruction) {
		n, _ := chanName(ch)
		s.set("obs:"+n, "1")
		if n == "timer" {
			dur(s, ch)
		}
		s.set("recvat:"+n, fmt.Sprint(x.siteID(in)))
	}
	x.H.Send = func(x *Exec, s *State, ch, v *Term, in ssa.Instruction) {
		n, _ := chanName(ch)
		s.setT("sent:"+n, v)
		s.set("nsent:"+n, s.get("nsent:"+n)+"1")
	}
}

// soleImpl is the one type of the repository that implements an interface.
func (p *Prog) soleImpl(pkg, iface string) types.Type {
	ts := p.implementers(p.iface(pkg, iface))
	if len(ts) == 0 {
		fatalf("anchor lost: no type implements %s.%s", pkg, iface)
	}
	return ts[0]
}

func ruleFuture(p *Prog, r *Report) {
	r.rule("The goroutine that runs a future's task, and Cancel, Get, Wait and WaitFor, are followed on every path with the channels each path has closed or seen closed. The task's own result and error are stored before the done channel is closed and never after; Cancel succeeds exactly when it closed the cancel channel; Wait succeeds exactly when the done channel was seen; Get gives the stored result and error, read after the done channel was seen, or the cancelled error; WaitFor reports a timeout exactly when the timer for the given duration fired. A new future starts its task exactly once.")
	inConc := func(f *ssa.Function) bool { return pkgName(f) != "concurrency" }
	var runSites []ssa.CallInstruction
	isRun := func(c ssa.CallInstruction) bool {
		return p.isMethodCall(c.Common(), "concurrency", "Task", "Run")
	}
	closed := func(x *Exec, s *State, c ssa.CallInstruction, args []*Term) string {
		if !isCloseCall(c) {
			return ""
		}
		n, _ := chanName(args[0])
		s.set("closed:"+n, "1")
		return n
	}
	// the goroutine
	runs := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool { return isRun(c) })
	doneField, resField, errField := "", "", ""
	for _, root := range p.syncRoots(runs) {
		if pkgName(root) != "concurrency" {
			continue
		}
		x := NewExec(p)
		x.Opaque = inConc
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			if isRun(c) {
				r.site("task run", p.instrPos(c))
				runSites = append(runSites, c)
				if s.get("ran") != "" {
					r.failPath("task run twice in "+fname(root), p.instrPos(c), s.path(), "the task of a future is run twice")
				}
				s.set("ran", "1")
				return CallAction{Kind: actOpaque}
			}
			if n := closed(x, s, c, args); n != "" {
				doneField = n
				r.site("settled", p.instrPos(c))
				if s.get("ran") == "" {
					r.failPath("done before run", p.instrPos(c), s.path(), "the future is reported done before its task was run")
				}
				for _, w := range []string{"result", "error"} {
					if s.get("wrote:"+w) == "" {
						r.failPath("done without "+w, p.instrPos(c), s.path(), "the future is reported done although the %s of its task was not stored", w)
					}
				}
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if isRun(c) && len(res) == 2 {
				s.setT("res", res[0])
				s.setT("err", res[1])
			}
			if casNames[libName(c.Common())] && len(res) == 1 {
				s.setT("cas", res[0])
			}
		}
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != "fieldaddr" || addr.args[0].op == "alloc" {
				return
			}
			for k := range s.ts {
				if strings.HasPrefix(k, "closed:") {
					r.failPath("store after done "+addr.aux, p.instrPos(in), s.path(), "%s is stored after the future was reported done", addr.aux)
				}
			}
			switch {
			case s.getT("res") == nil:
			case val.canon() == s.getT("res").canon():
				s.set("wrote:result", "1")
				resField = addr.aux
			case val.canon() == s.getT("err").canon():
				s.set("wrote:error", "1")
				errField = addr.aux
			case addr.aux == resField || addr.aux == errField:
				r.failPath("other result "+addr.aux, p.instrPos(in), s.path(), "%s is not given what the task returned", addr.aux)
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 || s.get("ran") == "" || s.getT("res") == nil {
				return
			}
			done := false
			for k := range s.ts {
				done = done || strings.HasPrefix(k, "closed:")
			}
			if !done && (s.getT("cas") == nil || x.Truth(s, s.getT("cas")) != 2) {
				r.failPath("never done in "+fname(root), p.pos(root.Pos()), s.path(), "the task can end without the future being settled: whoever waits for it waits forever")
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	if doneField == "" || resField == "" || errField == "" {
		if len(r.Findings) == 0 {
			fatalf("undecided: the goroutine that settles a future was not found")
		}
		return
	}
	// Cancel
	cancelField := ""
	x := NewExec(p)
	x.Opaque = inConc
	x.observe()
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if n := closed(x, s, c, args); n != "" {
			if n == doneField {
				r.failPath("cancel closes done", p.instrPos(c), s.path(), "Cancel reports the future as done")
			} else {
				cancelField = n
			}
		}
		return CallAction{}
	}
	cancel := p.impl("concurrency", "Future", "Cancel")
	type verdict struct {
		err  *Term
		s    *State
		x    *Exec
		path []string
	}
	// Cancel is run twice: its own close tells which field means cancelled
	for pass := 0; pass < 2; pass++ {
		pass := pass
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 || pass == 0 {
				return
			}
			r.site("outcome", "Cancel")
			did := s.get("closed:"+cancelField) != ""
			switch n := x.Nilness(s, res[0]); {
			case n == 1 && !did:
				r.failPath("cancel success", p.pos(cancel.Pos()), s.path(), "Cancel reports success although it did not cancel the future")
			case n != 1 && did:
				r.failPath("cancel failure", p.pos(cancel.Pos()), s.path(), "Cancel reports an error although it cancelled the future")
			case n != 1:
				if s.get("obs:"+doneField) != "" && s.get("obs:"+cancelField) == "" && !mentionsGlobal(x, s, res[0], "concurrency.ErrFulfilled") {
					r.failPath("cancel fulfilled", p.pos(cancel.Pos()), s.path(), "Cancel on a future that is done does not report ErrFulfilled")
				}
				if s.get("obs:"+cancelField) != "" && s.get("obs:"+doneField) == "" && !mentionsGlobal(x, s, res[0], "concurrency.ErrCancelled") {
					r.failPath("cancel cancelled", p.pos(cancel.Pos()), s.path(), "Cancel on a cancelled future does not report ErrCancelled")
				}
			}
		}
		x.Run(cancel, nil, nil)
	}
	r.exec(x)
	if cancelField == "" {
		r.fail("cancel", p.pos(cancel.Pos()), "Cancel closes no channel: nobody learns of it")
		return
	}
	for _, m := range []string{"Wait", "WaitFor", "Get"} {
		m := m
		f := p.impl("concurrency", "Future", m)
		x := NewExec(p)
		x.Opaque = inConc
		x.observe()
		where := p.pos(f.Pos())
		x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "fieldaddr" && (addr.aux == resField || addr.aux == errField) && s.get("obs:"+doneField) == "" {
				r.failPath("early read of "+addr.aux+" in "+m, p.instrPos(in), s.path(), "%s is read before the future is known to be done", addr.aux)
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("outcome", m)
			done, cancelled, timer := s.get("obs:"+doneField) != "", s.get("obs:"+cancelField) != "", s.get("obs:timer") != ""
			e := res[len(res)-1]
			n := x.Nilness(s, e)
			if m == "Get" {
				switch {
				case done:
					for i, fld := range []string{resField, errField} {
						t := res[i].canon()
						if !((t.op == "load" || t.op == "reload") && len(t.args) > 0 && t.args[0].op == "fieldaddr" && t.args[0].aux == fld) {
							r.failPath("get "+fld, where, s.path(), "Get on a future that is done does not return its %s", fld)
						}
					}
				case cancelled:
					if !mentionsGlobal(x, s, e, "concurrency.ErrCancelled") || x.Nilness(s, res[0]) != 1 {
						r.failPath("get cancelled", where, s.path(), "Get on a cancelled future does not return (nil, ErrCancelled)")
					}
				default:
					r.failPath("get early", where, s.path(), "Get returns although the future is neither known to be done nor cancelled")
				}
				return
			}
			switch {
			case n == 1 && !done:
				r.failPath("success of "+m, where, s.path(), "%s reports success although the future is not known to be done", m)
			case done && !cancelled && !timer && n != 1:
				r.failPath("failure of "+m, where, s.path(), "%s reports an error although the future is done", m)
			case cancelled && !done && !timer && !mentionsGlobal(x, s, e, "concurrency.ErrCancelled"):
				r.failPath("cancelled in "+m, where, s.path(), "%s on a cancelled future does not report ErrCancelled", m)
			case timer && !done && !cancelled && !mentionsGlobal(x, s, e, "concurrency.ErrTimeout"):
				r.failPath("timeout in "+m, where, s.path(), "%s does not report ErrTimeout when the time is over", m)
			case !done && !cancelled && !timer:
				r.failPath("early "+m, where, s.path(), "%s returns although nothing has happened to the future", m)
			}
			if timer {
				d := s.getT("timerdur")
				if d == nil || len(f.Params) < 2 || d.canon() != x.Param(f.Params[1]).canon() {
					r.failPath("duration of "+m, where, s.path(), "%s does not wait for the given time", m)
				}
			}
		}
		x.Run(f, nil, nil)
		r.exec(x)
	}
	// a new future starts its task once
	nf := p.fn("concurrency", "NewFuture")
	x = NewExec(p)
	x.GoInline = true
	x.Opaque = inConc
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if isRun(c) {
			if args[0].canon() != x.Param(nf.Params[0]).canon() {
				r.failPath("other task", p.instrPos(c), s.path(), "a future runs another task than the one it was made for")
			}
			s.set("ran", s.get("ran")+"1")
			return CallAction{Kind: actOpaque}
		}
		return CallAction{}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 {
			r.site("outcome", "NewFuture")
			if n := len(s.get("ran")); n != 1 {
				r.failPath("task started", p.pos(nf.Pos()), s.path(), "a new future runs its task %d times", n)
			}
		}
	}
	x.Run(nf, nil, nil)
	r.exec(x)
	r.min("task run", 1)
	r.min("settled", 1)
	r.min("outcome", 5)
}

func ruleDataChannel(p *Prog, r *Report) {
	r.rule("Send and Receive are followed on every path with the cases of their selects. Send reports Success exactly when the given event went into the data channel, after the receiver was seen not to be closed; Closed exactly when it saw the close; Expired exactly when the timer for the channel's own expiry fired. Receive returns an event exactly when it took it from the data channel after seeing that the channel is not closed, and otherwise ErrChannelClosed after seeing that it is. Both ends of a new data channel share the same two channels and the given options.")
	send, recv, cl := p.impl("concurrency", "Sender", "Send"), p.impl("concurrency", "Receiver", "Receive"), p.impl("concurrency", "Receiver", "Close")
	st := map[string]int64{}
	for _, n := range []string{"Success", "Closed", "Expired"} {
		st[n] = constVal(p, "concurrency", n)
	}
	inConc := func(f *ssa.Function) bool { return pkgName(f) != "concurrency" }
	// which field Close closes, under which flag
	closeField, flag := "", ""
	x := NewExec(p)
	x.Opaque = inConc
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if isCloseCall(c) {
			closeField, _ = chanName(args[0])
		}
		if casNames[libName(c.Common())] && args[0].op == "fieldaddr" {
			flag = args[0].aux
		}
		return CallAction{}
	}
	x.Run(cl, nil, nil)
	if closeField == "" {
		fatalf("undecided: Close of a data channel closes no field")
	}
	al := p.chanAliases()
	isClose := func(n string) bool {
		if n == closeField {
			return true
		}
		for _, a := range al[closeField] {
			if a == n {
				return true
			}
		}
		return false
	}
	// Send
	x = NewExec(p)
	x.Opaque = inConc
	x.observe()
	where := p.pos(send.Pos())
	ev := x.Param(send.Params[len(send.Params)-1])
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("outcome", "Send")
		sawClose, idle, sent, timer := false, false, 0, s.get("obs:timer") != ""
		for k, v := range s.ts {
			switch {
			case strings.HasPrefix(k, "obs:") && isClose(k[4:]):
				sawClose = true
			case strings.HasPrefix(k, "idle:") && isClose(k[5:]):
				idle = true
			case strings.HasPrefix(k, "nsent:"):
				sent += len(v.s)
			case strings.HasPrefix(k, "sent:") && v.t.canon() != ev.canon():
				r.failPath("other event", where, s.path(), "Send puts something else than the given event into the channel")
			}
		}
		v, ok := res[0].intVal()
		if !ok {
			fatalf("undecided: the status Send returns is not a constant on some path (%s)", res[0])
		}
		switch {
		case sent > 1:
			r.failPath("sent twice", where, s.path(), "Send can put the event into the channel twice")
		case (v == st["Success"]) != (sent == 1):
			r.failPath("success", where, s.path(), "Send reports %d on a path that has put %d events into the channel", v, sent)
		case sent == 1 && !idle:
			r.failPath("sent after close", where, s.path(), "Send can put an event into a channel that is already closed and report success")
		case sent == 0 && v == st["Closed"] && !sawClose:
			r.failPath("closed", where, s.path(), "Send reports that the channel is closed although it did not see that")
		case sent == 0 && v == st["Expired"] && (!timer || sawClose):
			r.failPath("expired", where, s.path(), "Send reports that the time is over although that is not what it saw")
		case sent == 0 && v != st["Closed"] && v != st["Expired"]:
			r.failPath("status", where, s.path(), "Send reports an unknown status %d", v)
		}
		if timer {
			d := s.getT("timerdur")
			if d == nil || !d.any(func(u *Term) bool { return u.op == "fieldaddr" }) {
				r.failPath("expiry", where, s.path(), "Send does not wait for the expiry time of its channel")
			}
		}
	}
	x.Run(send, nil, nil)
	r.exec(x)
	// Receive
	x = NewExec(p)
	x.Opaque = inConc
	x.observe()
	where2 := p.pos(recv.Pos())
	setTo := p.flagValue(flag)
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		n := libName(c.Common())
		if len(res) == 1 && len(args) > 0 && args[0].op == "fieldaddr" && args[0].aux == flag && strings.Contains(n, "sync/atomic.") && strings.Contains(n, "Load") {
			s.setT("flag", res[0])
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("outcome", "Receive")
		sawClose, idle, took := false, false, (*Term)(nil)
		for k, v := range s.ts {
			switch {
			case strings.HasPrefix(k, "obs:") && isClose(k[4:]):
				sawClose = true
			case strings.HasPrefix(k, "idle:") && isClose(k[5:]):
				idle = true
			case strings.HasPrefix(k, "got:") && !isClose(k[4:]):
				took = v.t
			}
		}
		if f := s.getT("flag"); f != nil {
			one := x.binop(s, token.EQL, f, x.tp.constant(constInt(setTo), f.typ), types.Typ[types.Bool])
			zero := x.binop(s, token.EQL, f, x.tp.constant(constInt(0), f.typ), types.Typ[types.Bool])
			if x.Truth(s, one) == 1 || x.Truth(s, zero) == 2 || x.Truth(s, f) == 1 {
				sawClose = true
			}
			if x.Truth(s, one) == 2 || x.Truth(s, zero) == 1 || x.Truth(s, f) == 2 {
				idle = true
			}
		}
		n := x.Nilness(s, res[1])
		switch {
		case took != nil && (n != 1 || res[0].canon() != took.canon()):
			r.failPath("event dropped", where2, s.path(), "Receive takes an event from the channel but does not return it")
		case took != nil && !idle:
			r.failPath("event after close", where2, s.path(), "Receive can still give an event from the buffer after the channel was closed")
		case took == nil && n == 1:
			r.failPath("no event", where2, s.path(), "Receive returns without an error although it took no event")
		case took == nil && !sawClose:
			r.failPath("closed early", where2, s.path(), "Receive gives up although the channel is not known to be closed")
		case took == nil && !mentionsGlobal(x, s, res[1], "concurrency.ErrChannelClosed"):
			r.failPath("closed error", where2, s.path(), "Receive on a closed channel does not return ErrChannelClosed")
		}
	}
	x.Run(recv, nil, nil)
	r.exec(x)
	// constructors
	for _, name := range []string{"NewDataChannel", "NewDataChannelWithOption"} {
		f := p.fn("concurrency", name)
		x := NewExec(p)
		x.Opaque = inConc
		where := p.pos(f.Pos())
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("outcome", name)
			chans := [2]map[string]*Term{{}, {}}
			var expiry *Term
			for addr, v := range s.store {
				if addr.op != "fieldaddr" {
					continue
				}
				for i := range res {
					if addr.args[0] != res[i].canon() {
						continue
					}
					if v.typ != nil {
						if ct, ok := v.typ.Underlying().(*types.Chan); ok {
							chans[i][elemKind(ct)] = v.canon()
						}
						if v.typ.String() == "time.Duration" {
							expiry = v
						}
					}
				}
			}
			for _, k := range []string{"data", "close"} {
				if chans[0][k] == nil || chans[0][k] != chans[1][k] {
					r.failPath(name+" "+k, where, s.path(), "the two ends of a new data channel do not share their %s channel", k)
				} else if x.Nilness(s, chans[0][k]) == 1 {
					r.failPath(name+" "+k, where, s.path(), "a new data channel is made without its %s channel: nothing can ever pass", k)
				}
			}
			if len(f.Params) == 2 {
				size, d := x.Param(f.Params[0]), x.Param(f.Params[1])
				if expiry == nil || expiry.canon() != d {
					r.failPath(name+" expiry", where, s.path(), "a new data channel does not use the given expiry time")
				}
				if mc, ok := siteOf(chans[0]["data"]).(*ssa.MakeChan); ok {
					pos := x.Truth(s, x.binop(s, token.GTR, size, x.tp.constant(constInt(0), size.typ), types.Typ[types.Bool]))
					cp := s.getT(fmt.Sprintf("cap%d", x.siteID(mc)))
					if pos != 2 && (cp == nil || cp.canon() != size) {
						r.failPath(name+" size", where, s.path(), "a new data channel does not have the given buffer size")
					}
				}
			}
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			if mc, ok := in.(*ssa.MakeChan); ok {
				s.setT(fmt.Sprintf("cap%d", x.siteID(mc)), x.eval(s, mc.Size))
			}
		}
		x.Run(f, nil, func(s *State) {
			if len(f.Params) == 2 {
				x.addFact(s, x.Param(f.Params[0]), func(f *Fact) { f.dom, f.hasDom = ^uint64(0), true })
			}
		})
		r.exec(x)
	}
	r.min("outcome", 4)
}

func siteOf(t *Term) ssa.Instruction {
	if t == nil {
		return nil
	}
	return t.canon().site
}

func elemKind(ct *types.Chan) string {
	if types.IsInterface(ct.Elem()) {
		return "data"
	}
	return "close"
}

func ruleDistribute(p *Prog, r *Report) {
	r.rule("Publish and Remove of a topic are followed on every path, goroutines interpreted where they are started. The subscribers are visited by a Range over the subscriber map; each visit sends the published event exactly once to the subscriber visited and goes on to the next; a subscriber is noted for removal exactly when that send reported Closed. The number of deliveries is only raised when the send reported Success, and it is sent exactly once, after all visits have been waited for.")
	st := map[string]int64{}
	for _, n := range []string{"Success", "Closed", "Expired"} {
		st[n] = constVal(p, "concurrency", n)
	}
	for _, m := range []string{"Publish", "Remove"} {
		root := p.impl("concurrency", "Topic", m)
		x := NewExec(p)
		x.GoInline = true
		x.Opaque = func(f *ssa.Function) bool {
			return pkgName(f) != "concurrency" || p.isFunc([]*ssa.Function{f}, "concurrency", "NewFuture")
		}
		inVisit := func(s *State) *Frame {
			for _, fr := range s.frames {
				if fr.call != nil && libName(fr.call.Common()) == "(*sync.Map).Range" {
					return fr
				}
			}
			return nil
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			n := libName(cc)
			switch {
			case p.isMethodCall(cc, "concurrency", "Sender", "Send"):
				fr := inVisit(s)
				if fr == nil {
					fatalf("undecided: an event is sent outside of a visit of the subscribers at %s", p.instrPos(c))
				}
				r.site("delivery", p.instrPos(c))
				if s.get("sends") != "" {
					r.failPath(m+" twice", p.instrPos(c), s.path(), "an event can be sent to one subscriber twice")
				}
				s.set("sends", "1")
				if len(fr.args) > 1 && !args[0].any(func(u *Term) bool { return u == fr.args[1] }) {
					r.failPath(m+" other subscriber", p.instrPos(c), s.path(), "the event is sent to another subscriber than the one visited")
				}
				if e := s.getT("event"); e == nil {
					s.setT("event", args[1].canon())
				}
				if m == "Publish" && args[1].canon() != x.Param(root.Params[1]).canon() {
					r.failPath(m+" other event", p.instrPos(c), s.path(), "another event than the published one is sent")
				}
				return CallAction{Kind: actOpaque}
			case n == "(*sync.Map).Range":
				s.del("waited")
				s.set("visited", "1")
			case n == "(*sync.WaitGroup).Wait":
				s.set("waited", "1")
			case strings.HasPrefix(n, "sync/atomic.Add") || strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add"):
				if inVisit(s) == nil {
					break
				}
				if s.get("counted") != "" {
					r.failPath(m+" counted twice", p.instrPos(c), s.path(), "one delivery is counted twice")
				}
				s.set("counted", "1")
			case n == "(*sync.Map).Delete" && inVisit(s) != nil:
				s.set("noted", "1")
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if p.isMethodCall(c.Common(), "concurrency", "Sender", "Send") && len(res) == 1 {
				s.setT("status", res[0])
				// a status is one of the three
				x.addFact(s, res[0], func(f *Fact) {
					f.dom, f.hasDom = domBit(st["Success"])|domBit(st["Closed"])|domBit(st["Expired"]), true
				})
			}
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			// the key of the subscriber is appended to a list of keys
			c, ok := in.(*ssa.Call)
			if fr := inVisit(s); fr != nil && ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if st, ok := c.Type().Underlying().(*types.Slice); ok && types.Identical(st.Elem(), types.Typ[types.String]) {
						s.set("appended", "1")
					}
				}
			}
		}
		x.H.Send = func(x *Exec, s *State, ch, v *Term, in ssa.Instruction) {
			fr := inVisit(s)
			if fr != nil {
				if v.any(func(u *Term) bool { return u == fr.args[0] }) {
					s.set("noted", "1")
				}
				return
			}
			if b, ok := in.(*ssa.Send).X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				r.site("count reported", p.instrPos(in))
				if s.get("reported") != "" {
					r.failPath(m+" count twice", p.instrPos(in), s.path(), "the number of deliveries is reported twice: the second send never ends")
				}
				if s.get("waited") == "" {
					r.failPath(m+" count early", p.instrPos(in), s.path(), "the number of deliveries is reported before all of them have ended")
				}
				s.set("reported", "1")
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if fr.call != nil && libName(fr.call.Common()) == "(*sync.Map).Range" {
				r.site("visit", m+" "+fname(fr.fn))
				where := p.pos(fr.fn.Pos())
				if s.get("sends") == "" {
					r.failPath(m+" not sent", where, s.path(), "a subscriber can be left out: the event is not sent to it")
				}
				if b, ok := res[0].boolVal(); !ok || !b {
					r.failPath(m+" visits end", where, s.path(), "the visit of one subscriber can keep the remaining ones from getting the event")
				}
				if t := s.getT("status"); t != nil {
					is := func(n string) int8 {
						return x.Truth(s, x.binop(s, token.EQL, t, x.tp.constant(constInt(st[n]), t.typ), types.Typ[types.Bool]))
					}
					noted := s.get("noted") != "" || s.get("appended") != ""
					if noted && is("Closed") != 1 {
						r.failPath(m+" dropped", where, s.path(), "a subscriber is noted for removal although its channel is not known to be closed")
					}
					if !noted && is("Closed") != 2 {
						r.failPath(m+" kept", where, s.path(), "a subscriber whose channel is closed is not noted for removal")
					}
					if s.get("counted") != "" && is("Success") != 1 {
						r.failPath(m+" miscounted", where, s.path(), "a delivery is counted although it is not known to have succeeded")
					}
					if s.get("counted") == "" && is("Success") != 2 {
						r.failPath(m+" uncounted", where, s.path(), "a successful delivery is not counted")
					}
				}
				for _, k := range []string{"sends", "noted", "appended", "counted", "status"} {
					s.del(k)
				}
			}
			if len(s.frames) == 1 {
				if s.get("visited") == "" {
					r.failPath(m+" no visit", p.pos(root.Pos()), s.path(), "%s does not visit the subscribers", m)
				}
				if s.get("reported") == "" {
					r.failPath(m+" count", p.pos(root.Pos()), s.path(), "the number of deliveries is never reported: whoever waits for it waits forever")
				}
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	r.min("delivery", 1)
	r.min("visit", 2)
	r.min("count reported", 1)
}

func ruleMapSize(p *Prog, r *Report) {
	r.rule("Every method of every data map is followed on every path with the entries it adds, removes and looks up. Set stores the given value under the given key, Remove removes that key's entry unless it is known to be absent, Get and Has return what a lookup of that key found, and none of them touches another key. Len returns the length of the map, or the size counter. A size counter goes up by one exactly when an entry is added that was absent, down by one exactly when one is removed that was present, and not otherwise; presence must have been found out under the exclusive lock that is still held, or by the very operation that changed the entry.")
	for _, t := range p.implementers(p.iface("types", "DataMap")) {
		n := derefNamed(t)
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		hasSync, counter := false, ""
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if ft.String() == "sync.Map" || ft.String() == "*sync.Map" {
				hasSync = true
			}
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 || strings.HasPrefix(ft.String(), "sync/atomic.Int") || strings.HasPrefix(ft.String(), "sync/atomic.Uint") {
				counter = fieldKey(n, i)
			}
		}
		if !hasSync {
			counter = ""
		}
		for _, m := range []string{"Set", "Remove", "Get", "Has", "Len"} {
			f := p.method(t, m)
			if f == nil {
				continue
			}
			x := NewExec(p)
			x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "types" }
			where := p.pos(f.Pos())
			label := n.Obj().Name() + "." + m
			var key, value *Term
			if len(f.Params) > 1 {
				key = x.Param(f.Params[1])
			}
			if len(f.Params) > 2 {
				value = x.Param(f.Params[2])
			}
			change := func(x *Exec, s *State, op string, k, v *Term, in ssa.Instruction) {
				r.site("change of an entry", p.instrPos(in))
				if s.get("op") != "" {
					fatalf("undecided: %s changes more than one entry", label)
				}
				s.set("op", op)
				if s.get("lost") != "" {
					s.del("underlock")
				}
				switch {
				case key == nil || m != "Set" && m != "Remove":
					r.failPath(label+" change", p.instrPos(in), s.path(), "%s changes an entry", m)
				case k.canon() != key:
					r.failPath(label+" key", p.instrPos(in), s.path(), "the entry of another key is changed")
				case op == "add" && v != nil && (value == nil || v.canon() != value):
					r.failPath(label+" value", p.instrPos(in), s.path(), "another value than the given one is stored")
				case (op == "add") != (m == "Set"):
					r.failPath(label+" wrong change", p.instrPos(in), s.path(), "%s does the opposite change", m)
				}
			}
			x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
				switch i := in.(type) {
				case *ssa.Extract:
					if _, ok := i.Tuple.(*ssa.Lookup); ok {
						if t := x.eval(s, i.Tuple); t.op == "tuple" && len(t.args) == 2 && t.args[0].op == "lookup" && t.args[0].args[1].canon() == key {
							s.setT("found", t.args[0])
							s.setT("ok", t.args[1])
						}
					}
				case *ssa.MapUpdate:
					change(x, s, "add", x.eval(s, i.Key), x.eval(s, i.Value), in)
				case *ssa.Call:
					if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						change(x, s, "remove", x.eval(s, i.Call.Args[1]), nil, in)
					}
				}
			}
			x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
				cc := c.Common()
				name := libName(cc)
				if op := lockOp(cc); op != "" {
					if op == "+w" {
						s.set("locked", "1")
					} else if op == "-w" {
						s.del("locked")
						s.set("lost", "1")
					}
					return CallAction{Kind: actOpaque, Pure: true}
				}
				if len(args) > 0 && args[0].op == "fieldaddr" && args[0].aux == counter && counter != "" && strings.Contains(name, "sync/atomic.") {
					switch {
					case strings.Contains(name, ".Load") || strings.HasSuffix(name, ").Load"):
					case strings.Contains(name, "Add"):
						d, ok := args[1].intVal()
						if !ok {
							fatalf("undecided: the size changes by an unknown amount at %s", p.instrPos(c))
						}
						r.site("change of the size", p.instrPos(c))
						s.set("delta", fmt.Sprint(atoi(s.get("delta"))+d))
					default:
						r.failPath(label+" size set", p.instrPos(c), s.path(), "the size is set, not counted")
					}
				}
				if strings.HasPrefix(name, "(*sync.Map).") {
					switch op := strings.TrimPrefix(name, "(*sync.Map)."); op {
					case "Store", "LoadOrStore", "Swap", "CompareAndSwap":
						v := args[2]
						if op == "CompareAndSwap" {
							v = args[3]
						}
						change(x, s, "add", unbox(args[1]), unbox(v), c)
					case "Delete", "LoadAndDelete", "CompareAndDelete":
						change(x, s, "remove", unbox(args[1]), nil, c)
					case "Clear":
						r.failPath(label+" clear", p.instrPos(c), s.path(), "all entries are removed")
					}
				}
				return CallAction{}
			}
			x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
				switch libName(c.Common()) {
				case "(*sync.Map).Load":
					if len(res) == 2 && s.get("op") == "" {
						s.setT("present", res[1])
						s.del("lost")
						s.set("underlock", s.get("locked"))
						if key != nil && unbox(args[1]).canon() == key {
							s.setT("found", res[0])
							s.setT("ok", res[1])
						}
					}
				case "(*sync.Map).LoadOrStore", "(*sync.Map).LoadAndDelete", "(*sync.Map).Swap":
					if len(res) == 2 {
						s.setT("present", res[1])
						s.set("underlock", "1")
						s.del("lost")
					}
				}
				if n := libName(c.Common()); counter != "" && len(res) == 1 && len(args) > 0 && args[0].op == "fieldaddr" && args[0].aux == counter && strings.Contains(n, "Load") {
					s.setT("count", res[0])
				}
			}
			x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
				if addr.op == "fieldaddr" && addr.aux == counter {
					s.setT("count", val)
				}
			}
			x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
				if addr.op == "fieldaddr" && addr.aux == counter && addr.args[0].op != "alloc" {
					d := int64(0)
					if v := val.canon(); v.op == "bin" && (v.aux == "+" || v.aux == "-") {
						if k, ok := v.args[1].intVal(); ok && v.aux == "+" {
							d = k
						} else if ok {
							d = -k
						}
					}
					if d == 0 {
						r.failPath(label+" size set", p.instrPos(in), s.path(), "the size is set, not counted")
						return
					}
					r.site("change of the size", p.instrPos(in))
					s.set("delta", fmt.Sprint(atoi(s.get("delta"))+d))
				}
			}
			x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
				if len(s.frames) > 1 {
					return
				}
				r.site("method", label)
				found, okT := s.getT("found"), s.getT("ok")
				same := func(a, b *Term) bool {
					if a == nil || b == nil {
						return false
					}
					if a.canon() == b.canon() {
						return true
					}
					return x.Truth(s, a) != 0 && x.Truth(s, a) == x.Truth(s, b)
				}
				switch m {
				case "Get":
					if okT != nil && (same(res[0], found) || x.Truth(s, okT) == 2 && x.Nilness(s, res[0]) == 1) && same(res[1], okT) {
						break
					}
					r.failPath(label+" result", where, s.path(), "Get does not return what a lookup of the key found")
				case "Has":
					if !same(res[0], okT) {
						if b, isB := res[0].boolVal(); !isB || okT == nil || x.Truth(s, okT) == 0 || b != (x.Truth(s, okT) == 1) {
							r.failPath(label+" result", where, s.path(), "Has does not return whether the key was found")
						}
					}
				case "Len":
					t := res[0].canon()
					for t.op == "conv" || t.op == "convert" {
						t = t.args[0].canon()
					}
					if !(t.op == "len") && !(s.getT("count") != nil && t == s.getT("count").canon()) {
						r.failPath(label+" result", where, s.path(), "Len returns neither the length of the map nor its size counter")
					}
				}
				op, delta := s.get("op"), atoi(s.get("delta"))
				var had int8
				if t := s.getT("present"); t != nil {
					had = x.Truth(s, t)
				}
				switch {
				case op == "" && delta != 0:
					r.failPath(label+" size without entry", where, s.path(), "the size changes although no entry does")
				case op == "" && m == "Set":
					r.failPath(label+" not stored", where, s.path(), "Set does not store the entry")
				case op == "" && m == "Remove" && had != 2:
					r.failPath(label+" not removed", where, s.path(), "Remove leaves an entry that may be there")
				case counter == "":
				case op == "add" && (delta != 1 || had != 2) && (delta != 0 || had != 1):
					r.failPath(label+" size after add", where, s.path(), "an entry is stored and the size changes by %d, but that is only right if the entry was%s there before, which is not known", delta, map[bool]string{true: " not", false: ""}[delta == 1])
				case op == "remove" && (delta != -1 || had != 1) && (delta != 0 || had != 2):
					r.failPath(label+" size after remove", where, s.path(), "an entry is removed and the size changes by %d, but that is only right if the entry was%s there before, which is not known", delta, map[bool]string{true: "", false: " not"}[delta == -1])
				case op != "" && s.get("underlock") == "":
					r.failPath(label+" unlocked", where, s.path(), "the size follows a lookup made without the lock: two callers can both count the same entry")
				}
			}
			x.Run(f, nil, nil)
			r.exec(x)
		}
	}
	r.min("method", 10)
	r.min("change of the size", 2)
	r.min("change of an entry", 2)
}

// unbox takes a value out of the interface it was put in.
func unbox(t *Term) *Term {
	for t.op == "mi" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

func atoi(s string) int64 {
	var v int64
	fmt.Sscan(s, &v)
	return v
}
