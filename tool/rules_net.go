package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C17", "a stop shuts everything down before it returns", ruleShutdown)
	register("C28", "a reply goes to the client that asked, unchanged and once", ruleRoute)
	register("C31", "the server keeps accepting and serves every connection", ruleAccept)
	register("C36", "a connection that ends is closed and forgotten", ruleLeave)
}

// closedByUser: the path knows that an accept failed because the listener was closed.
func (x *Exec) listenerClosed(s *State) bool {
	for t, f := range s.facts {
		if f.truth != 1 || t.op != "pure" || len(t.args) != 2 {
			continue
		}
		switch {
		case strings.HasPrefix(t.aux, "strings.HasSuffix") || strings.HasPrefix(t.aux, "strings.Contains"):
			if k, ok := t.args[1].strVal(); ok && strings.Contains(k, "closed") {
				return true
			}
		case strings.HasPrefix(t.aux, "errors.Is"):
			if t.args[1].any(func(u *Term) bool { return u.op == "global" && strings.HasSuffix(u.aux, "net.ErrClosed") }) {
				return true
			}
		}
	}
	return false
}

func isAccept(cc *ssa.CallCommon) bool {
	switch libName(cc) {
	case "(*net.TCPListener).Accept", "(*net.TCPListener).AcceptTCP", "(net.Listener).Accept":
		return true
	}
	return false
}

func errorText(x *Exec, c ssa.CallInstruction, args []*Term) (CallAction, bool) {
	cc := c.Common()
	if cc.IsInvoke() && cc.Method.Name() == "Error" && cc.Signature().Params().Len() == 0 && cc.Signature().Results().Len() == 1 {
		return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, ".Error", args[:1])}, true
	}
	return CallAction{}, false
}

func ruleAccept(p *Prog, r *Report) {
	r.rule("Every loop that accepts connections is followed on every path. A connection that was accepted is handed to a goroutine of its own before the next accept and before the loop ends, and it is not closed by the loop. The loop only ends after the listener is known to be closed or a stop was received from a channel, and it does not accept again once the listener is known to be closed: any other accept error is survived.")
	acc := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool { return isAccept(c.Common()) })
	for _, root := range p.syncRoots(acc) {
		direct := false
		for f := range p.reach(true, root) {
			for _, c := range callsOf(f) {
				direct = direct || isAccept(c.Common())
			}
		}
		if !direct {
			continue
		}
		root := root
		x := NewExec(p)
		x.observe()
		x.Opaque = func(f *ssa.Function) bool {
			return !acc[f] && (pkgName(f) != pkgName(root) || p.quiet(f))
		}
		where := fname(root)
		check := func(x *Exec, s *State, at string) {
			c, e := s.getT("conn"), s.getT("err")
			if c == nil || s.get("served") != "" {
				return
			}
			if e != nil && x.Nilness(s, e) == 2 || x.Nilness(s, c) == 1 {
				return
			}
			r.failPath("unserved in "+where, at, s.path(), "a connection that was accepted is not handed to a goroutine: its client is never served, or keeps others from being accepted")
		}
		mark := func(s *State, ts []*Term) {
			c := s.getT("conn")
			for _, t := range ts {
				if c != nil && t != nil && t.any(func(u *Term) bool { return u == c }) {
					s.set("served", s.get("served")+"1")
				}
			}
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			if isAccept(c.Common()) {
				r.site("accept", p.instrPos(c))
				check(x, s, p.instrPos(c))
				if s.get("closed") != "" || x.listenerClosed(s) {
					r.failPath("accept after close in "+where, p.instrPos(c), s.path(), "the loop goes on accepting after the listener was closed: it never ends")
				}
				s.del("served")
				s.del("err")
				s.del("conn")
				return CallAction{Kind: actOpaque}
			}
			if spawns(c) {
				mark(s, cellsOf(s, args))
			}
			if n := methodName(c.Common()); n == "Close" && len(args) > 0 && s.getT("conn") != nil && args[0].canon() == s.getT("conn") {
				r.failPath("closed in "+where, p.instrPos(c), s.path(), "the accept loop closes a connection it has accepted")
			}
			if a, ok := errorText(x, c, args); ok {
				return a
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if isAccept(c.Common()) && len(res) == 2 {
				s.setT("conn", res[0].canon())
				s.setT("err", res[1])
			}
		}
		x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
			ts := append([]*Term{}, args...)
			if !c.Call.IsInvoke() {
				ts = append(ts, x.eval(s, c.Call.Value))
			}
			mark(s, cellsOf(s, ts))
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of", where)
			check(x, s, p.pos(root.Pos()))
			stopped := x.listenerClosed(s)
			for k := range s.ts {
				stopped = stopped || strings.HasPrefix(k, "obs:")
			}
			if !stopped && s.getT("err") != nil {
				r.failPath("ends in "+where, p.pos(root.Pos()), s.path(), "the loop that accepts connections can end although nobody stopped it: no client can connect any more")
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	r.min("accept", 2)
}

// cellsOf adds to terms the values stored in the variables they refer to.
func cellsOf(s *State, ts []*Term) []*Term {
	out := append([]*Term{}, ts...)
	for _, t := range ts {
		if t == nil {
			continue
		}
		for a, v := range s.store {
			if t.any(func(u *Term) bool { return u == a }) {
				out = append(out, v)
			}
		}
	}
	return out
}

// ---- replies ----

// netExec follows functions of the network package only.
func (p *Prog) netExec() *Exec {
	x := NewExec(p)
	x.Depth = 10
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "network" }
	return x
}

// netModel gives the calls between clients and event bus their meaning.
func (p *Prog) netModel(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) (CallAction, bool) {
	cc := c.Common()
	for _, m := range []string{"ID", "Addr"} {
		if p.isMethodCall(cc, "network", "Conn", m) {
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, ".conn"+m, args[:1])}, true
		}
	}
	for _, m := range []string{"Read", "Write", "Close", "IsClosed"} {
		if p.isMethodCall(cc, "network", "Conn", m) {
			return CallAction{Kind: actOpaque}, true
		}
	}
	for _, f := range callees {
		if rs := f.Signature.Results(); pkgName(f) == "network" && rs.Len() > 0 && p.isNamedType(rs.At(0).Type(), "network", "Conn") {
			return CallAction{Kind: actOpaque}, true // a new connection
		}
	}
	switch libName(cc) {
	case "(*sync.Map).Load":
		return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, ".load", args)}, true
	}
	if a, ok := errorText(x, c, args); ok && libName(cc) != "" {
		return a, true
	}
	return p.engineModel(x, s, c, callees, args)
}

// entryOf: the term is what a data map of the event holds under the key, through type
// assertions only.
func entryOf(t *Term, key string, ev *Term) bool {
	t = t.canon()
	for t.op == "ta" || t.op == "mi" || t.op == "ci" {
		t = t.args[0].canon()
	}
	if t.op != "pure" || t.aux != ".Get#0" || len(t.args) != 2 {
		return false
	}
	k, ok := unbox(t.args[1]).strVal()
	return ok && k == key && ev != nil && t.mentions(ev)
}

func ruleRoute(p *Prog, r *Report) {
	r.rule("The worker that takes responses from the bus and the goroutine that serves a connection are followed on every path. Every response taken is written exactly once: to the connection that the client table holds under the id of that very response, as the text of that very response; only a response that cannot be read or whose client has left is not written, and the worker only ends when its channel is closed, the topic removed or the server stopped. Every request read from a connection is published exactly once on the request topic, without an error, in a data map of its own that carries the id of the same connection and the object that was read, and the connection was entered in the client table under its own id before its first read. Write of a connection hands exactly the given text to the network connection and reports success only then.")
	// the response worker
	worker := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		return pkgName(fn) == "network" && p.isMethodCall(c.Common(), "concurrency", "Receiver", "Receive")
	})
	for _, root := range p.syncRoots(worker) {
		if pkgName(root) != "network" {
			continue
		}
		p.responseWorker(r, root)
	}
	for _, root := range p.connRoots() {
		p.publisher(r, root)
	}
	p.connWrite(r)
	r.min("response taken", 1)
	r.min("response written", 1)
	r.min("request published", 1)
	r.min("connection write", 1)
}

func (p *Prog) responseWorker(r *Report, root *ssa.Function) {
	x := p.netExec()
	x.observe()
	where := fname(root)
	check := func(x *Exec, s *State, at string) {
		if s.get("taken") == "" || s.get("written") != "" {
			return
		}
		if e := s.getT("err"); e != nil && x.Nilness(s, e) == 2 {
			return
		}
		ev := s.getT("event")
		if ev == nil || x.Nilness(s, ev) == 1 {
			return
		}
		for t, f := range s.facts {
			if !t.mentions(ev) {
				continue
			}
			switch {
			case f.truth == 1 && t.op == "pure" && strings.HasPrefix(t.aux, "errors.Is") && t.args[1].any(func(u *Term) bool { return u.op == "global" && strings.HasSuffix(u.aux, "ErrTopicRemoved") }):
				return
			case f.truth == 2 && t.op == "pure" && (t.aux == ".Get#1" || t.aux == ".load#1"):
				return
			case f.truth == 2 && t.op == "ok":
				return
			case t.op == "pure" && t.aux == ".Data" && f.nilness == 1:
				return
			}
		}
		r.failPath("dropped in "+where, at, s.path(), "a response can be taken from the bus and not be written to its client, although it could be read and the client is there")
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		switch {
		case p.isMethodCall(cc, "concurrency", "Receiver", "Receive"):
			r.site("response taken", p.instrPos(c))
			check(x, s, p.instrPos(c))
			for _, k := range []string{"written", "event", "err"} {
				s.del(k)
			}
			s.set("taken", "1")
			return CallAction{Kind: actOpaque}
		case p.isMethodCall(cc, "network", "Conn", "Write"):
			r.site("response written", p.instrPos(c))
			if s.get("written") != "" {
				r.failPath("twice in "+where, p.instrPos(c), s.path(), "a response can be written twice")
			}
			s.set("written", "1")
			ev := s.getT("event")
			to := args[0].canon()
			for to.op == "ta" || to.op == "mi" || to.op == "ci" {
				to = to.args[0].canon()
			}
			if to.op != "pure" || to.aux != ".load#0" || !entryOf(unbox(to.args[1]), "id", ev) {
				r.failPath("receiver in "+where, p.instrPos(c), s.path(), "the response is written to another connection than the one its id stands for")
			}
			txt := args[1].canon()
			for txt.op == "conv" {
				txt = txt.args[0].canon()
			}
			if txt.op != "pure" || txt.aux != ".String" && txt.aux != ".Byte" && txt.aux != ".Bytes" || !entryOf(txt.args[0], "response", ev) {
				r.failPath("text in "+where, p.instrPos(c), s.path(), "what is written is not the text of the response taken")
			}
			return CallAction{Kind: actOpaque}
		}
		if a, ok := p.netModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if p.isMethodCall(c.Common(), "concurrency", "Receiver", "Receive") && len(res) == 2 {
			s.setT("event", res[0].canon())
			s.setT("err", res[1])
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		check(x, s, p.pos(root.Pos()))
		if s.get("taken") == "" {
			return
		}
		for k := range s.ts {
			if strings.HasPrefix(k, "obs:") {
				return
			}
		}
		for t, f := range s.facts {
			if f.truth == 1 && t.op == "pure" && strings.HasPrefix(t.aux, "errors.Is") && t.args[1].any(func(u *Term) bool {
				return u.op == "global" && (strings.HasSuffix(u.aux, "ErrTopicRemoved") || strings.HasSuffix(u.aux, "ErrChannelClosed"))
			}) {
				return
			}
		}
		r.failPath("ends "+where, p.pos(root.Pos()), s.path(), "the worker can end although neither its channel was closed nor the server stopped: nobody gets a reply any more")
	}
	x.Run(root, nil, nil)
	r.exec(x)
}

// connRoots are the functions that are given a raw connection to serve it.
func (p *Prog) connRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if pkgName(f) != "network" || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		raw := false
		for _, pa := range f.Params {
			raw = raw || isRawConn(pa.Type())
		}
		if !raw {
			continue
		}
		for g := range p.reach(false, f) {
			for _, c := range callsOf(g) {
				if pkgName(g) == "network" && p.isMethodCall(c.Common(), "network", "Conn", "Read") {
					out = append(out, f)
					raw = false
				}
			}
			if !raw {
				break
			}
		}
	}
	// only the outermost ones
	var top []*ssa.Function
	for _, f := range out {
		inner := false
		for _, g := range out {
			if g != f && p.reach(false, g)[f] && !p.reach(false, f)[g] {
				inner = true
			}
		}
		if !inner {
			top = append(top, f)
		}
	}
	if len(top) == 0 {
		fatalf("anchor lost: no function serves a connection")
	}
	return top
}

func isRawConn(t types.Type) bool {
	s := t.String()
	return s == "net.Conn" || s == "*net.TCPConn"
}

func (p *Prog) publisher(r *Report, root *ssa.Function) {
	x := p.netExec()
	x.GoInline = true
	where := fname(root)
	check := func(x *Exec, s *State, at string) {
		if s.get("read") == "" || s.get("published") != "" {
			return
		}
		if e := s.getT("err"); e != nil && x.Nilness(s, e) == 2 {
			return
		}
		r.failPath("unpublished in "+where, at, s.path(), "a request that was read from a connection is not published: its client waits forever")
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		switch {
		case p.isMethodCall(cc, "network", "Conn", "Read"):
			check(x, s, p.instrPos(c))
			if t := s.getT("entered"); t == nil || t != args[0].canon() {
				r.failPath("unknown client in "+where, p.instrPos(c), s.path(), "a connection is read from before it was entered in the client table under its own id: its replies have nowhere to go")
			}
			for k := range s.ts {
				if k == "published" || k == "err" || strings.HasPrefix(k, "map") || strings.HasPrefix(k, "made") {
					s.del(k)
				}
			}
			s.set("read", "1")
			s.setT("client", args[0].canon())
			return CallAction{Kind: actOpaque}
		case libName(cc) == "(*sync.Map).Store":
			v := unbox(args[2]).canon()
			for v.op == "ci" || v.op == "mi" {
				v = v.args[0].canon()
			}
			if k := unbox(args[1]).canon(); k.op == "pure" && k.aux == ".connID" {
				if k.args[0] == v {
					s.setT("entered", v)
				} else {
					r.failPath("other client in "+where, p.instrPos(c), s.path(), "a connection is entered under the id of another one")
				}
			} else if v.typ != nil && p.isNamedType(v.typ, "network", "Conn") {
				r.failPath("other id in "+where, p.instrPos(c), s.path(), "a connection is entered in the client table under something else than its own id")
			}
		case p.isMethodCall(cc, "concurrency", "EventBus", "Publish") || p.isMethodCall(cc, "concurrency", "EventBus", "PublishWithSource"):
			i := 2
			if methodName(cc) == "PublishWithSource" {
				i = 3
			}
			if s.get("read") == "" {
				break
			}
			if tp, ok := args[1].strVal(); !ok || tp != "request" {
				r.failPath("topic in "+where, p.instrPos(c), s.path(), "a request is published on another topic than that of the engine")
			}
			r.site("request published", p.instrPos(c))
			if s.get("published") != "" {
				r.failPath("published twice in "+where, p.instrPos(c), s.path(), "a request can be published twice: it would be executed twice")
			}
			s.set("published", "1")
			data := unbox(args[i]).canon()
			if data.site != nil && s.get(fmt.Sprintf("made%d", x.siteID(data.site))) == "" {
				r.failPath("shared map in "+where, p.instrPos(c), s.path(), "the map published was made before the request was read: requests still under way share it")
			}
			id, req := s.getT(fmt.Sprintf("map%d.id", data.id)), s.getT(fmt.Sprintf("map%d.request", data.id))
			cl, ob := s.getT("client"), s.getT("object")
			if id == nil || cl == nil || id.op != "pure" || id.aux != ".connID" || id.args[0] != cl {
				r.failPath("request id in "+where, p.instrPos(c), s.path(), "a request is published without the id of the connection it was read from")
			}
			if req == nil || ob == nil || req != ob {
				r.failPath("request object in "+where, p.instrPos(c), s.path(), "what is published is not the object that was read from the connection")
			}
			if x.Nilness(s, args[i+1]) != 1 {
				r.failPath("request error in "+where, p.instrPos(c), s.path(), "a request is published with an error: the engine drops it without an answer")
			}
			return CallAction{Kind: actOpaque}
		}
		if p.isMethodCall(cc, "types", "DataMap", "Set") && len(args) == 3 {
			if k, ok := args[1].strVal(); ok {
				v := unbox(args[2]).canon()
				s.setT(fmt.Sprintf("map%d.%s", args[0].canon().id, k), v)
				s.setT(fmt.Sprintf("map%d.%s", unbox(args[0]).canon().id, k), v)
			}
		}
		if a, ok := p.netModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if p.isMethodCall(c.Common(), "network", "Conn", "Read") && len(res) == 2 {
			s.setT("object", unbox(res[0]).canon())
			s.setT("err", res[1])
		}
	}
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		switch in.(type) {
		case *ssa.Alloc, *ssa.Call, *ssa.MakeMap:
			if s.get("read") != "" {
				s.set(fmt.Sprintf("made%d", x.siteID(in)), "1")
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 {
			check(x, s, p.pos(root.Pos()))
		}
	}
	x.Run(root, nil, nil)
	r.exec(x)
}

func isNetWrite(cc *ssa.CallCommon) bool {
	switch libName(cc) {
	case "(net.Conn).Write", "(*net.TCPConn).Write", "(io.Writer).Write", "io.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "io.Copy", "fmt.Fprint", "fmt.Fprintf":
		return true
	}
	return false
}

// connWrite: Conn.Write hands over exactly its argument.
func (p *Prog) connWrite(r *Report) {
	f := p.impl("network", "Conn", "Write")
	x := p.netExec()
	txt := x.Param(f.Params[1])
	where := p.pos(f.Pos())
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if isNetWrite(c.Common()) {
			r.site("connection write", p.instrPos(c))
			if s.get("wrote") != "" {
				r.failPath("write twice", p.instrPos(c), s.path(), "the text of one reply can be written twice")
			}
			s.set("wrote", "1")
			t := args[1].canon()
			for t.op == "conv" || t.op == "mi" {
				t = t.args[0].canon()
			}
			if t != txt {
				r.failPath("write text", p.instrPos(c), s.path(), "something else than the given text is written to the connection")
			}
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if isNetWrite(c.Common()) && len(res) == 2 {
			s.setT("werr", res[1])
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		n := x.Nilness(s, res[0])
		switch {
		case n != 2 && s.get("wrote") == "":
			r.failPath("write success", where, s.path(), "Write reports success although it wrote nothing")
		case n != 2 && (s.getT("werr") == nil || x.Nilness(s, s.getT("werr")) != 1 && s.getT("werr").canon() != res[0].canon()):
			r.failPath("write error", where, s.path(), "Write reports success although the network connection reported an error")
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

func ruleLeave(p *Prog, r *Report) {
	r.rule("The goroutine that serves a connection is followed on every path, goroutines and deferred calls included. Once a read has failed the connection is not read from again, and before the goroutine ends the connection is taken out of the client table under its own id and closed. No other connection is taken out or closed, and a connection is not closed as long as its reads succeed. Close of a connection closes the network connection on the path that wins the right to close. The goroutine of the master that serves a replica is followed the same way: before it ends it has closed the connection, taken out of the table what it has put there, closed the files it has opened and removed the copy it has made.")
	for _, root := range p.connRoots() {
		x := p.netExec()
		x.GoInline = true
		root := root
		where := fname(root)
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			switch {
			case p.isMethodCall(cc, "network", "Conn", "Read"):
				r.site("read", p.instrPos(c))
				if e := s.getT("err"); e != nil && x.Nilness(s, e) != 1 {
					r.failPath("read again in "+where, p.instrPos(c), s.path(), "a connection is read from again although a read may have failed: the goroutine can spin on it")
				}
				if s.get("closed") != "" || s.get("forgotten") != "" {
					r.failPath("read closed in "+where, p.instrPos(c), s.path(), "a connection is read from after it was closed or forgotten")
				}
				s.del("err")
				s.setT("client", args[0].canon())
				return CallAction{Kind: actOpaque}
			case p.isMethodCall(cc, "network", "Conn", "Close"):
				if cl := s.getT("client"); cl != nil && cl != args[0].canon() {
					r.failPath("closes other in "+where, p.instrPos(c), s.path(), "another connection is closed")
				}
				if e := s.getT("err"); e != nil && x.Nilness(s, e) == 1 {
					r.failPath("closes early in "+where, p.instrPos(c), s.path(), "a connection whose reads succeed is closed")
				}
				s.set("closed", "1")
			case libName(cc) == "(*sync.Map).Store" && s.getT("stored") == nil:
				s.setT("stored", args[0].canon())
			case libName(cc) == "(*sync.Map).Delete" || libName(cc) == "(*sync.Map).LoadAndDelete":
				k := unbox(args[1]).canon()
				if cl := s.getT("client"); k.op != "pure" || k.aux != ".connID" || cl != nil && k.args[0] != cl || s.getT("stored") != nil && s.getT("stored") != args[0].canon() {
					r.failPath("forgets other in "+where, p.instrPos(c), s.path(), "another entry than that of the connection is taken out of the client table")
				}
				s.set("forgotten", "1")
			}
			if a, ok := p.netModel(x, s, c, callees, args); ok {
				return a
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if p.isMethodCall(c.Common(), "network", "Conn", "Read") && len(res) == 2 {
				s.setT("err", res[1])
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of", where)
			if s.get("closed") == "" {
				r.failPath("not closed in "+where, p.pos(root.Pos()), s.path(), "the goroutine of a connection can end without closing it")
			}
			if s.getT("stored") != nil && s.get("forgotten") == "" {
				r.failPath("not forgotten in "+where, p.pos(root.Pos()), s.path(), "the goroutine of a connection can end and leave it in the client table")
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	// Close
	cl := p.impl("network", "Conn", "Close")
	x := p.netExec()
	x.GoInline = true
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		switch libName(c.Common()) {
		case "(net.Conn).Close", "(*net.TCPConn).Close", "(io.Closer).Close":
			r.site("network close", p.instrPos(c))
			s.set("netclosed", "1")
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if casNames[libName(c.Common())] && len(res) == 1 {
			s.setT("cas", res[0])
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || s.get("netclosed") != "" {
			return
		}
		if t := s.getT("cas"); t != nil && x.Truth(s, t) == 2 {
			return
		}
		for k := range s.ts {
			if strings.HasPrefix(k, "skipped:") {
				return
			}
		}
		r.failPath("close", p.pos(cl.Pos()), s.path(), "Close can return without the network connection being closed")
	}
	x.Run(cl, nil, nil)
	r.exec(x)
	for _, root := range p.replicaRoots() {
		served := false
		for _, v := range root.Params {
			served = served || isRawConn(v.Type())
		}
		for _, v := range root.FreeVars {
			t, ok := v.Type().(*types.Pointer)
			served = served || isRawConn(v.Type()) || ok && isRawConn(t.Elem())
		}
		if served {
			p.leaveReplica(r, root)
		}
	}
	r.min("read", 1)
	r.min("network close", 1)
}

// leaveReplica follows the goroutine that serves a replica to its end.
func (p *Prog) leaveReplica(r *Report, root *ssa.Function) {
	x := NewExec(p)
	x.Depth = 12
	x.GoInline = true
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "replication" }
	where := fname(root)
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		switch n := libName(cc); n {
		case "(net.Conn).Close", "(*net.TCPConn).Close", "(io.Closer).Close":
			s.set("closed", "1")
		case "(*os.File).Close":
			s.del("open " + args[0].canon().String())
		case "os.Remove", "os.RemoveAll":
			s.del("made " + args[0].canon().String())
		case "builtin.delete":
			k := args[1].canon()
			if u := s.getT("put"); u != nil && u == k {
				s.del("put")
			} else if u != nil && args[0].typ != nil {
				if m, ok := args[0].typ.Underlying().(*types.Map); ok && isRawConn(m.Elem()) {
					r.failPath("forgets other in "+where, p.instrPos(c), s.path(), "another connection than the one served is taken out of the master's table")
				}
			}
		case "(net.Conn).RemoteAddr", "(*net.TCPConn).RemoteAddr", "(net.Addr).String", "(net.Addr).Network", "(*os.File).Name":
			if path := s.getT("path " + args[0].canon().String()); path != nil && n == "(*os.File).Name" {
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{path}}
			}
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, n, args[:1])}
		}
		return CallAction{}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "mapcell" && val.typ != nil && isRawConn(val.typ) {
			s.setT("put", addr.args[1].canon())
		}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		switch n := libName(c.Common()); n {
		case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "io/ioutil.TempFile":
			r.site("file of a transfer", p.instrPos(c))
			s.setT("open "+res[0].canon().String(), res[1])
			if n == "os.Create" {
				s.setT("path "+res[0].canon().String(), args[0].canon())
				s.setT("made "+args[0].canon().String(), res[1])
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of a transfer", where)
		at := p.pos(root.Pos())
		if s.get("closed") == "" {
			r.failPath("replica not closed in "+where, at, s.path(), "the goroutine that serves a replica can end without closing its connection")
		}
		if s.getT("put") != nil {
			r.failPath("replica not forgotten in "+where, at, s.path(), "the goroutine that serves a replica can end and leave the connection in the master's table")
		}
		for k, v := range s.ts {
			if strings.HasPrefix(k, "open ") && x.Nilness(s, v.t) != 2 {
				r.failPath("file left open in "+where, at, s.path(), "the goroutine that serves a replica can end without closing a file it has opened")
			}
			if strings.HasPrefix(k, "made ") && x.Nilness(s, v.t) != 2 {
				r.failPath("copy left in "+where, at, s.path(), "the goroutine that serves a replica can end and leave the copy it has made behind")
			}
		}
	}
	x.Run(root, nil, nil)
	r.exec(x)
}

// ---- shutdown ----

func ruleShutdown(p *Prog, r *Report) {
	r.rule("Stop of the server is followed on every path on which the shutdown is carried out (deferred calls, the engine, the master and the database file inlined). On each of them the topics the server has made are removed, its listener is closed, its workers are woken through a closed channel, the engine is stopped, every connection in the client table is closed, and the engine has stopped its master and flushed its database file unless the path knows there is none. The master closes its listener and every connection it holds. Serve only returns after the shutdown was carried out, or another caller was waited for who carries it out; a goroutine waiting for a signal carries it out too.")
	stop := p.impl("network", "Server", "Stop")
	srv := p.impl("network", "Server", "Serve")
	ini := p.impl("network", "Server", "Init")
	// the topics, and the types in the client table
	topics := map[string]bool{}
	for f := range p.reach(false, ini) {
		for _, c := range callsOf(f) {
			if p.isMethodCall(c.Common(), "concurrency", "EventBus", "NewTopic") && pkgName(f) == "network" {
				as := c.Common().Args
				if k, ok := as[len(as)-1].(*ssa.Const); ok && k.Value != nil {
					topics[constStr(k)] = true
				}
			}
		}
	}
	var stored []types.Type
	for _, f := range p.Funcs {
		if pkgName(f) != "network" {
			continue
		}
		for _, c := range callsOf(f) {
			switch libName(c.Common()) {
			case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap":
				v := c.Common().Args[2]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				} else if ci, ok := v.(*ssa.ChangeInterface); ok {
					v = ci.X
				}
				// an interface holds what its implementers are
				if types.IsInterface(v.Type()) {
					for _, t := range p.implementers(v.Type().Underlying().(*types.Interface)) {
						stored = append(stored, t)
					}
				} else {
					stored = append(stored, v.Type())
				}
			}
		}
	}
	inVisit := func(s *State) *Frame {
		for _, fr := range s.frames {
			if fr.call != nil && libName(fr.call.Common()) == "(*sync.Map).Range" {
				return fr
			}
		}
		return nil
	}
	isClose := func(cc *ssa.CallCommon) bool {
		if methodName(cc) != "Close" {
			return false
		}
		switch libName(cc) {
		case "(net.Conn).Close", "(*net.TCPConn).Close", "(io.Closer).Close", "(net.Listener).Close", "(*net.TCPListener).Close":
			return true
		}
		return p.isMethodCall(cc, "network", "Conn", "Close")
	}
	mk := func() *Exec {
		x := NewExec(p)
		x.Depth = 14
		x.Opaque = func(f *ssa.Function) bool {
			switch pkgName(f) {
			case "network", "db", "replication", "log":
				return false
			}
			return true
		}
		x.H.TypeAssert = func(x *Exec, s *State, v *Term, in *ssa.TypeAssert) {
			fr := inVisit(s)
			if fr == nil || len(fr.args) < 2 || !v.any(func(u *Term) bool { return u == fr.args[1] }) {
				return
			}
			for _, t := range stored {
				ok := false
				if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
					ok = types.Implements(t, it)
				} else {
					ok = types.Identical(t, in.AssertedType)
				}
				if !ok {
					r.failPath("type of a client", p.instrPos(in), s.path(), "the shutdown looks for connections of type %s, but the client table holds %s: they are not closed", in.AssertedType, t)
				}
			}
			s.set("asserted", "1")
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			n := libName(cc)
			switch {
			case p.isMethodCall(cc, "concurrency", "EventBus", "RemoveTopic"):
				r.site("topic removed", p.instrPos(c))
				if k, ok := args[1].strVal(); ok {
					s.set("removed:"+k, "1")
				}
				return CallAction{Kind: actOpaque}
			case p.isMethodCall(cc, "db", "Engine", "Stop"):
				s.set("engine", "1")
			case p.isMethodCall(cc, "replication", "Master", "Stop"):
				s.set("master", "1")
			case n == "(*bufio.Writer).Flush":
				r.site("flush", p.instrPos(c))
				s.set("flushed", "1")
			case isClose(cc):
				if strings.Contains(n, "Listener") {
					r.site("listener closed", p.instrPos(c))
					if strings.HasPrefix(x.fieldBase(args[0]), "replication.") {
						s.set("mlistener", "1")
					} else {
						s.set("listener", "1")
					}
					break
				}
				if fr := inVisit(s); fr != nil && len(fr.args) > 1 && args[0].any(func(u *Term) bool { return u == fr.args[1] }) {
					r.site("client closed", p.instrPos(c))
					s.set("client", "1")
					return CallAction{Kind: actOpaque}
				}
				if t := s.getT("mconn"); t != nil && args[0].canon() == t.canon() {
					r.site("replica closed", p.instrPos(c))
					s.del("mconn")
				}
				return CallAction{Kind: actOpaque}
			case n == "(*sync.Map).Range":
				if x.p.isRangeCB(c, callees) {
					s.set("visited", "1")
				}
			case isCloseCall(c):
				name, _ := chanName(args[0])
				s.set("closed:"+name, "1")
			case casNames[n] && pkgName(c.Parent()) == "replication":
				s.set("mcas", "1")
			}
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if casNames[libName(c.Common())] && pkgName(c.Parent()) == "replication" && len(res) == 1 {
				s.setT("mwon", res[0])
			}
		}
		x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "fieldaddr" && val.typ != nil {
				if p.isNamedType(val.typ, "log", "PersistentFile") && strings.HasPrefix(addr.aux, "db.") {
					s.setT("filev", val)
				}
				if p.isNamedType(val.typ, "replication", "Master") {
					s.setT("masterv", val)
				}
			}
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			e, ok := in.(*ssa.Extract)
			if !ok {
				return
			}
			if nx, ok := e.Tuple.(*ssa.Next); ok && e.Index == 2 && isRawConn(e.Type()) {
				if s.getT("mconn") != nil {
					r.failPath("replica connection", p.instrPos(nx), s.path(), "a connection of a replica is left open when the master stops")
				}
				s.set("mvalue", "1")
			}
		}
		return x
	}
	check := func(x *Exec, s *State, what, where string) {
		for k := range s.ts {
			if strings.HasPrefix(k, "skipped:") {
				return
			}
		}
		bad := func(key, msg string) {
			r.failPath(key+" "+what, where, s.path(), "%s: %s", what, msg)
		}
		for t := range topics {
			if s.get("removed:"+t) == "" {
				bad("topic "+t, "topic "+t+" is not removed: whoever waits for its events is not told")
			}
		}
		if s.get("listener") == "" {
			bad("listener", "the listener is not closed: the accept loop goes on")
		}
		if s.get("engine") == "" {
			bad("engine", "the engine is not stopped")
			return
		}
		woken, ewoken := false, false
		for k := range s.ts {
			woken = woken || strings.HasPrefix(k, "closed:network.")
			ewoken = ewoken || strings.HasPrefix(k, "closed:db.")
		}
		if !ewoken && p.waitsFor("db") {
			bad("engine woken", "the shutdown channel of the engine is not closed")
		}
		if !woken {
			bad("workers", "the shutdown channel of the server is not closed")
		}
		if s.get("visited") == "" {
			bad("clients", "the client table is not visited: connections stay open")
		}
		if t := s.getT("filev"); s.get("flushed") == "" && (t == nil || x.Nilness(s, t) != 1) {
			bad("flush", "the database file is not flushed: records that were accepted are lost")
		}
		if t := s.getT("masterv"); s.get("master") == "" && (t == nil || x.Nilness(s, t) != 1) {
			bad("master", "the master is not stopped")
		}
		if t := s.getT("mwon"); s.get("master") != "" && s.get("mlistener") == "" && (t == nil || x.Truth(s, t) != 2) {
			bad("master listener", "the listener of the master is not closed")
		}
	}
	visit := func(x *Exec, s *State, fr *Frame, res []*Term) {
		if fr.call == nil || libName(fr.call.Common()) != "(*sync.Map).Range" || pkgName(fr.fn) != "network" {
			return
		}
		if s.get("client") == "" && x.assertHeld(s, fr.args[1]) {
			r.failPath("client left open", p.pos(fr.fn.Pos()), s.path(), "a connection in the client table is not closed by the shutdown")
		}
		if b, ok := res[0].boolVal(); !ok || !b {
			r.failPath("visit ends", p.pos(fr.fn.Pos()), s.path(), "the visit of one connection can keep the others from being closed")
		}
		s.set("visited", "1")
		s.del("client")
	}
	x := mk()
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		visit(x, s, fr, res)
		if len(s.frames) == 1 {
			r.site("end of", "Stop")
			check(x, s, "Stop", p.pos(stop.Pos()))
		}
	}
	x.Run(stop, nil, nil)
	r.exec(x)
	x = mk()
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		visit(x, s, fr, res)
		if len(s.frames) == 1 {
			r.site("end of", "Serve")
			check(x, s, "Serve", p.pos(srv.Pos()))
		}
	}
	x.Run(srv, nil, nil)
	r.exec(x)
	// signals
	sig := 0
	for _, f := range p.Funcs {
		if pkgName(f) != "network" || f.Blocks == nil {
			continue
		}
		for _, c := range callsOf(f) {
			if libName(c.Common()) != "os/signal.Notify" {
				continue
			}
			sig++
		}
	}
	if sig == 0 {
		r.fail("signal", p.pos(ini.Pos()), "no signal stops the server")
	}
	waits := 0
	for f := range p.reach(false, ini) {
		if pkgName(f) != "network" || !p.isSpawned(f) || !p.waitsSignal(f) {
			continue
		}
		waits++
		f := f
		x := mk()
		x.observe()
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			visit(x, s, fr, res)
			if len(s.frames) == 1 {
				r.site("end of", "signal goroutine")
				check(x, s, "signal goroutine", p.pos(f.Pos()))
			}
		}
		x.Run(f, nil, nil)
		r.exec(x)
	}
	if sig > 0 && waits == 0 {
		r.fail("signal wait", p.pos(ini.Pos()), "no goroutine waits for the signal")
	}
	r.min("topic removed", 2)
	r.min("flush", 1)
	r.min("listener closed", 2)
	r.min("client closed", 1)
	r.min("end of", 3)
}

// assertHeld: the path does not know that the visited value is of another type.
func (x *Exec) assertHeld(s *State, v *Term) bool {
	for t, f := range s.facts {
		if t.op == "ok" && f.truth == 2 && t.any(func(u *Term) bool { return u == v }) {
			return false
		}
	}
	return true
}

// isRangeCB is always true: a Range that is followed visits.
func (p *Prog) isRangeCB(c ssa.CallInstruction, callees []*ssa.Function) bool { return true }

// fieldBase names the field a value was loaded from.
func (x *Exec) fieldBase(t *Term) string {
	t = t.canon()
	for len(t.args) > 0 {
		if t.op == "fieldaddr" {
			return t.aux
		}
		t = t.args[0].canon()
	}
	return ""
}

func (p *Prog) isSpawned(f *ssa.Function) bool {
	for _, c := range p.callersOf(f) {
		if _, ok := c.Instr.(*ssa.Go); ok || spawns(c.Instr) {
			return true
		}
	}
	return false
}

// waitsSignal: f, or what it calls, receives a signal.
func (p *Prog) waitsSignal(f *ssa.Function) bool {
	for g := range p.reach(true, f) {
		if pkgName(g) == pkgName(f) && recvsSignal(g) {
			return true
		}
	}
	return false
}

func recvsSignal(f *ssa.Function) bool {
	is := func(t types.Type) bool {
		c, ok := t.Underlying().(*types.Chan)
		return ok && c.Elem().String() == "os.Signal"
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.UnOp:
				if i.Op.String() == "<-" && is(i.X.Type()) {
					return true
				}
			case *ssa.Select:
				for _, st := range i.States {
					if is(st.Chan.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

// waitsFor: the package has a channel without content that it receives from.
func (p *Prog) waitsFor(pkg string) bool {
	for _, f := range p.Funcs {
		if pkgName(f) != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ch ssa.Value
				switch i := in.(type) {
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						ch = i.X
					}
				case *ssa.Select:
					for _, st := range i.States {
						if st.Dir == types.RecvOnly {
							ch = st.Chan
						}
					}
				}
				if ch == nil {
					continue
				}
				if st, ok := ch.Type().Underlying().(*types.Chan).Elem().Underlying().(*types.Struct); ok && st.NumFields() == 0 {
					return true
				}
			}
		}
	}
	return false
}
