package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C27", "the bus delivers under the name of a topic", ruleBus)
}

// getterField: the field that a method of a type does nothing but return; -1 when it is not
// of that form.
func (p *Prog) getterField(f *ssa.Function) int {
	if f == nil || len(f.Params) != 1 {
		return -1
	}
	k := -1
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if i.X != f.Params[0] || k >= 0 {
					return -1
				}
				k = i.Field
			case *ssa.Field:
				if i.X != f.Params[0] || k >= 0 {
					return -1
				}
				k = i.Field
			case *ssa.UnOp, *ssa.Return, *ssa.DebugRef:
			default:
				return -1
			}
		}
	}
	return k
}

// getter reads what a getter of an object made on this path gives; nil when that is not known.
func (x *Exec) getter(s *State, obj *Term, method string) *Term {
	obj = stripConv(obj)
	if obj.op != "alloc" || obj.typ == nil {
		return nil
	}
	f := x.p.method(obj.typ, method)
	k := x.p.getterField(f)
	if k < 0 {
		return nil
	}
	n := derefNamed(obj.typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	return x.load(s, x.fieldAddr(obj, n, k), nil, st.Field(k).Type())
}

func ruleBus(p *Prog, r *Report) {
	r.rule("Each method of the event bus is followed on every path, what a topic does kept abstract. The table of topics may only be read and changed under the very name given. Publish hands exactly one event to the topic found, whose name, data, error and source are those given, and returns the topic's future; Subscribe returns what the topic found returns for the given subscriber and options. For a name without topic nothing is published and the error is ErrNoSuchTopic. A topic is added only where none is, under its name, and taken out only after its subscribers were told; the answers say what happened. Subscribe of a topic stores the sender of the new channel under the subscriber's name and returns its receiver; Remove tells the subscribers with ErrTopicRemoved. All callers of GetEventBus get the one bus that is made once.")
	bus := p.iface("concurrency", "EventBus")
	for i := 0; i < bus.NumMethods(); i++ {
		p.busMethod(r, p.impl("concurrency", "EventBus", bus.Method(i).Name()))
	}
	for _, m := range []string{"Subscribe", "SubscribeWithOptions"} {
		p.topicSubscribe(r, p.impl("concurrency", "Topic", m))
	}
	p.topicRemove(r, p.impl("concurrency", "Topic", "Remove"))
	p.oneBus(r)
	r.min("bus method", 7)
	r.min("event published", 1)
	r.min("subscription", 1)
	r.min("topic added", 1)
	r.min("topic taken out", 1)
	r.min("sender stored", 1)
	r.min("event of removal", 1)
	r.min("bus made", 1)
}

func isNoTopic(t *Term) bool {
	return t.any(func(u *Term) bool { return u.op == "global" && strings.HasSuffix(u.aux, "ErrNoSuchTopic") })
}

// checkEvent compares what an event made on this path reports with what was given.
func (x *Exec) checkEvent(r *Report, s *State, at, who string, e *Term, want map[string]*Term) {
	for m, w := range want {
		got := x.getter(s, e, m)
		if got == nil {
			continue
		}
		r.site("content of an event", who+" "+m)
		if same, known := sameTerm(got, w); known && !same {
			r.failPath(m+" of "+who, at, s.path(), "the event %s publishes reports %s as its %s, not %s", who, got, m, w)
		}
	}
}

func (p *Prog) busMethod(r *Report, f *ssa.Function) {
	m := f.Name()
	r.site("bus method", m)
	at := p.pos(f.Pos())
	x := NewExec(p)
	x.Depth = 10
	x.Opaque = func(g *ssa.Function) bool {
		if pkgName(g) != "concurrency" {
			return true
		}
		return p.isFunc([]*ssa.Function{g}, "concurrency", "NewFuture") || p.isFunc([]*ssa.Function{g}, "concurrency", "NewErrorTask") || p.isFunc([]*ssa.Function{g}, "concurrency", "NewTask")
	}
	recv, name := x.Param(f.Params[0]), x.Param(f.Params[1])
	arg := func(i int) *Term {
		if i < len(f.Params) {
			return x.Param(f.Params[i])
		}
		return x.tp.nilT()
	}
	isTable := func(t *Term) bool {
		t = t.canon()
		return (t.op == "load" || t.op == "reload") && t.args[0].op == "fieldaddr" && t.args[0].args[0].canon() == recv.canon()
	}
	fail := func(s *State, pos, key, format string, a ...interface{}) {
		r.failPath(key+" in "+m, pos, s.path(), format, a...)
	}
	keyed := func(s *State, in ssa.Instruction, k *Term) {
		if same, known := sameTerm(k, name); known && !same {
			fail(s, p.instrPos(in), "key", "%s uses the topic %s instead of the one named", m, k)
			return
		}
		s.set("looked", "1")
	}
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		switch i := in.(type) {
		case *ssa.Lookup:
			if isTable(x.eval(s, i.X)) {
				r.site("table read", p.instrPos(in))
				keyed(s, in, x.eval(s, i.Index))
			}
		case *ssa.Range:
			if isTable(x.eval(s, i.X)) {
				s.set("ranged", "1")
			}
		}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "fieldaddr" && addr.args[0].canon() == recv.canon() && val.typ != nil {
			if _, ok := val.typ.Underlying().(*types.Map); ok {
				fail(s, p.instrPos(in), "table", "%s replaces the table of topics", m)
			}
			return
		}
		if addr.op != "mapcell" || !isTable(addr.args[0]) || val.isNil() {
			return
		}
		r.site("topic added", p.instrPos(in))
		keyed(s, in, addr.args[1])
		if m != "NewTopic" {
			fail(s, p.instrPos(in), "added", "%s adds a topic", m)
			return
		}
		if x.foundKnown(s, nil, name) != 2 {
			fail(s, p.instrPos(in), "replaced", "a topic is put into the table although one of that name may be there: its subscribers are lost")
		}
		if x.Nilness(s, val) == 1 || !val.mentions(name) && !x.cellsMention(s, stripConv(val), name) {
			fail(s, p.instrPos(in), "unnamed", "the topic that is added is not made with its name")
		}
		s.set("added", "1")
	}
	onTopic := func(x *Exec, s *State, c ssa.CallInstruction, t *Term) {
		if x.foundKnown(s, nil, name) != 1 && x.Nilness(s, t) != 2 {
			fail(s, p.instrPos(c), "missing", "%s uses the topic although there may be none", m)
		}
		if !t.mentions(name) {
			fail(s, p.instrPos(c), "other topic", "%s uses another topic than the one named", m)
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		rs := cc.Signature().Results()
		out := func() CallAction {
			var res []*Term
			for i := 0; i < rs.Len(); i++ {
				t := x.fresh(s, fmt.Sprint("topicres", i), "", c, rs.At(i).Type())
				x.setNil(s, t, 2)
				res = append(res, t)
			}
			if len(res) > 0 {
				s.setT("result", res[0])
			}
			return CallAction{Kind: actOpaque, Pure: true, Results: res}
		}
		switch {
		case p.isMethodCall(cc, "concurrency", "Topic", "Publish"):
			r.site("event published", p.instrPos(c))
			onTopic(x, s, c, args[0])
			if !strings.HasPrefix(m, "Publish") {
				fail(s, p.instrPos(c), "published", "%s publishes an event", m)
				return out()
			}
			if s.get("published") != "" {
				fail(s, p.instrPos(c), "twice", "an event is published twice")
			}
			s.set("published", "1")
			n := len(f.Params)
			want := map[string]*Term{"Topic": name, "Data": arg(n - 2), "Error": arg(n - 1)}
			if m == "PublishWithSource" {
				want["Source"] = arg(2)
			}
			x.checkEvent(r, s, p.instrPos(c), m, args[1], want)
			return out()
		case p.isMethodCall(cc, "concurrency", "Topic", "Subscribe"), p.isMethodCall(cc, "concurrency", "Topic", "SubscribeWithOptions"):
			r.site("subscription", p.instrPos(c))
			onTopic(x, s, c, args[0])
			for i, a := range args[1:] {
				if m == "Subscribe" && i > 0 {
					break
				}
				if same, known := sameTerm(a, arg(i+2)); known && !same {
					fail(s, p.instrPos(c), "subscription", "the topic is given %s, not %s", a, arg(i+2))
				}
			}
			if len(args) == 2 && m == "SubscribeWithOptions" {
				fail(s, p.instrPos(c), "options", "the options of the subscription are not given to the topic")
			}
			if s.get("subscribed") != "" {
				fail(s, p.instrPos(c), "twice", "one call subscribes twice")
			}
			s.set("subscribed", "1")
			return out()
		case p.isMethodCall(cc, "concurrency", "Topic", "Remove"):
			onTopic(x, s, c, args[0])
			if m != "RemoveTopic" {
				fail(s, p.instrPos(c), "removed", "%s removes a topic", m)
			}
			s.set("told", "1")
			return out()
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && isTable(args[0]) {
			r.site("topic taken out", p.instrPos(c))
			if m != "RemoveTopic" || b.Name() == "clear" {
				fail(s, p.instrPos(c), "deleted", "%s takes other topics out of the table", m)
				return CallAction{}
			}
			keyed(s, c, args[1])
			s.set("deleted", "1")
		}
		return CallAction{}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		if s.get("ranged") != "" && s.get("looked") == "" {
			fatalf("undecided: %s goes through the table of topics", m)
		}
		found := x.foundKnown(s, nil, name)
		if s.get("looked") == "" {
			fail(s, at, "not looked", "%s ends without having looked for the topic", m)
			return
		}
		isFound, truth := found, int8(0)
		if len(res) > 0 && res[0].typ != nil && types.Identical(res[0].typ.Underlying(), types.Typ[types.Bool]) || m == "NewTopic" || m == "RemoveTopic" || m == "ExistTopic" {
			truth = x.Truth(s, res[0])
		}
		switch m {
		case "Publish", "PublishWithSource":
			switch {
			case isFound == 1 && s.get("published") == "":
				fail(s, at, "unpublished", "the event is not handed to the topic")
			case isFound == 1 && res[0].canon() != s.getT("result").canon():
				fail(s, at, "future", "not the future of the topic is returned")
			case isFound != 1 && s.get("published") == "" && !isNoTopic(res[0]) && !x.cellsNoTopic(s, res[0]):
				fail(s, at, "error", "a name without topic is not reported as ErrNoSuchTopic")
			}
		case "Subscribe", "SubscribeWithOptions":
			switch {
			case isFound == 1 && s.get("subscribed") == "":
				fail(s, at, "unsubscribed", "the subscriber is not given to the topic")
			case isFound == 1 && (res[0].canon() != s.getT("result").canon() || x.Nilness(s, res[1]) == 2):
				fail(s, at, "receiver", "not the receiver of the topic is returned")
			case isFound != 1 && s.get("subscribed") == "" && !isNoTopic(res[1]):
				fail(s, at, "error", "a name without topic is not reported as ErrNoSuchTopic")
			}
		case "NewTopic":
			switch {
			case s.get("added") != "" && truth == 2, s.get("added") == "" && truth != 2:
				fail(s, at, "answer", "the answer of NewTopic does not say whether the topic was added")
			case s.get("added") == "" && isFound != 1:
				fail(s, at, "not added", "a topic that does not exist is not added")
			}
		case "RemoveTopic":
			switch {
			case s.get("deleted") != "" && truth == 2, s.get("deleted") == "" && truth != 2 && res[0].canon().op != "ok":
				fail(s, at, "answer", "the answer of RemoveTopic does not say whether the topic was removed")
			case isFound != 2 && (s.get("deleted") == "" || s.get("told") == ""):
				fail(s, at, "kept", "a topic that exists is not removed, or its subscribers are not told")
			}
		case "ExistTopic":
			v := res[0].canon()
			if isFound == 0 && v.op == "ok" && v.mentions(name) {
				return
			}
			if isFound == 0 && v.op == "not" && v.args[0].op == "cmp" && v.args[0].aux == "==" && v.mentions(name) {
				return
			}
			if truth == 0 || truth != isFound {
				fail(s, at, "answer", "the answer of ExistTopic does not say whether the topic exists")
			}
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

// cellsNoTopic: the object holds ErrNoSuchTopic.
func (x *Exec) cellsNoTopic(s *State, t *Term) bool {
	ok := false
	t.any(func(u *Term) bool {
		if u.op == "alloc" {
			for a, v := range s.store {
				b := a
				for b.op == "fieldaddr" || b.op == "elemaddr" {
					b = b.args[0]
				}
				if b == u && isNoTopic(v) {
					ok = true
				}
			}
		}
		return ok
	})
	return ok
}

func (p *Prog) topicSubscribe(r *Report, f *ssa.Function) {
	m := f.Name()
	at := p.pos(f.Pos())
	x := NewExec(p)
	x.Depth = 10
	isNew := func(g *ssa.Function) bool {
		return pkgName(g) == "concurrency" && strings.HasPrefix(g.Name(), "NewDataChannel")
	}
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "concurrency" || isNew(g) }
	name := x.Param(f.Params[1])
	stored := func(x *Exec, s *State, in ssa.Instruction, key, val *Term) {
		r.site("sender stored", p.instrPos(in)+" "+m)
		if same, known := sameTerm(key, name); known && !same {
			r.failPath("subscriber of "+m, p.instrPos(in), s.path(), "the sender is stored under %s, not under the name of the subscriber", key)
		}
		if snd := s.getT("sender"); snd == nil || stripConv(val) != snd.canon() {
			r.failPath("sender of "+m, p.instrPos(in), s.path(), "what is stored is %s, not the sender of the new channel", val)
		}
		s.set("stored", "1")
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) == 1 && isNew(callees[0]) {
			rs := c.Common().Signature().Results()
			var res []*Term
			for i := 0; i < rs.Len(); i++ {
				t := x.fresh(s, fmt.Sprint("chanend", i), "", c, rs.At(i).Type())
				x.setNil(s, t, 2)
				res = append(res, t)
				switch {
				case p.isNamedType(t.typ, "concurrency", "Receiver"):
					s.setT("receiver", t)
				case p.isNamedType(t.typ, "concurrency", "Sender"):
					s.setT("sender", t)
				}
			}
			if m == "SubscribeWithOptions" {
				for i, a := range args {
					if same, known := sameTerm(a, x.Param(f.Params[2+i])); known && !same {
						r.failPath("options of "+m, p.instrPos(c), s.path(), "the channel is made with %s, not with the option given", a)
					}
				}
				if len(args) != len(f.Params)-2 {
					r.failPath("options of "+m, p.instrPos(c), s.path(), "the channel is made without the options given")
				}
			}
			return CallAction{Kind: actOpaque, Pure: true, Results: res}
		}
		switch libName(c.Common()) {
		case "(*sync.Map).Store", "(*sync.Map).Swap":
			stored(x, s, c, unbox(args[1]), unbox(args[2]))
		case "(*sync.Map).LoadOrStore":
			r.failPath("kept "+m, p.instrPos(c), s.path(), "a subscriber that subscribes again gets a receiver nothing is sent to")
		}
		return CallAction{}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "mapcell" && !val.isNil() {
			stored(x, s, in, addr.args[1], val)
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		if s.get("stored") == "" {
			r.failPath("not stored "+m, at, s.path(), "the new subscriber is not registered")
		} else if rc := s.getT("receiver"); rc == nil || stripConv(res[0]) != rc.canon() {
			r.failPath("receiver of "+m, at, s.path(), "not the receiver of the channel that is registered is returned")
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

func (p *Prog) topicRemove(r *Report, f *ssa.Function) {
	x := NewExec(p)
	x.Depth = 10
	x.GoInline = true
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "concurrency" }
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if p.isMethodCall(c.Common(), "concurrency", "Sender", "Send") {
			r.site("event of removal", p.instrPos(c))
			e := x.getter(s, args[1], "Error")
			if e != nil && !e.any(func(u *Term) bool { return u.op == "global" && strings.HasSuffix(u.aux, "ErrTopicRemoved") }) {
				r.failPath("event of removal", p.instrPos(c), s.path(), "the subscribers of a removed topic are not told with ErrTopicRemoved")
			}
			return CallAction{Kind: actOpaque}
		}
		return CallAction{}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

// oneBus: the bus is made once, with a table, and all callers get it.
func (p *Prog) oneBus(r *Report) {
	f := p.fn("concurrency", "GetEventBus")
	if f == nil {
		fatalf("lost anchor: concurrency.GetEventBus")
	}
	at := p.pos(f.Pos())
	var global *ssa.Global
	good := true
	var results func(f *ssa.Function, depth int)
	results = func(f *ssa.Function, depth int) {
		for _, b := range f.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			switch u := ret.Results[0].(type) {
			case *ssa.UnOp:
				if g, ok := u.X.(*ssa.Global); ok && (global == nil || global == g) {
					global = g
					continue
				}
			case *ssa.Call:
				if h := u.Call.StaticCallee(); h != nil && h.Blocks != nil && depth > 0 {
					results(h, depth-1)
					continue
				}
			}
			good = false
		}
	}
	results(f, 4)
	if !good {
		r.failPath("not one bus", at, nil, "GetEventBus does not always return the one bus")
		return
	}
	if global == nil {
		return
	}
	for _, g := range p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(global) {
					continue
				}
				if g.Synthetic != "" && g.Name() == "init" {
					continue
				}
				r.site("bus made", p.instrPos(in))
				if !p.onceOnly()[g] {
					r.failPath("bus replaced", p.instrPos(in), nil, "the bus can be replaced by another one in %s: who has the old one is no longer reached", fname(g))
				}
				if v := stripMake(st.Val); v != nil {
					if a, ok := v.(*ssa.Alloc); ok && !fillsMaps(a) {
						r.failPath("bus table", p.instrPos(in), nil, "the bus is made without a table of topics")
					}
				}
			}
		}
	}
}

func stripMake(v ssa.Value) ssa.Value {
	for {
		switch u := v.(type) {
		case *ssa.MakeInterface:
			v = u.X
		case *ssa.ChangeInterface:
			v = u.X
		case *ssa.ChangeType:
			v = u.X
		default:
			return v
		}
	}
}

// fillsMaps: every field of a map type gets a value where the object is made.
func fillsMaps(a *ssa.Alloc) bool {
	n := derefNamed(a.Type())
	if n == nil {
		return true
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return true
	}
	set := map[int]bool{}
	for _, ref := range *a.Referrers() {
		if fa, ok := ref.(*ssa.FieldAddr); ok {
			for _, q := range *fa.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
					if c, isC := s.Val.(*ssa.Const); !isC || c.Value != nil {
						set[fa.Field] = true
					}
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok && !set[i] {
			return false
		}
	}
	return true
}
