package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "the engine executes the command of the request and answers with its result", ruleOwnResult)
}

// restOf: t is everything of a slice from element 1 on; the slice is given.
func restOf(t *Term) (base *Term, from int64, whole bool) {
	t = stripConv(t)
	whole = true
	for t.op == "slice" {
		if len(t.args) > 1 && t.args[1] != nil {
			k, ok := t.args[1].intVal()
			if !ok && !t.args[1].isNil() {
				whole = false
			}
			from += k
		}
		if len(t.args) > 2 && !t.args[2].isNil() {
			if h := t.args[2]; !(h.op == "len" && rootSlice(h.args[0]) == rootSlice(t.args[0])) {
				whole = false
			}
		}
		t = stripConv(t.args[0])
	}
	return t, from, whole
}

func ruleOwnResult(p *Prog, r *Report) {
	r.rule("The engine loop is followed on every path, with the functions it calls inlined down to the making and executing of a command. A command made between two calls of Receive must be made from the request of the event taken last: its name is the text of the first element of that request, its arguments are all the elements after the first. It is executed exactly once where it was made without an error, on the database with the index it was made for, and nothing but it is executed; at most one record is handed to the file, and only for a command of the changing type. No command need be made only from a request known to be no list, an empty list, or a list that does not begin with a text. The response published is the value of the Result of that command where its error is known to be nil, and an error reply on every other path.")
	start := p.impl("db", "Engine", "Start")
	newCmd := p.fn("command", "NewCommand")
	errT := p.iface("protocol", "RedisError")
	modify := constVal(p, "command", "ModifyCommandType")
	x := p.engineExec()
	x.Depth = 10
	op := x.Opaque
	makesErr := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		f := c.Common().StaticCallee()
		return pkgName(fn) == "db" && f != nil && pkgName(f) == "protocol" && strings.HasPrefix(f.Name(), "New")
	})
	x.Opaque = func(f *ssa.Function) bool {
		if makesErr[f] && pkgName(f) == "db" && !typeIs(f, errT) {
			return false
		}
		return op(f)
	}
	clear := func(s *State) {
		for _, k := range []string{"cmd", "cmderr", "res", "reserr", "done", "recs", "index", "event", "marshalled"} {
			s.del(k)
		}
	}
	ofRequest := func(s *State, t *Term) bool {
		ev := s.getT("event")
		return ev != nil && t.any(func(u *Term) bool {
			if u.op != "pure" || u.aux != ".Get#0" || len(u.args) != 2 {
				return false
			}
			k, ok := u.args[1].strVal()
			return ok && k == "request" && u.mentions(ev)
		})
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		where := p.instrPos(c)
		switch {
		case p.isMethodCall(cc, "concurrency", "Receiver", "Receive"):
			clear(s)
			return CallAction{Kind: actOpaque}
		case len(callees) == 1 && callees[0] == newCmd:
			r.site("command made", where)
			if s.getT("cmd") != nil {
				r.failPath("second command", where, s.path(), "a second command is made for one request")
			}
			s.setT("index", args[1])
			base, from, whole := restOf(args[2])
			switch {
			case base.op != "elements" || base.args[0] != s.getT("event"):
				r.failPath("arguments of another", where, s.path(), "the arguments of the command are %s, not those of the request at hand", args[2])
			case from != 1 || !whole:
				r.failPath("arguments cut", where, s.path(), "the command does not get exactly the elements after the first one as its arguments: %s", args[2])
			}
			if n := stripConv(args[0]); n.op != "text" || n.args[1] != s.getT("event") {
				r.failPath("name changed", where, s.path(), "the command is made with the name %s, not with the text of an element of the request", n)
			} else if !isZero(n.args[0]) {
				r.failPath("name of another", where, s.path(), "the name of the command is taken from element %s of the request, not from the first", n.args[0])
			}
			return CallAction{Kind: actOpaque}
		case p.cmdMethod(c) == "Execute":
			r.site("execution", where)
			if s.getT("cmd") == nil || !same(args[0], s.getT("cmd")) {
				r.failPath("executes another", where, s.path(), "what is executed is %s, not the command made from the request at hand", args[0])
			}
			if s.get("done") != "" {
				r.failPath("executed twice", where, s.path(), "the command of a request can be executed twice")
			}
			s.set("done", "1")
			return CallAction{Kind: actOpaque}
		case p.isMethodCall(cc, "db", "DB", "ExecuteCommand"):
			if ix := s.getT("index"); ix != nil && len(args) == 2 {
				if got := dbIndex(args[0]); got != nil {
					r.site("database", where)
					if sm, known := sameTerm(got, ix); !known || !sm {
						r.failPath("other database", where, s.path(), "the command is executed on database %s, it was made for database %s", got, ix)
					}
				}
			}
			return CallAction{}
		case isMarshal(libName(cc)):
			if t := s.getT("cmd"); t != nil {
				ty := x.tp.mk("pure", ".Type", p.named("command", "CommandType"), x.bound([]*Term{t.canon()})...)
				if x.Truth(s, x.binop(s, token.EQL, ty, x.tp.constant(constInt(modify), p.named("command", "CommandType")), types.Typ[types.Bool])) != 1 {
					r.failPath("record of a read", where, s.path(), "a record is written although the command is not known to be one that changes anything")
				}
			}
			if s.get("marshalled") != "" {
				r.failPath("recorded twice", where, s.path(), "two records can be written for one request")
			}
			s.set("marshalled", "1")
		case p.isMethodCall(cc, "types", "DataMap", "Set") && len(args) == 3:
			if k, ok := args[1].strVal(); ok && k == "response" {
				ownResponse(p, r, x, s, c, args[2], errT)
			}
		}
		if methodName(cc) == "Data" && p.isMethodCall(cc, "protocol", "RedisString", "Data") {
			if el := elemOf(args[0]); el != nil && el.args[0].op == "elements" {
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.mk("text", "", cc.Signature().Results().At(0).Type(), el.args[1], el.args[0].args[0])}}
			}
		}
		if methodName(cc) == "Data" && p.isMethodCall(cc, "protocol", "RedisArray", "Data") && ofRequest(s, args[0]) {
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.mk("elements", "", cc.Signature().Results().At(0).Type(), s.getT("event"))}}
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		switch {
		case p.isMethodCall(c.Common(), "concurrency", "Receiver", "Receive") && len(res) == 2:
			s.setT("event", res[0])
		case len(callees) == 1 && callees[0] == newCmd && len(res) == 2:
			s.setT("cmd", res[0])
			s.setT("cmderr", res[1])
		case p.cmdMethod(c) == "Result" && len(res) == 2:
			if s.getT("cmd") != nil && same(args[0], s.getT("cmd")) && s.get("done") != "" {
				s.setT("res", res[0])
				s.setT("reserr", res[1])
			}
		}
	}
	x.Run(start, nil, nil)
	r.exec(x)
	r.min("command made", 1)
	r.min("execution", 1)
	r.min("response", 1)
}

func same(a, b *Term) bool { return stripConv(a) == stripConv(b) }

func isZero(t *Term) bool { k, ok := t.intVal(); return ok && k == 0 }

// elemOf: the address of the slice element the term was loaded from.
func elemOf(t *Term) *Term {
	var out *Term
	t.any(func(u *Term) bool {
		if (u.op == "load" || u.op == "reload" || u.op == "elem") && len(u.args) > 0 && u.args[0].op == "elemaddr" {
			out = u.args[0]
			return true
		}
		return false
	})
	return out
}

// typeIs: every result of the function is of a type that implements the interface.
func typeIs(f *ssa.Function, it *types.Interface) bool {
	rs := f.Signature.Results()
	return rs.Len() == 1 && types.Implements(rs.At(0).Type(), it)
}

func isErrReply(v *Term, it *types.Interface) bool {
	ok := false
	for {
		if v.typ != nil && types.Implements(v.typ, it) {
			ok = true
		}
		if (v.op == "conv" || v.op == "chg" || v.op == "mi") && len(v.args) == 1 {
			v = v.args[0]
			continue
		}
		return ok
	}
}

// ownResponse: what is put into the answer is the result of the command, or an error.
func ownResponse(p *Prog, r *Report, x *Exec, s *State, c ssa.CallInstruction, v *Term, errT *types.Interface) {
	where := p.instrPos(c)
	r.site("response", where)
	res, rerr := s.getT("res"), s.getT("reserr")
	good := res != nil && x.Nilness(s, rerr) == 1
	if s.getT("cmd") == nil && !x.holdsNoCommand(s) {
		r.failPath("refused", where, s.path(), "a request is answered without a command having been made from it, although it may be a list that begins with a text")
	}
	if s.get("done") == "" {
		if e := s.getT("cmderr"); e != nil && x.Nilness(s, e) != 2 && x.Nilness(s, s.getT("cmd")) != 1 {
			r.failPath("not executed", where, s.path(), "a response is given although the command made from the request was not executed")
		}
	}
	switch {
	case good && same(v, res):
	case good:
		r.failPath("other result", where, s.path(), "the command gave a result without an error, but the response is %s", v)
	case !isErrReply(v, errT):
		r.failPath("no error reply", where, s.path(), "the request was not executed with success, but the response %s is no error reply", v)
	case x.Nilness(s, v) == 1:
		r.failPath("nil reply", where, s.path(), "the response can be nothing at all")
	}
}

// holdsNoCommand: the request at hand is no list, an empty one, or one that does not begin with a text.
func (x *Exec) holdsNoCommand(s *State) bool {
	ev := s.getT("event")
	if ev == nil {
		return false
	}
	for t, f := range s.facts {
		if f.truth == 2 && t.op == "ok" && t.mentions(ev) && (strings.HasSuffix(t.aux, ".RedisArray") && !t.any(func(u *Term) bool { return u.op == "elements" }) || strings.HasSuffix(t.aux, ".RedisString") && isZero(firstIndex(t))) {
			return true
		}
		if t.op == "len" && t.args[0].canon().op == "elements" {
			if d, ok := x.domain(s, t); ok && d == domBit(0) {
				return true
			}
		}
	}
	return false
}

// firstIndex: the index of the element the term is about.
func firstIndex(t *Term) *Term {
	if el := elemOf(t); el != nil && el.args[0].op == "elements" {
		return el.args[1]
	}
	return t
}
