package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The commands of the server, as documented for clients (Redis command names), and what each
// one must do.  This is the specification the lives of the commands are compared with.
type cmdSpec struct {
	name    string
	kind    string // interface of the container the command works on
	arity   func(n int64) bool
	keys    string   // positions of the key arguments
	numeric []string // positions that must parse as integers before the command is accepted
	ops     []string // alternatives: "Method(arg;arg)"; an arg is positions, "=v" a constant, "." anything
	status  bool     // replies a status, not a value of the container
}

func exactly(k ...int64) func(int64) bool {
	return func(n int64) bool {
		for _, v := range k {
			if n == v {
				return true
			}
		}
		return false
	}
}

func atLeast(k int64) func(int64) bool { return func(n int64) bool { return n >= k } }

var cmdSpecs = []cmdSpec{
	{"set", "StringMap", exactly(2), "0", nil, []string{"Set(0;1)"}, true},
	{"get", "StringMap", exactly(1), "0", nil, []string{"Get(0)"}, false},
	{"mset", "StringMap", func(n int64) bool { return n >= 2 && n%2 == 0 }, "0*", nil, []string{"Set(0*;1*)"}, true},
	{"mget", "StringMap", atLeast(1), "0*", nil, []string{"Get(0*)"}, false},
	{"exists", "StringMap", atLeast(1), "0*", nil, []string{"Exists(0*)", "Get(0*)"}, false},
	{"strlen", "StringMap", exactly(1), "0", nil, []string{"StringLen(0)", "Get(0)"}, false},
	{"append", "StringMap", exactly(2), "0", nil, []string{"Append(0;1)"}, false},
	{"incr", "StringMap", atLeast(1), "0", nil, []string{"Increase(0;=1)"}, false},
	{"incrby", "StringMap", exactly(1, 2), "0", nil, []string{"Increase(0;1?=1)"}, false},
	{"decr", "StringMap", atLeast(1), "0", nil, []string{"Decrease(0;=1)"}, false},
	{"decrby", "StringMap", exactly(1, 2), "0", nil, []string{"Decrease(0;1?=1)"}, false},
	{"getrange", "StringMap", exactly(3), "0", []string{"1", "2"}, []string{"GetRange(0;1;2)"}, false},

	{"lpop", "ListContainer", exactly(1), "0", nil, []string{"PopHead()"}, false},
	{"rpop", "ListContainer", exactly(1), "0", nil, []string{"PopTail()"}, false},
	{"lindex", "ListContainer", exactly(2), "0", []string{"1"}, []string{"Index(1)"}, false},
	{"linsert", "ListContainer", exactly(4), "0", nil, []string{"Insert(2;3;after@1)"}, false},
	{"llen", "ListContainer", exactly(1), "0", nil, []string{"Len()"}, false},
	{"lpush", "ListContainer", atLeast(2), "0", nil, []string{"PushHead(1*)"}, false},
	{"rpush", "ListContainer", atLeast(2), "0", nil, []string{"PushTail(1*)"}, false},
	{"lrange", "ListContainer", exactly(3), "0", []string{"1", "2"}, []string{"Range(1;2)"}, false},
	{"ltrim", "ListContainer", exactly(3), "0", []string{"1", "2"}, []string{"Trim(1;2)", "Trim(=0;=-1)"}, true},
	{"lrem", "ListContainer", exactly(3), "0", []string{"1"}, []string{"Remove(1;2)"}, false},
	{"lset", "ListContainer", exactly(3), "0", []string{"1"}, []string{"Set(1;2)"}, true},

	{"hset", "HashContainer", func(n int64) bool { return n >= 3 && n%2 == 1 }, "0", nil, []string{"Set(1*;2*)"}, false},
	{"hget", "HashContainer", exactly(2), "0", nil, []string{"Get(1)"}, false},
	{"hexists", "HashContainer", exactly(2), "0", nil, []string{"Exists(1)", "Get(1)"}, false},
	{"hdel", "HashContainer", atLeast(2), "0", nil, []string{"Del(1*)"}, false},
	{"hmget", "HashContainer", atLeast(2), "0", nil, []string{"Get(1*)"}, false},
	{"hkeys", "HashContainer", exactly(1), "0", nil, []string{"Keys()", "Entries()"}, false},
	{"hvals", "HashContainer", exactly(1), "0", nil, []string{"Values()", "Entries()"}, false},
	{"hgetall", "HashContainer", exactly(1), "0", nil, []string{"Entries()"}, false},
	{"hstrlen", "HashContainer", exactly(2), "0", nil, []string{"Get(1)", "KeyLen(1)"}, false},
	{"hlen", "HashContainer", exactly(1), "0", nil, []string{"Len()"}, false},

	{"sadd", "SetContainer", atLeast(2), "0", nil, []string{"Add(1*)"}, false},
	{"srem", "SetContainer", atLeast(2), "0", nil, []string{"Delete(1*)"}, false},
	{"sismember", "SetContainer", exactly(2), "0", nil, []string{"IsMember(1)"}, false},
	{"smembers", "SetContainer", exactly(1), "0", nil, []string{"Members()"}, false},
	{"srandmember", "SetContainer", exactly(1, 2), "0", []string{"1?"}, []string{"RandomMember(1?)"}, false},
	{"spop", "SetContainer", exactly(1, 2), "0", []string{"1?"}, []string{"Pop(1?)"}, false},
	{"sdiff", "SetContainer", atLeast(1), "0*", nil, []string{"Diff(.)"}, false},
	{"sinter", "SetContainer", atLeast(1), "0*", nil, []string{"Intersect(.)"}, false},
	{"sunion", "SetContainer", atLeast(1), "0*", nil, []string{"Union(.)"}, false},
	{"scard", "SetContainer", exactly(1), "0", nil, []string{"Len()"}, false},
}

// provOK compares the argument positions a term depends on with the specification;
// exact reports that the pattern's own position was seen.
func provOK(spec string, got []string, konst string) (ok, exact bool) {
	if spec == "." {
		return true, true
	}
	if strings.HasPrefix(spec, "=") {
		return konst == spec[1:], true
	}
	if i := strings.Index(spec, "?="); i > 0 {
		// an optional argument with a documented default
		if len(got) == 0 {
			return konst == spec[i+2:], false
		}
		spec = spec[:i+1]
	}
	base := strings.TrimRight(spec, "*?")
	many, opt := strings.HasSuffix(spec, "*"), strings.HasSuffix(spec, "?")
	if len(got) == 0 {
		// a loop over no element, or the default of an optional argument
		return many || opt, false
	}
	for _, g := range got {
		switch {
		case g == base:
			exact = true
		case g == "*" && many:
		case many && len(got) >= 1 && g != "all" && laterPos(g, base):
		default:
			return false, false
		}
	}
	return true, exact
}

// laterPos accepts constant positions after the first of a repeated group.
func laterPos(g, base string) bool {
	var a, b int
	if _, err := fmt.Sscan(g, &a); err != nil {
		return false
	}
	fmt.Sscan(base, &b)
	return a > b && false
}

// flagOK: a boolean argument says whether the request argument at pos is the given word.
func (x *Exec) flagOK(s *State, v *Term, word, pos string) (ok, exact bool) {
	b, isC := v.boolVal()
	if !isC {
		src := x.sources(s, v, "args")
		return len(src) == 0 || len(src) == 1 && src[0] == pos, true
	}
	for t, f := range s.facts {
		if f.truth == 0 {
			continue
		}
		src := x.sources(s, t, "args")
		if len(src) != 1 || src[0] != pos {
			continue
		}
		w, found := "", false
		for _, a := range t.args {
			if k, isS := a.strVal(); isS && (t.op == "cmp" && t.aux == "==" || t.op == "pure" && t.aux == "strings.EqualFold") {
				w, found = k, true
			}
		}
		if !found || f.truth != 1 {
			continue
		}
		if (strings.ToLower(w) == word) != b {
			return false, false
		}
	}
	return true, true
}

func splitOp(s string) (string, []string) {
	i := strings.IndexByte(s, '(')
	in := strings.TrimSuffix(s[i+1:], ")")
	if in == "" {
		return s[:i], nil
	}
	return s[:i], strings.Split(in, ";")
}

// isAccess reports whether a term is (derived from) one of the access objects.
func isAccess(t *Term) bool {
	return t.any(func(u *Term) bool { return u.op == "elemaddr" && u.args[0].op == "param" && u.args[0].aux == "objs" })
}

// containerOp reports calls of the container API in Execute on an access object.
func containerOp(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) (string, bool) {
	cc := c.Common()
	if !cc.IsInvoke() || !inPkg(callees, "container") || s.get("stage") != "Execute" || len(args) == 0 {
		return "", false
	}
	switch cc.Method.Name() {
	case "Type", "Key":
		return "", false
	}
	return cc.Method.Name(), isAccess(args[0])
}

func init() {
	register("C04", "every command runs its own operation on its own arguments", ruleCommandTable)
	register("C05", "every executed command yields a reply or an error", ruleResults)
	register("C06", "a request with unusable arguments is rejected before it runs", ruleArity)
	register("C07", "commands on absent keys never crash the server", ruleNilObjects)
}

// kindConst finds the constant returned by Type() of the containers implementing iface.
func (p *Prog) kindConst(iface string) int64 {
	i := p.iface("container", iface)
	out := int64(-1)
	for _, t := range p.implementers(i) {
		m := p.methodAny(t, "Type")
		v, ok := p.constResult(m)
		if !ok {
			fatalf("undecided: %s does not return a constant", fname(m))
		}
		if out >= 0 && out != v {
			fatalf("undecided: implementations of %s report different types", iface)
		}
		out = v
	}
	if out < 0 {
		fatalf("anchor lost: no implementation of container.%s", iface)
	}
	return out
}

// constResult evaluates a method that returns one constant.
func (p *Prog) constResult(f *ssa.Function) (int64, bool) {
	if f == nil || f.Blocks == nil {
		return 0, false
	}
	x := NewExec(p)
	var vals []int64
	bad := false
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		if len(res) == 1 {
			if v, ok := res[0].intVal(); ok {
				vals = append(vals, v)
				return
			}
		}
		bad = true
	}
	x.Run(f, nil, nil)
	if bad || len(vals) == 0 {
		return 0, false
	}
	for _, v := range vals {
		if v != vals[0] {
			return 0, false
		}
	}
	return vals[0], true
}

func constVal(p *Prog, pkg, name string) int64 {
	o := p.pkg(pkg).Pkg.Scope().Lookup(name)
	c, ok := o.(*types.Const)
	if !ok {
		fatalf("anchor lost: constant %s.%s", pkg, name)
	}
	v, _ := constant.Int64Val(c.Val())
	return v
}

func ruleCommandTable(p *Prog, r *Report) {
	r.rule("For each of the %d command names the life of the command (NewCommand with that name, TargetContainerType, Keys, SetAccessObjects, Execute, Result, in this order on one object) is followed on every path by a path-sensitive dataflow that inlines the command package; the container kind, the key positions, the container operations called on the access object and the request positions every operation argument is computed from must be those of the frozen command table; a path that ends without an error on a present object must have called its operation exactly on that object, and the value a command replies must come from the operation's result.", len(cmdSpecs))
	r.assume("the bodies of the container operations are opaque here; what they compute is not decided by this rule")
	for i := range cmdSpecs {
		sp := cmdSpecs[i]
		kind := p.kindConst(sp.kind)
		calls, accepted := 0, 0
		exact := map[string]bool{}
		keysSeen := false
		replyFromOp := false
		p.life(r, &sp.name, lifeHooks{
			call: func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) {
				if s.get("stage") != "Execute" {
					return
				}
				m, onObj := containerOp(x, s, c, callees, args)
				if m == "" || !onObj {
					return
				}
				calls++
				where := p.instrPos(c)
				okAny := false
				for _, alt := range sp.ops {
					name, ps := splitOp(alt)
					if name != m || len(ps) != len(args)-1 {
						continue
					}
					okAlt := true
					var ex []string
					for k, ps1 := range ps {
						konst := ""
						if args[k+1].isConst() {
							konst = args[k+1].String()
						}
						var ok, e bool
						if j := strings.Index(ps1, "@"); j > 0 {
							ok, e = x.flagOK(s, args[k+1], ps1[:j], ps1[j+1:])
						} else {
							ok, e = provOK(ps1, x.sources(s, args[k+1], "args"), konst)
						}
						if !ok {
							okAlt = false
						}
						if e {
							ex = append(ex, fmt.Sprintf("%s/%d", alt, k))
						}
					}
					if okAlt {
						okAny = true
						for _, e := range ex {
							exact[e] = true
						}
					}
				}
				if !okAny {
					if !inSpec(sp, m) && !p.mayMutateVia(callees) {
						// a further read of the object is harmless
						return
					}
					var as []string
					for _, a := range args[1:] {
						as = append(as, "args["+strings.Join(x.sources(s, a, "args"), ",")+"]"+constSuffix(a))
					}
					r.failPath(sp.name+" op "+m, where, s.path(), "command %q calls %s(%s), expected %s", sp.name, m, strings.Join(as, "; "), strings.Join(sp.ops, " or "))
					return
				}
				s.set("op", "1")
			},
			br: func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
				// the reply is chosen by the operation's result
				if s.get("op") != "" && x.fromOp(s, cond) && !isErrTest(cond) {
					replyFromOp = true
				}
			},
		}, func(x *Exec, s *State, l *Life) {
			if !l.created {
				return
			}
			accepted++
			if l.kind != kind {
				r.failPath(sp.name+" kind", "pkg/command", l.path, "command %q works on container type %d, expected %d (%s)", sp.name, l.kind, kind, sp.kind)
			}
			ks := x.sources(s, l.keys, "args")
			if ok, e := provOK(sp.keys, ks, ""); !ok {
				r.failPath(sp.name+" keys", "pkg/command", l.path, "command %q takes its keys from request positions %v, expected %s", sp.name, ks, sp.keys)
			} else if e {
				keysSeen = true
			}
			if l.errNil == 1 && s.get("op") == "" && !x.objMissing(s) {
				r.failPath(sp.name+" no-op", "pkg/command", l.path, "command %q answers success on a present object without having called %s", sp.name, strings.Join(sp.ops, " or "))
			}
			if s.get("op") != "" && l.res.any(func(u *Term) bool { return u.op == "call" || u.op == "pure" }) || x.fromOp(s, l.res) {
				replyFromOp = true
			}
		})
		r.site("command", sp.name)
		if calls == 0 {
			r.fail(sp.name+" never", "pkg/command", "command %q never calls %s", sp.name, strings.Join(sp.ops, " or "))
		}
		if !keysSeen {
			r.fail(sp.name+" keys0", "pkg/command", "command %q never takes a key from position %s", sp.name, sp.keys)
		}
		if !sp.status && !replyFromOp {
			r.fail(sp.name+" reply", "pkg/command", "the reply of %q never depends on the result of %s", sp.name, strings.Join(sp.ops, " or "))
		}
		// every position of one alternative must have been seen exactly
		okAlt := false
		var missing []string
		for _, alt := range sp.ops {
			_, ps := splitOp(alt)
			all := true
			for k := range ps {
				if !exact[fmt.Sprintf("%s/%d", alt, k)] {
					all = false
					missing = append(missing, fmt.Sprintf("%s argument %d", alt, k+1))
				}
			}
			if all {
				okAlt = true
			}
		}
		if !okAlt && calls > 0 {
			r.fail(sp.name+" positions", "pkg/command", "command %q never passes the expected request argument: %s", sp.name, strings.Join(missing, ", "))
		}
		if accepted == 0 {
			r.fail(sp.name+" accepted", "pkg/command", "no request makes command %q run", sp.name)
		}
	}
	r.min("command", len(cmdSpecs))
}

// isErrTest: the condition only asks whether an error was returned.
func isErrTest(t *Term) bool {
	for t.op == "not" {
		t = t.args[0]
	}
	for _, a := range t.args {
		if a.typ != nil && types.Identical(a.typ, types.Universe.Lookup("error").Type()) {
			return true
		}
	}
	return false
}

func constSuffix(t *Term) string {
	if t.isConst() {
		return "=" + t.String()
	}
	return ""
}

func inSpec(sp cmdSpec, m string) bool {
	for _, a := range sp.ops {
		if n, _ := splitOp(a); n == m {
			return true
		}
	}
	return false
}

func (p *Prog) mayMutateVia(fs []*ssa.Function) bool {
	a := p.mutations("container")
	for _, f := range fs {
		if _, m := a.mutatesParam(f, 0); m {
			return true
		}
	}
	return false
}

// objMissing: the path knows that (one of) the access object is nil, or that there is none.
func (x *Exec) objMissing(s *State) bool {
	for t, f := range s.facts {
		if f.nilness == 1 && t.op == "load" && isAccess(t) {
			return true
		}
		if t.op == "param" && t.aux == "objs" && f.nilness == 1 {
			return true
		}
		if t.op == "len" && t.args[0].op == "param" && t.args[0].aux == "objs" && f.hasDom && f.dom == domBit(0) {
			return true
		}
	}
	return false
}

// fromOp reports whether a term was computed from the result of a container operation.
func (x *Exec) fromOp(s *State, t *Term) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if u == nil || seen[u] || found {
			return
		}
		seen[u] = true
		if u.op == "call" && len(u.args) > 0 && isAccess(u.args[0]) {
			found = true
			return
		}
		if u.op == "alloc" || u.op == "make" {
			for a, v := range s.store {
				b := a
				for b.op == "fieldaddr" || b.op == "elemaddr" || b.op == "mapcell" || b.op == "elemsum" {
					b = b.args[0]
				}
				if b == u {
					walk(v)
				}
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t)
	return found
}

func ruleResults(p *Prog, r *Report) {
	r.rule("For each command name the life of the command is followed on every path; on every path from an accepted request through Execute to Result, the pair returned by Result must hold a reply object or an error, and Execute and Result must come back (no path through them ends in an explicit panic).")
	for i := range cmdSpecs {
		sp := cmdSpecs[i]
		paths := 0
		p.life(r, &sp.name, lifeHooks{
			pan: func(x *Exec, s *State, in *ssa.Panic) {
				r.failPath(sp.name+" panic "+fname(in.Parent()), p.instrPos(in), s.path(), "command %q panics explicitly", sp.name)
			},
		}, func(x *Exec, s *State, l *Life) {
			if !l.created {
				return
			}
			paths++
			if l.errNil == 2 || l.resNil == 2 {
				return
			}
			r.failPath(sp.name+" result", "pkg/command", l.path, "command %q comes back with neither a reply nor an error (reply: %s, error: %s)", sp.name, nilText(l.resNil), nilText(l.errNil))
		})
		if paths > 0 {
			r.site("command", sp.name)
		}
	}
	r.min("command", len(cmdSpecs))
}

func nilText(n int8) string {
	switch n {
	case 1:
		return "nil"
	case 2:
		return "set"
	}
	return "may be nil"
}

func domText(d uint64) string {
	var out []string
	for v := int64(0); v <= 40; v++ {
		if d&domBit(v) != 0 {
			if v > 6 {
				out = append(out, "...")
				break
			}
			out = append(out, fmt.Sprint(v))
		}
	}
	return "{" + strings.Join(out, ",") + "}"
}

func ruleArity(p *Prog, r *Report) {
	r.rule("For each command name NewCommand is followed on every path with an unknown argument list whose length is tracked as a set (0..40 and larger, so parity counts); the lengths accepted must be exactly those of the command table, integer positions must have been parsed without an error on every accepted path, every accepted request consumed as strings must have been checked to be strings, rejections must carry the invalid-argument error, a request with a valid number of arguments is only rejected for what its arguments are, a name is known in every case of its letters, and an unknown name the unknown-command error.")
	for i := range cmdSpecs {
		sp := cmdSpecs[i]
		var acc uint64
		rejected := 0
		p.life(r, &sp.name, lifeHooks{}, func(x *Exec, s *State, l *Life) {
			if !l.created {
				rejected++
				if l.end == "nil command" {
					r.failPath(sp.name+" nil", "pkg/command", l.path, "NewCommand(%q) returns neither a command nor an error", sp.name)
					return
				}
				if !mentionsGlobal(x, s, l.err, "command.ErrArgumentInvalid") {
					r.failPath(sp.name+" reject", "pkg/command", l.path, "command %q rejects its arguments with an error that is not ErrArgumentInvalid (%s)", sp.name, l.err)
				}
				if !x.contentKnown(s) {
					valid := l.argDom&domBig != 0 && sp.arity(43) && sp.arity(44)
					for n := int64(0); n <= 40; n++ {
						if l.argDom&domBit(n) != 0 && sp.arity(n) {
							valid = true
						}
					}
					if valid {
						r.failPath(sp.name+" refused", "pkg/command", l.path, "command %q can reject a request with a valid number of arguments without having looked at any argument (path covers %s)", sp.name, domText(l.argDom))
					}
				}
				return
			}
			acc |= l.argDom
			for n := int64(0); n <= 40; n++ {
				if l.argDom&domBit(n) != 0 && !sp.arity(n) {
					r.failPath(sp.name+" arity", "pkg/command", l.path, "command %q accepts a request with %d arguments (path accepts %s)", sp.name, n, domText(l.argDom))
					break
				}
			}
			if l.argDom&domBig != 0 && !sp.arity(43) && !sp.arity(44) {
				r.failPath(sp.name+" arity", "pkg/command", l.path, "command %q accepts a request with any number of arguments above 40", sp.name)
			}
			for _, pos := range sp.numeric {
				opt := strings.HasSuffix(pos, "?")
				if opt && l.argDom&^domBit(1) == 0 {
					continue
				}
				if !x.parsedOK(s, strings.TrimSuffix(pos, "?")) {
					r.failPath(sp.name+" numeric "+pos, "pkg/command", l.path, "command %q is accepted although its argument %s was not parsed as an integer without an error", sp.name, strings.TrimSuffix(pos, "?"))
				}
			}
		})
		for n := int64(0); n <= 40; n++ {
			if sp.arity(n) && acc&domBit(n) == 0 {
				r.fail(sp.name+" refuses", "pkg/command", "command %q accepts no request with %d arguments", sp.name, n)
				break
			}
		}
		if rejected > 0 {
			r.site("command", sp.name)
		}
	}
	r.min("command", len(cmdSpecs))
	// clients write command names in any case
	newCmd := p.fn("command", "NewCommand")
	for i := range cmdSpecs {
		for _, nm := range []string{strings.ToUpper(cmdSpecs[i].name), strings.ToUpper(cmdSpecs[i].name[:1]) + cmdSpecs[i].name[1:]} {
			x := NewExec(p)
			x.Opaque = p.lifeOpaque
			ok := false
			x.H.Call = p.accessorCall
			x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
				if len(s.frames) == 1 && len(res) == 2 && x.Nilness(s, res[1]) == 1 && x.Nilness(s, res[0]) != 1 {
					ok = true
				}
			}
			x.Run(newCmd, []*Term{x.tp.strT(nm), nil, x.tp.mk("param", "args", newCmd.Params[2].Type())}, nil)
			r.exec(x)
			r.site("name in another case", nm)
			if !ok {
				r.fail(cmdSpecs[i].name+" case", p.pos(newCmd.Pos()), "no request makes the command %q run when its name is written %q", cmdSpecs[i].name, nm)
			}
		}
	}
	// unknown names
	n := 0
	unknown := "no-such-command"
	p.life(r, &unknown, lifeHooks{}, func(x *Exec, s *State, l *Life) {
		n++
		if l.created || l.end == "nil command" || !mentionsGlobal(x, s, l.err, "command.ErrCommandNotExist") {
			r.failPath("unknown name", "pkg/command", l.path, "NewCommand with an unregistered name does not return ErrCommandNotExist")
		}
	})
	if n > 0 {
		r.site("unknown", unknown)
	}
	r.min("unknown", 1)
}

// contentKnown: something about an argument itself, not just their number, is known.
func (x *Exec) contentKnown(s *State) bool {
	for t := range s.facts {
		if t.any(func(u *Term) bool {
			return u.op == "elemaddr" && u.args[0].op == "param" && u.args[0].aux == "args"
		}) {
			return true
		}
	}
	return false
}

// parsedOK: the path knows that a parser applied to the argument at pos gave no error.
func (x *Exec) parsedOK(s *State, pos string) bool {
	for t, f := range s.facts {
		if f.nilness != 1 || t.op != "pure" || !strings.HasSuffix(t.aux, "#1") {
			continue
		}
		src := x.sources(s, t, "args")
		if len(src) == 1 && src[0] == pos {
			return true
		}
	}
	return false
}

// mentionsGlobal reports whether an error is, or wraps, a package-level sentinel.
func mentionsGlobal(x *Exec, s *State, t *Term, g string) bool {
	found := false
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if u == nil || seen[u] {
			return
		}
		seen[u] = true
		if u.op == "global" && u.aux == g {
			found = true
		}
		if u.op == "alloc" || u.op == "make" {
			for a, v := range s.store {
				b := a
				for b.op == "fieldaddr" || b.op == "elemaddr" {
					b = b.args[0]
				}
				if b == u {
					walk(v)
				}
			}
		}
		for _, a := range u.args {
			walk(a)
		}
	}
	walk(t)
	return found
}

func ruleNilObjects(p *Prog, r *Report) {
	r.rule("For each command name the life of the command is followed on every path with access objects that may be nil (an absent key, or the empty key which no container is created for), except for the global string map, which always exists. A method call on an access object needs the path to know that it is not nil; an unchecked type assertion on it needs every container type of the command's kind to implement the asserted interface; a value returned by a container operation together with an error may only be used when the error is known to be nil; an element of the result of Get, which is nil for an absent key, may only be used after a nil check.")
	kinds := map[string][]types.Type{}
	for _, k := range []string{"StringMap", "ListContainer", "HashContainer", "SetContainer"} {
		kinds[k] = p.implementers(p.iface("container", k))
	}
	for i := range cmdSpecs {
		sp := cmdSpecs[i]
		uses := 0
		p.life(r, &sp.name, lifeHooks{
			call: func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) {
				cc := c.Common()
				if s.get("stage") != "Execute" && s.get("stage") != "SetAccessObjects" && s.get("stage") != "Result" {
					return
				}
				if cc.IsInvoke() && isAccess(args[0]) && !isOpResult(args[0]) {
					uses++
					r.site("call on access object", p.instrPos(c))
					if sp.kind != "StringMap" && x.Nilness(s, args[0]) != 2 && !x.substituted(s, args[0]) {
						r.failPath(sp.name+" nil "+cc.Method.Name(), p.instrPos(c), s.path(), "command %q calls %s on its access object, which may be nil here (absent or empty key)", sp.name, cc.Method.Name())
					}
				}
				// results of operations
				f := cc.StaticCallee()
				if f != nil && f.Signature.Recv() != nil && len(args) > 0 && pkgName(unwrap(f)) == "container" {
					x.checkOpResult(r, sp.name, s, c, args[0])
				}
				if x.isOp(s, c, callees, args) {
					rs := cc.Signature().Results()
					if rs.Len() == 2 && types.Identical(rs.At(1).Type(), types.Universe.Lookup("error").Type()) {
						s.set("pend", "1")
					}
				}
			},
			ta: func(x *Exec, s *State, v *Term, in *ssa.TypeAssert) {
				if in.CommaOk || !isAccess(v) || isOpResult(v) {
					return
				}
				r.site("unchecked assertion", p.instrPos(in))
				it, ok := in.AssertedType.Underlying().(*types.Interface)
				bad := !ok
				if ok {
					for _, t := range kinds[sp.kind] {
						if !types.Implements(t, it) {
							bad = true
						}
					}
				}
				if bad {
					r.failPath(sp.name+" assert "+in.AssertedType.String(), p.instrPos(in), s.path(), "command %q asserts its %s access object to be a %s, which panics", sp.name, sp.kind, in.AssertedType)
				}
				if sp.kind != "StringMap" && x.Nilness(s, v) != 2 && !x.substituted(s, v) {
					r.failPath(sp.name+" assert nil", p.instrPos(in), s.path(), "command %q asserts the type of an access object that may be nil", sp.name)
				}
			},
		}, func(x *Exec, s *State, l *Life) {})
		if uses > 0 {
			r.site("command", sp.name)
		}
	}
	r.min("command", len(cmdSpecs))
	r.min("unchecked assertion", 4)
	r.min("use of an element of Get", 1)
}

func isOpResult(t *Term) bool {
	return t.any(func(u *Term) bool { return u.op == "call" })
}

func (x *Exec) isOp(s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) bool {
	m, on := containerOp(x, s, c, callees, args)
	return m != "" && on
}

// substituted: an element of a slice the command filled itself, where nil was replaced.
func (x *Exec) substituted(s *State, t *Term) bool { return false }

// checkOpResult checks the use of a value returned by a container operation.
func (x *Exec) checkOpResult(r *Report, cmd string, s *State, c ssa.CallInstruction, v *Term) {
	if v.op == "call" && v.site != nil && len(v.args) > 0 && isAccess(v.args[0]) {
		call, ok := v.site.(ssa.CallInstruction)
		if !ok {
			return
		}
		rs := call.Common().Signature().Results()
		if rs.Len() != 2 || !types.Identical(rs.At(1).Type(), types.Universe.Lookup("error").Type()) || !strings.HasSuffix(v.aux, ".0") {
			return
		}
		r.site("use of an operation result", x.p.instrPos(c))
		e := x.tp.mk("call", strings.TrimSuffix(v.aux, ".0")+".1", rs.At(1).Type(), v.args...)
		if x.Nilness(s, e) != 1 && x.Nilness(s, v) != 2 {
			r.failPath(cmd+" result of "+call.Common().Method.Name(), x.p.instrPos(c), s.path(), "command %q uses the value returned by %s although its error may be set", cmd, call.Common().Method.Name())
		}
		return
	}
	// element of a result slice
	if (v.op == "load" || v.op == "elem") && len(v.args) == 1 && v.args[0].op == "elemaddr" {
		b := v.args[0].args[0]
		if b.op == "call" && b.site != nil && len(b.args) > 0 && isAccess(b.args[0]) {
			call, ok := b.site.(ssa.CallInstruction)
			if !ok || !call.Common().IsInvoke() || call.Common().Method.Name() != "Get" {
				return
			}
			r.site("use of an element of Get", x.p.instrPos(c))
			if x.Nilness(s, v) != 2 {
				r.failPath(cmd+" element of Get", x.p.instrPos(c), s.path(), "command %q uses an element returned by Get without checking that the key exists", cmd)
			}
		}
	}
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
