package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C20", "status and error replies stay on one line", ruleOneLine)
	register("C21", "every reply object has its RESP form", ruleEncode)
}

// ---- C20: no line breaks in simple strings and errors ----

// lineSafe follows a text back to where it comes from; it returns the first source that can
// hold a line break.
type lineSafe struct {
	p     *Prog
	seen  map[ssa.Value]bool
	seenF map[*types.Var]bool
	live  map[*ssa.Function]bool
	n     int
}

func (l *lineSafe) text(v ssa.Value) (where string, bad bool) {
	if l.seen[v] {
		return "", false
	}
	l.seen[v] = true
	l.n++
	pos := func(w ssa.Value) string {
		if in, ok := w.(ssa.Instruction); ok {
			return l.p.instrPos(in)
		}
		return l.p.pos(w.Pos())
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
		return "", false
	}
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.String && strings.ContainsAny(constant.StringVal(i.Value), "\r\n") {
			return "constant with a line break", true
		}
		return "", false
	case *ssa.Phi:
		return l.all(i.Edges...)
	case *ssa.BinOp:
		return l.all(i.X, i.Y)
	case *ssa.Convert:
		return l.text(i.X)
	case *ssa.ChangeType:
		return l.text(i.X)
	case *ssa.MakeInterface:
		return l.text(i.X)
	case *ssa.ChangeInterface:
		return l.text(i.X)
	case *ssa.TypeAssert:
		return l.text(i.X)
	case *ssa.Slice:
		return l.text(i.X)
	case *ssa.Extract:
		return l.text(i.Tuple)
	case *ssa.Lookup:
		return l.text(i.X)
	case *ssa.Index:
		return l.text(i.X)
	case *ssa.UnOp:
		return l.text(i.X)
	case *ssa.FieldAddr:
		return l.field(fieldVar(i.X.Type(), i.Field), pos(v))
	case *ssa.Field:
		return l.field(fieldVar(i.X.Type(), i.Field), pos(v))
	case *ssa.IndexAddr:
		return l.text(i.X)
	case *ssa.MakeMap, *ssa.Alloc, *ssa.MakeSlice:
		return l.stores(v)
	case *ssa.Global:
		for _, f := range l.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && rootAddr(st.Addr) == ssa.Value(i) {
						if w, bad := l.text(st.Val); bad {
							return w, true
						}
					}
					if mu, ok := in.(*ssa.MapUpdate); ok {
						if u, ok := mu.Map.(*ssa.UnOp); ok && u.X == ssa.Value(i) {
							if w, bad := l.text(mu.Value); bad {
								return w, true
							}
						}
					}
				}
			}
		}
		return "", false
	case *ssa.Parameter:
		f := i.Parent()
		k := -1
		for j, q := range f.Params {
			if q == i {
				k = j
			}
		}
		cs := l.p.callersOf(f)
		n := 0
		for _, c := range cs {
			if !l.live[c.Fn] {
				continue
			}
			n++
			cc := c.Instr.Common()
			var a ssa.Value
			if cc.IsInvoke() {
				if k == 0 {
					a = cc.Value
				} else {
					a = cc.Args[k-1]
				}
			} else if k < len(cc.Args) {
				a = cc.Args[k]
			}
			if a == nil {
				return pos(v), true
			}
			if w, bad := l.text(a); bad {
				return w, true
			}
		}
		if n == 0 && l.live[f] {
			return pos(v), true
		}
		return "", false
	case *ssa.Call:
		cc := &i.Call
		name := libName(cc)
		switch name {
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatFloat", "strconv.FormatBool", "strconv.Quote", "strconv.QuoteToASCII":
			return "", false
		case "strings.ReplaceAll", "strings.Replace", "strings.Map", "(*strings.Replacer).Replace", "strings.Fields":
			return "", false // taken to remove what does not belong into a line
		case "errors.New", "strings.ToUpper", "strings.ToLower", "strings.TrimSpace", "strings.TrimSuffix", "strings.TrimPrefix", "strings.Join", "strings.Repeat", "strings.Title", "(error).Error":
			if cc.IsInvoke() {
				return l.text(cc.Value)
			}
			return l.text(cc.Args[0])
		case "fmt.Sprintf", "fmt.Errorf":
			f, ok := cc.Args[0].(*ssa.Const)
			if !ok {
				return pos(v), true
			}
			if w, bad := l.text(f); bad {
				return w, true
			}
			format := constant.StringVal(f.Value)
			if onlyVerbs(format, "dqtxXbof") {
				return "", false
			}
			return l.text(cc.Args[1])
		case "fmt.Sprint", "builtin.append":
			return l.all(cc.Args...)
		}
		fs := l.p.callees(i)
		if len(fs) == 0 {
			return pos(v), true
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					if w, bad := l.all(r.Results...); bad {
						return w, true
					}
				}
			}
		}
		return "", false
	}
	return pos(v), true
}

func (l *lineSafe) all(vs ...ssa.Value) (string, bool) {
	for _, v := range vs {
		if w, bad := l.text(v); bad {
			return w, true
		}
	}
	return "", false
}

// stores follows what is put into a local container or variable.
func (l *lineSafe) stores(v ssa.Value) (string, bool) {
	var visit func(a ssa.Value) (string, bool)
	visit = func(a ssa.Value) (string, bool) {
		rs := a.Referrers()
		if rs == nil {
			return "", false
		}
		for _, in := range *rs {
			switch i := in.(type) {
			case *ssa.Store:
				if i.Addr == a {
					if w, bad := l.text(i.Val); bad {
						return w, true
					}
				}
			case *ssa.MapUpdate:
				if i.Map == a {
					if w, bad := l.text(i.Value); bad {
						return w, true
					}
				}
			case *ssa.IndexAddr:
				if i.X == a {
					if w, bad := visit(i); bad {
						return w, true
					}
				}
			case *ssa.FieldAddr:
				if i.X == a {
					if w, bad := visit(i); bad {
						return w, true
					}
				}
			}
		}
		return "", false
	}
	return visit(v)
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch i := v.(type) {
		case *ssa.IndexAddr:
			v = i.X
		case *ssa.FieldAddr:
			v = i.X
		default:
			return v
		}
	}
}

func (l *lineSafe) field(f *types.Var, pos string) (string, bool) {
	if f == nil {
		return pos, true
	}
	if l.seenF[f] {
		return "", false
	}
	l.seenF[f] = true
	for _, fn := range l.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == f {
					if w, bad := l.text(st.Val); bad {
						return w, true
					}
				}
			}
		}
	}
	return "", false
}

// onlyVerbs: the format uses no other verbs than the given ones.
func onlyVerbs(format, verbs string) bool {
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		for i++; i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0; i++ {
		}
		if i >= len(format) || format[i] != '%' && strings.IndexByte(verbs, format[i]) < 0 {
			return false
		}
	}
	return true
}

func ruleOneLine(p *Prog, r *Report) {
	r.rule("Every call that makes a simple string or an error reply, outside the parser, in a function that can be reached from a main function or a package initialiser: its text is followed back over assignments, fields, parameters, results and formatting to all its sources. Each source must be a constant without CR and LF, a number, a quoted text, or a text from which such characters were replaced. Data of clients, texts of Go errors and anything else must not reach it.")
	var mains []*ssa.Function
	for _, pk := range p.Pkgs {
		if f := pk.Func("main"); f != nil && pk.Pkg.Name() == "main" {
			mains = append(mains, f)
		}
		if f := pk.Func("init"); f != nil {
			mains = append(mains, f)
		}
	}
	live := p.reach(false, mains...)
	// methods of replies, commands and containers are reached through interfaces; what is only
	// called by dead functions is not part of the program
	for _, fn := range sortedFuncs(live) {
		if fn.Pkg == nil || pkgName(fn) == "protocol" {
			continue
		}
		for _, c := range callsOf(fn) {
			for _, n := range []string{"NewSimpleRedisString", "NewRedisError", "NewRedisErrorFromGoError"} {
				if !p.isFunc(p.callees(c), "protocol", n) {
					continue
				}
				where := p.instrPos(c)
				r.site("text of one line", where)
				r.Funcs[fn] = true
				l := &lineSafe{p: p, seen: map[ssa.Value]bool{}, seenF: map[*types.Var]bool{}, live: live}
				if w, bad := l.text(c.Common().Args[0]); bad {
					r.fail("text in "+fname(fn), where, "the text given to %s comes from %s and may hold a line break, which ends the reply in the middle", n, w)
				}
			}
		}
	}
	r.min("text of one line", 10)
}

// ---- C21: the RESP form of every object ----

type respSpec struct {
	typ  string
	text func(x *Exec, arg *Term) *Term
	data string // method that gives the payload back
	val  func(x *Exec, arg *Term) *Term
}

func ruleEncode(p *Prog, r *Report) {
	r.rule("Each constructor of a reply object is followed on every path, then Type, String, Byte and the payload method of the object it returned are followed in the same state. Texts are compared as the list of their pieces (constants, decimal numbers, given texts), however they are put together. String must be exactly the RESP form (type character, payload or decimal length, CRLF, and for a bulk string the payload and CRLF, for an array the forms of all its elements in order), Byte the same bytes, Type the type character, and the payload what was given.")
	str := func(v string) func(*Exec, *Term) *Term {
		return func(x *Exec, _ *Term) *Term { return x.textOf(x.tp.strT(v)) }
	}
	line := func(ty string, f func(x *Exec, a *Term) *Term) func(*Exec, *Term) *Term {
		return func(x *Exec, a *Term) *Term { return x.textOf(x.tp.strT(ty), f(x, a), x.tp.strT("\r\n")) }
	}
	same := func(x *Exec, a *Term) *Term { return a }
	errText := func(x *Exec, a *Term) *Term { return x.tp.mk("pure", ".Error", types.Typ[types.String], a) }
	count := func(x *Exec, a *Term) *Term { return x.dec(x.tp.mk("len", "", types.Typ[types.Int], a)) }
	specs := map[string]respSpec{
		"NewSimpleRedisString":     {"+", line("+", same), "Data", same},
		"NewRedisError":            {"-", line("-", same), "Message", same},
		"NewRedisErrorFromGoError": {"-", line("-", errText), "Message", errText},
		"NewRedisInteger":          {":", line(":", func(x *Exec, a *Term) *Term { return x.dec(a) }), "Data", same},
		"NewBulkRedisString": {"$", func(x *Exec, a *Term) *Term {
			return x.textOf(x.tp.strT("$"), count(x, a), x.tp.strT("\r\n"), a, x.tp.strT("\r\n"))
		}, "Data", same},
		"NewNullBulkRedisString": {"$", str("$-1\r\n"), "", nil},
		"NewNullRedisArray":      {"*", str("*-1\r\n"), "", nil},
		"NewRedisArray": {"*", func(x *Exec, a *Term) *Term {
			return x.textOf(x.tp.strT("*"), count(x, a), x.tp.strT("\r\n"), x.tp.mk("each", "", nil, a))
		}, "Data", nil},
	}
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		spec := specs[n]
		f := p.fn("protocol", n)
		if f == nil {
			fatalf("lost anchor: protocol.%s", n)
		}
		x := NewExec(p)
		x.Depth = 14
		x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "protocol" }
		var arg *Term
		if len(f.Params) > 0 {
			arg = x.Param(f.Params[0])
		}
		where := p.pos(f.Pos())
		iter := map[*ssa.BasicBlock]map[string]bool{}
		kept := map[*ssa.BasicBlock]map[string]bool{}
		isElem := func(t *Term) bool {
			t = t.canon()
			return arg != nil && t.op == "load" && t.args[0].op == "elemaddr" && t.args[0].args[0].canon() == arg.canon()
		}
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "elemaddr" && addr.args[0].canon().op != "alloc" && isElem(val) {
				s.set("kept", s.get("kept")+"1")
			}
		}
		x.H.Block = func(x *Exec, s *State, b *ssa.BasicBlock) bool {
			if s.top().fn.Pkg == f.Pkg && isLoopHead(b) {
				from := s.top().prev
				if b.Dominates(from) {
					if iter[b] == nil {
						iter[b] = map[string]bool{}
					}
					iter[b][s.get("writes")] = true
					if kept[b] == nil {
						kept[b] = map[string]bool{}
					}
					kept[b][s.get("kept")] = true
				}
				s.del("writes")
				s.del("kept")
				s.del("written")
			}
			return true
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			if cc.IsInvoke() && len(args) == 1 && inPkg(callees, "protocol") && (cc.Method.Name() == "Byte" || cc.Method.Name() == "String") {
				e := args[0].canon()
				if e.op == "load" && e.args[0].op == "elemaddr" {
					base, idx := e.args[0].args[0], e.args[0].args[1]
					return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.mk("elemtext", "", cc.Signature().Results().At(0).Type(), base, idx)}}
				}
			}
			if cc.IsInvoke() && cc.Method.Name() == "Error" && cc.Signature().Params().Len() == 0 && types.Identical(cc.Signature().Results(), resultsOf(p, "string")) {
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{errText(x, args[0].canon())}}
			}
			if n := libName(cc); strings.HasPrefix(n, "(*bytes.Buffer).Write") || strings.HasPrefix(n, "(*strings.Builder).Write") || n == "builtin.append" && x.isText(args[0].typ) {
				if e := args[len(args)-1].canon(); e.op == "elemtext" {
					if v, ok := e.args[1].intVal(); s.get("first") == "" && (!ok || v != 0) {
						r.failPath(n+" first", p.instrPos(c), s.path(), "the elements of an array are not written from the first one on")
					}
					s.set("first", "1")
					s.set("writes", s.get("writes")+"1")
					args = append([]*Term{}, args...)
					args[len(args)-1] = x.tp.mk("each", "", nil, e.args[0])
					if n == "builtin.append" {
						return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.textOf(args...)}}
					}
				}
			}
			if libName(cc) == "builtin.append" && len(args) == 2 && !x.isText(args[0].typ) {
				if vs, ok := x.variadic(s, args[1]); ok {
					for _, v := range vs {
						if isElem(v) {
							s.set("kept", s.get("kept")+"1")
						}
					}
				}
			}
			a, _ := x.textModel(s, c, args)
			return a
		}
		methods := []string{"Type", "String", "Byte"}
		if spec.data != "" {
			methods = append(methods, spec.data)
		}
		x.Chain = func(x *Exec, s *State, fr *Frame, res []*Term) *Frame {
			step := int(atoi(s.get("step")))
			if step == 0 {
				s.setT("obj", res[0])
			} else {
				m := methods[step-1]
				got := res[0]
				label := n + " " + m
				r.site("form", label)
				switch m {
				case "Type":
					if v, ok := got.strVal(); !ok || v != spec.typ {
						r.failPath(label, where, s.path(), "Type of an object made by %s is not %q", n, spec.typ)
					}
				case "String", "Byte":
					want := spec.text(x, arg)
					if k := len(want.args); want.args[k-1].op == "each" && x.Truth(s, x.binop(s, token.LSS, x.tp.intT(0), x.lenOf(s, arg, nil), nil)) == 2 {
						want = x.tp.mk("text", "", want.typ, want.args[:k-1]...)
					}
					if x.textOf(got) != want {
						r.failPath(label, where, s.path(), "%s of an object made by %s is not its RESP form: it is %s, not %s", m, n, x.textOf(got), want)
					}
				default:
					if spec.val != nil && got.canon() != spec.val(x, arg).canon() && x.textOf(got) != x.textOf(spec.val(x, arg)) {
						r.failPath(label, where, s.path(), "%s of an object made by %s is not what it was made from", m, n)
					}
					if spec.val == nil && !got.canon().any(func(u *Term) bool { return u == arg }) && !(got.isNil()) {
						r.failPath(label, where, s.path(), "%s of an object made by %s is not what it was made from", m, n)
					}
				}
			}
			if step == len(methods) {
				return nil
			}
			s.set("step", fmt.Sprint(step+1))
			obj := s.getT("obj").canon()
			var callee *ssa.Function
			if obj.op == "alloc" {
				callee = p.method(obj.typ, methods[step])
			}
			if callee == nil {
				fatalf("undecided: %s returns an object that is not made in it", n)
			}
			return x.NewFrame(callee, []*Term{obj}, step+1)
		}
		x.Run(f, nil, nil)
		r.exec(x)
		for b, ws := range kept {
			if (ws["1"] || ws["11"]) && (len(ws) > 1 || ws["11"]) {
				r.fail(n+" kept", p.pos(b.Parent().Pos()), "not every element of an array is kept exactly once")
			}
		}
		for b, ws := range iter {
			if len(ws) > 1 || ws["11"] {
				if ws["1"] || ws["11"] {
					r.fail(n+" iteration", p.pos(b.Parent().Pos()), "not every element of an array is written exactly once")
				}
			}
		}
	}
	r.min("form", 25)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, q := range b.Preds {
		if b.Dominates(q) {
			return true
		}
	}
	return false
}

func resultsOf(p *Prog, _ string) *types.Tuple {
	return types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String]))
}
