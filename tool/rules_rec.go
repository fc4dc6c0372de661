package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C02", "the record of a change holds the whole request", ruleRecordContent)
	register("C38", "the replay executes each record as it was written", ruleReplay)
}

// cover follows a loop that has to use every element of one slice exactly once. The slice is
// the term kept in the typestate "<tag>b"; elements below lo are not its business.
type cover struct {
	tag   string
	lo    int64
	used  map[*ssa.Function]bool // functions in which some element is used
	skips []coverEvent
	dups  []coverEvent
	offs  []coverEvent
	loads map[string]bool
	block map[*ssa.Function]*ssa.BasicBlock // where elements are loaded
	early []coverEvent
	// Done says that the element at hand needs no use; New runs at each new element.
	Done func(x *Exec, s *State) bool
	New  func(x *Exec, s *State)
}

type coverEvent struct {
	fn   *ssa.Function
	pos  string
	path []string
	msg  string
}

func newCover(tag string, lo int64) *cover {
	return &cover{tag: tag, lo: lo, used: map[*ssa.Function]bool{}, loads: map[string]bool{}, block: map[*ssa.Function]*ssa.BasicBlock{}}
}

func (cv *cover) start(s *State, base *Term) {
	cv.stop(s)
	s.setT(cv.tag+"b", base)
}

func (cv *cover) stop(s *State) {
	for _, k := range []string{"b", "i", "v", "n", "d"} {
		s.del(cv.tag + k)
	}
}

func (cv *cover) base(s *State) *Term { return s.getT(cv.tag + "b") }

// load is called for every load; it notes that the loop has come to another element.
func (cv *cover) load(x *Exec, s *State, addr, val *Term, in ssa.Instruction) bool {
	b := cv.base(s)
	if b == nil || addr.op != "elemaddr" || addr.args[0].canon() != b.canon() {
		return false
	}
	idx := addr.args[1]
	if k, ok := idx.intVal(); ok && k < cv.lo {
		return false
	}
	if old := s.getT(cv.tag + "i"); old != idx {
		if old != nil {
			cv.finish(x, s, in)
		}
		s.setT(cv.tag+"i", idx)
		s.del(cv.tag + "n")
		s.del(cv.tag + "d")
		if cv.New != nil {
			cv.New(x, s)
		}
		cv.block[in.Parent()] = in.Block()
		if ld, ok := in.(*ssa.UnOp); ok {
			if ia, ok := ld.X.(*ssa.IndexAddr); ok {
				_, at := s.climb(ia.Index, 0)
				for k := at; k < len(s.frames); k++ {
					cv.block[s.frames[k].fn] = s.frames[k].block
				}
			}
		}
		cv.step(x, s, in)
	}
	s.setT(cv.tag+"v", val)
	cv.loads[x.p.instrPos(in)] = true
	return true
}

// finish: the element at hand is left.
func (cv *cover) finish(x *Exec, s *State, in ssa.Instruction) {
	if s.getT(cv.tag+"i") == nil || s.get(cv.tag+"n") != "" {
		return
	}
	if cv.Done != nil {
		if cv.Done(x, s) {
			return
		}
		cv.used[in.Parent()] = true
	}
	cv.skips = append(cv.skips, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), ""})
}

// branch notes that the loop is left because the length of the slice is reached.
func (cv *cover) branch(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
	b := cv.base(s)
	lb := cv.block[in.Parent()]
	if b == nil || lb == nil || s.getT(cv.tag+"i") == nil {
		return
	}
	to := in.Block().Succs[1]
	if truth {
		to = in.Block().Succs[0]
	}
	if h := loopOf(lb); h != nil && in.Parent() == h.Parent() {
		if inLoop(h, to) {
			return
		}
	} else if blockReaches(to, lb) {
		return
	}
	lenTest := cond.any(func(u *Term) bool { return u.op == "len" && rootSlice(u.args[0]) == rootSlice(b) })
	if lenTest {
		s.set(cv.tag+"d", "1")
	}
}

// left: no more elements are looked at from here on.
func (cv *cover) left(x *Exec, s *State, in ssa.Instruction) {
	if s.getT(cv.tag+"i") != nil && s.get(cv.tag+"d") == "" {
		if k, ok := s.getT(cv.tag + "i").intVal(); ok && k == cv.lo && false {
			return
		}
		cv.early = append(cv.early, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), ""})
	}
}

func rootSlice(t *Term) *Term {
	t = t.canon()
	for t.op == "slice" {
		t = t.args[0].canon()
	}
	return t
}

func blockReaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(b *ssa.BasicBlock) bool
	w = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, n := range b.Succs {
			if w(n) {
				return true
			}
		}
		return false
	}
	return w(from)
}

// mentions: the value is made from the element at hand.
func (cv *cover) mentions(s *State, v *Term) bool {
	e := s.getT(cv.tag + "v")
	return e != nil && v != nil && v.mentions(e)
}

func (cv *cover) use(x *Exec, s *State, in ssa.Instruction) {
	if s.getT(cv.tag+"i") == nil {
		return
	}
	cv.used[in.Parent()] = true
	if s.get(cv.tag+"n") != "" {
		cv.dups = append(cv.dups, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), ""})
	}
	s.set(cv.tag+"n", "1")
}

// climb follows a parameter to what the caller gave for it; the second result is the frame
// the value belongs to.
func (s *State) climb(v ssa.Value, min int) (ssa.Value, int) {
	k := len(s.frames) - 1
	for k > min {
		pa, ok := v.(*ssa.Parameter)
		fr := s.frames[k]
		if !ok || pa.Parent() != fr.fn || fr.call == nil || fr.resume != nil {
			break
		}
		cc := fr.call.Common()
		args := cc.Args
		if cc.IsInvoke() {
			args = append([]ssa.Value{cc.Value}, args...)
		}
		if len(args) != len(fr.fn.Params) {
			break
		}
		found := false
		for i, q := range fr.fn.Params {
			if q == pa {
				v, found = args[i], true
			}
		}
		if !found {
			break
		}
		k--
	}
	return v, k
}

// step looks at the loop variable that indexes the load.
func (cv *cover) step(x *Exec, s *State, in ssa.Instruction) {
	u, ok := in.(*ssa.UnOp)
	if !ok {
		return
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return
	}
	index, depth := s.climb(ia.Index, 0)
	start, step, phi, ok := inductive(index)
	if !ok {
		return
	}
	slice, at := s.climb(ia.X, depth)
	if at > depth {
		slice = nil
	}
	off, lin := cv.offset(x, s, ia.X)
	if step != 1 {
		cv.offs = append(cv.offs, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), fmt.Sprintf("the loop advances by %d", step)})
	} else if lin && start+off != cv.lo {
		cv.offs = append(cv.offs, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), fmt.Sprintf("the loop starts at element %d", start+off)})
	}
	// the bound of the loop
	b := phi.Block()
	ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || !lin {
		return
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	if slice == nil {
		return
	}
	k, ok := linLen(cond.Y, slice)
	if !ok {
		return
	}
	_, s2, _, isInd := inductive(cond.X)
	if !isInd || s2 != step {
		return
	}
	st2, _, _, _ := inductive(cond.X)
	delta := st2 - start // the compared value runs ahead of the index by delta
	switch cond.Op {
	case token.LSS, token.NEQ:
		k -= delta
	case token.LEQ:
		k += 1 - delta
	default:
		return
	}
	if k != 0 {
		cv.offs = append(cv.offs, coverEvent{in.Parent(), x.p.instrPos(in), s.path(), fmt.Sprintf("the loop ends at len%+d", k)})
	}
}

// offset: where the indexed slice starts in the base; false when that is not known or the
// slice has been cut at its end.
func (cv *cover) offset(x *Exec, s *State, v ssa.Value) (int64, bool) {
	t := x.eval(s, v).canon()
	var off int64
	for t.op == "slice" {
		lo, ok := t.args[1].intVal()
		if !ok {
			return 0, false
		}
		off += lo
		t = t.args[0].canon()
	}
	return off, t == cv.base(s).canon()
}

// cut: a slice of the base without its end.
func (cv *cover) cut(x *Exec, s *State, in ssa.Instruction) {
	sl, ok := in.(*ssa.Slice)
	if !ok || sl.High == nil || cv.base(s) == nil {
		return
	}
	t := x.eval(s, sl.X).canon()
	for t.op == "slice" {
		t = t.args[0].canon()
	}
	if t != cv.base(s).canon() {
		return
	}
	if k, ok := linLen(sl.High, sl.X); ok && k == 0 {
		return
	}
	s.set(cv.tag+"cut", x.p.instrPos(in))
}

// inductive recognises a loop variable: its first value and its step.
func inductive(v ssa.Value) (start, step int64, phi *ssa.Phi, ok bool) {
	add := int64(0)
	if b, isB := v.(*ssa.BinOp); isB && (b.Op == token.ADD || b.Op == token.SUB) {
		k, isK := b.Y.(*ssa.Const)
		if !isK || k.Value == nil || k.Value.Kind() != constant.Int {
			return
		}
		add, _ = constant.Int64Val(k.Value)
		if b.Op == token.SUB {
			add = -add
		}
		v = b.X
	}
	phi, isPhi := v.(*ssa.Phi)
	if !isPhi {
		return
	}
	haveStart, haveStep := false, false
	for _, e := range phi.Edges {
		switch u := e.(type) {
		case *ssa.Const:
			if u.Value == nil || u.Value.Kind() != constant.Int {
				return
			}
			k, _ := constant.Int64Val(u.Value)
			if haveStart && k != start {
				return
			}
			start, haveStart = k, true
		case *ssa.BinOp:
			k, isK := u.Y.(*ssa.Const)
			if !isK || u.X != phi || u.Op != token.ADD || k.Value == nil {
				return
			}
			n, _ := constant.Int64Val(k.Value)
			if haveStep && n != step {
				return
			}
			step, haveStep = n, true
		default:
			return
		}
	}
	if !haveStart || !haveStep {
		return
	}
	return start + add, step, phi, true
}

// linLen: v = len(base) + k.
func linLen(v, base ssa.Value) (int64, bool) {
	switch u := v.(type) {
	case *ssa.Call:
		if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return 0, sameVal(u.Call.Args[0], base)
		}
	case *ssa.BinOp:
		k, ok := u.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0, false
		}
		n, _ := constant.Int64Val(k.Value)
		b, ok := linLen(u.X, base)
		switch u.Op {
		case token.ADD:
			return b + n, ok
		case token.SUB:
			return b - n, ok
		}
	}
	return 0, false
}

// sameVal: the same value, or two loads of the same field of the same object in one function.
func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ua, ok1 := a.(*ssa.UnOp)
	ub, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && ua.Op == token.MUL && ub.Op == token.MUL {
		fa, ok1 := ua.X.(*ssa.FieldAddr)
		fb, ok2 := ub.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.Field == fb.Field && sameVal(fa.X, fb.X)
	}
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 && ca.Call.StaticCallee() != nil && ca.Call.StaticCallee() == cb.Call.StaticCallee() && len(ca.Call.Args) == 1 && len(cb.Call.Args) == 1 {
		return sameVal(ca.Call.Args[0], cb.Call.Args[0])
	}
	return false
}

// report turns the events into findings; only functions that use elements are bound to use all.
func (cv *cover) report(r *Report, what, verb string) {
	for _, e := range cv.skips {
		if cv.used[e.fn] {
			r.failPath("skipped "+what+" in "+fname(e.fn), e.pos, e.path, "%s can be left without having been %s", what, verb)
		}
	}
	for _, e := range cv.early {
		r.failPath("left early "+what+" in "+fname(e.fn), e.pos, e.path, "the loop over each %s can be left before the last one", what)
	}
	for _, e := range cv.dups {
		r.failPath("twice "+what+" in "+fname(e.fn), e.pos, e.path, "%s can be %s twice", what, verb)
	}
	for _, e := range cv.offs {
		if cv.used[e.fn] {
			r.failPath("range "+what+" in "+fname(e.fn), e.pos, e.path, "not every %s is %s: %s", what, verb, e.msg)
		}
	}
}

// storesElem: a store into an element of a slice or array of the given kind.
func storesElem(in ssa.Instruction, elem func(t types.Type) bool) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	ia, ok := st.Addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	pt, ok := ia.Type().Underlying().(*types.Pointer)
	return ok && elem(pt.Elem())
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

// field reads a field of the object a term points to.
func (x *Exec) field(s *State, obj *Term, typ *types.Named, name string) *Term {
	st := typ.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.load(s, x.fieldAddr(obj, typ, i), nil, st.Field(i).Type())
		}
	}
	fatalf("anchor lost: %s has no field %s", typ.Obj().Name(), name)
	return nil
}

func stripConv(t *Term) *Term {
	for {
		t = t.canon()
		if (t.op == "conv" || t.op == "chg" || t.op == "mi") && len(t.args) == 1 {
			t = t.args[0]
			continue
		}
		return t
	}
}

// sameTerm compares values up to conversions; unknown is reported as equal.
func sameTerm(a, b *Term) (same, known bool) {
	if a == nil || b == nil {
		return false, false
	}
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true, true
	}
	if a.isConst() && b.isConst() {
		return a.val != nil && b.val != nil && a.val.Kind() == b.val.Kind() && constant.Compare(a.val, token.EQL, b.val), true
	}
	return false, true
}

// lossless encoders of text, and the decoder that belongs to each.
var encoders = map[string]string{
	"strconv.Quote": "strconv.Unquote", "strconv.QuoteToASCII": "strconv.Unquote",
	"encoding/hex.EncodeToString": "encoding/hex.DecodeString", "(*encoding/base64.Encoding).EncodeToString": "(*encoding/base64.Encoding).DecodeString",
}

func ruleRecordContent(p *Prog, r *Report) {
	r.rule("The engine loop is followed on every path from the making of a command to the marshalling of its log record. The record that is marshalled must carry the name and the database index the command was made with, and its argument list must be built by a loop that takes every element of the request after the command's name, in order, exactly once: no iteration may be left without its element having been stored, the loop must start at the first argument, advance by one and end at the length of the request. What is stored of an element must be its protocol form under an encoding that keeps every byte.")
	start := p.impl("db", "Engine", "Start")
	newCmd := p.fn("command", "NewCommand")
	vlT := p.named("log", "VertexLog")
	x := p.engineExec()
	x.Depth = 10
	rel := p.reachesCallOrField(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && pkgName(f) != "protocol" && !strings.HasSuffix(p.pos(f.Pos()), ".pb.go") && derefNamed(fa.X.Type()) == vlT {
					return true
				}
			}
		}
		return false
	})
	op := x.Opaque
	x.Opaque = func(f *ssa.Function) bool {
		if (rel[f] || pkgName(f) == "log") && (pkgName(f) == "log" || pkgName(f) == "db") && !strings.Contains(p.pos(f.Pos()), ".pb.go") && f.Name() != "init" {
			return false
		}
		return op(f)
	}
	cv := newCover("arg", 1)
	encs := map[string]bool{}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) == 1 && callees[0] == newCmd {
			s.setT("name", args[0])
			s.setT("index", args[1])
			b := args[2].canon()
			if b.op == "slice" {
				b = b.args[0].canon()
			}
			cv.start(s, b)
			s.del("argcut")
			return CallAction{Kind: actOpaque}
		}
		name := libName(c.Common())
		if isMarshal(name) && len(args) > 0 && s.getT("name") != nil {
			where := p.instrPos(c)
			obj := stripConv(args[len(args)-1])
			r.site("marshalled record", where)
			for _, f := range []string{"Name", "Index"} {
				v := x.field(s, obj, vlT, f)
				if same, known := sameTerm(v, s.getT(strings.ToLower(f))); known && !same {
					r.failPath("record "+f, where, s.path(), "the %s of the record is %s, but the command was made with %s", f, v, s.getT(strings.ToLower(f)))
				}
			}
			av := x.field(s, obj, vlT, "Arguments")
			if s.getT("argi") != nil && !x.related(s, av, cv.base(s)) {
				r.failPath("record arguments", where, s.path(), "the arguments of the record are not made from the request")
			}
			if s.getT("argi") != nil {
				r.site("record with arguments", where)
				cv.finish(x, s, c)
				cv.left(x, s, c)
			}
			if w := s.get("argcut"); w != "" {
				r.failPath("record cut", w, s.path(), "the record is made from a part of the request only")
			}
			cv.stop(s)
		}
		if enc, ok := encoders[name]; ok && len(args) > 0 && cv.mentions(s, args[len(args)-1]) {
			encs[enc] = true
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "enc:"+name, args)}
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) { cv.load(x, s, addr, val, in) }
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) { cv.cut(x, s, in) }
	x.H.Branch = cv.branch
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if !storesElem(in, isStringType) || !cv.mentions(s, val) {
			return
		}
		r.site("argument stored", p.instrPos(in))
		cv.use(x, s, in)
		// the form that is stored
		v := stripConv(val)
		ok := false
		for v.op == "pure" && strings.HasPrefix(v.aux, "enc:") && len(v.args) > 0 {
			ok = true
			v = stripConv(v.args[len(v.args)-1])
		}
		if !ok {
			r.failPath("raw argument in "+fname(in.Parent()), p.instrPos(in), s.path(), "the argument is stored as %s, without an encoding that keeps arbitrary bytes in the text field of the record", v)
		} else if !(v.op == "pure" && (v.aux == ".String" || v.aux == ".Byte" || v.aux == ".Bytes")) {
			r.failPath("lossy argument in "+fname(in.Parent()), p.instrPos(in), s.path(), "what is stored of the argument is %s, not its protocol form", v)
		}
	}
	x.Run(start, nil, nil)
	r.exec(x)
	cv.report(r, "argument of the request", "stored in the record")
	r.min("marshalled record", 1)
	r.min("argument stored", 1)
	// the replay must know the encoding
	build := p.impl("db", "Engine", "BuildFromLog")
	dec := map[string]bool{}
	for f := range p.reach(true, build) {
		for _, c := range callsOf(f) {
			dec[libName(c.Common())] = true
		}
	}
	for e := range encs {
		r.site("encoding", e)
		if !dec[e] {
			r.fail("decoder", p.pos(build.Pos()), "records are stored encoded, but the replay never calls %s", e)
		}
	}
}

// related: both terms go back to a common origin.
func (x *Exec) related(s *State, a, b *Term) bool {
	if a.op == "make" || a.op == "alloc" {
		if v := x.elements(s, a, false); v != nil {
			a = v
		}
	}
	for _, l := range a.leaves() {
		if l.op == "const" || l.op == "nil" {
			continue
		}
		for _, m := range b.leaves() {
			if l == m || l.op == "old" {
				return true
			}
		}
	}
	return false
}

func ruleReplay(p *Prog, r *Report) {
	r.rule("BuildFromLog is followed on every path. For each record of the list a command is made with the name, the index and the arguments of that very record, and executed exactly once on the database with that index; only an argument that cannot be parsed or a command that cannot be made excuses a record from being executed, and no record but the one at hand is affected by that. The argument list must be built by a loop that takes every stored argument once and in order, parses it (decoded, where decoding succeeds) and stores the parsed object; a record of which some argument could not be read is not executed.")
	build := p.impl("db", "Engine", "BuildFromLog")
	newCmd := p.fn("command", "NewCommand")
	parse := p.fn("protocol", "Parse")
	vlT := p.named("log", "VertexLog")
	x := p.engineExec()
	x.Depth = 10
	op := x.Opaque
	pf := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		f := c.Common().StaticCallee()
		return f == parse
	})
	x.Opaque = func(f *ssa.Function) bool {
		if pf[f] && pkgName(f) == "db" || pkgName(f) == "db" && len(p.edges(f)) < 12 {
			return false
		}
		return op(f)
	}
	recs, av := newCover("rec", 0), newCover("arg", 0)
	isObj := func(t types.Type) bool {
		return types.IsInterface(t) && p.isNamedType(t, "protocol", "RedisObject")
	}
	var recSkips []coverEvent
	leave := func(x *Exec, s *State, in ssa.Instruction) {
		if s.getT("reci") == nil || s.get("recn") != "" {
			return
		}
		// excused when something about this record is known to have failed
		if x.recordExcused(s) {
			return
		}
		recSkips = append(recSkips, coverEvent{in.Parent(), p.instrPos(in), s.path(), ""})
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		b := recs.base(s)
		if b != nil && addr.op == "elemaddr" && addr.args[0].canon() == b.canon() {
			if old := s.getT("reci"); old != addr.args[1] {
				leave(x, s, in)
				s.set("recn", "1")
				recs.load(x, s, addr, val, in)
				s.del("recn")
				av.stop(s)
				for _, k := range []string{"argcut", "cmd", "cmderr", "unreadable", "parsed", "parseerr", "index", "decoding"} {
					s.del(k)
				}
			} else {
				s.setT("recv", val)
			}
			r.site("record taken", p.instrPos(in))
			return
		}
		if addr.op == "fieldaddr" && addr.aux == "log.VertexLog.Arguments" && s.getT("recv") != nil && addr.args[0] == s.getT("recv") {
			if av.base(s) == nil {
				av.start(s, val.canon())
			}
			return
		}
		av.load(x, s, addr, val, in)
	}
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) { av.cut(x, s, in); recs.cut(x, s, in) }
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if !storesElem(in, isObj) {
			return
		}
		src := s.getT("parsed")
		if src == nil || !val.mentions(src) {
			return
		}
		r.site("argument restored", p.instrPos(in))
		av.use(x, s, in)
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		where := p.instrPos(c)
		name := libName(c.Common())
		for _, d := range encoders {
			if d == name && len(args) > 0 && av.mentions(s, args[len(args)-1]) {
				s.set("decoding", "1")
			}
		}
		switch {
		case len(callees) == 1 && callees[0] == newCmd:
			r.site("command made from a record", where)
			if s.getT("recv") == nil {
				return CallAction{Kind: actOpaque}
			}
			rv := s.getT("recv")
			st := vlT.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i).Name()
				var got *Term
				switch f {
				case "Name":
					got = args[0]
				case "Index":
					got = args[1]
					s.setT("index", args[1])
				default:
					continue
				}
				want := x.load(s, x.fieldAddr(rv, vlT, i), c, st.Field(i).Type())
				if same, known := sameTerm(got, want); known && !same && !isGetter(got, f, rv) {
					r.failPath("replay "+f, where, s.path(), "the command is made with %s, not with the %s of the record", got, f)
				}
			}
			if s.getT("argi") != nil {
				av.finish(x, s, c)
				if s.get("unreadable") == "" {
					av.left(x, s, c)
				}
			}
			if w := s.get("argcut"); w != "" {
				r.failPath("replay cut", w, s.path(), "only a part of the record's arguments is replayed")
			}
			if s.get("unreadable") != "" {
				r.failPath("replay unreadable", where, s.path(), "a command is made from a record although one of its arguments could not be read")
			}
			if av.base(s) == nil || s.getT("argi") != nil && args[2].isNil() {
				r.failPath("replay arguments", where, s.path(), "the command is made without the arguments of the record")
			}
			return CallAction{Kind: actOpaque}
		case len(callees) == 1 && callees[0] == parse:
			r.site("argument parsed", where)
			return CallAction{Kind: actOpaque}
		case p.cmdMethod(c) == "Execute":
			r.site("record executed", where)
			if s.get("recn") != "" {
				r.failPath("executed twice", where, s.path(), "a record can be executed twice")
			}
			s.set("recn", "1")
			if s.getT("cmd") != nil {
				if same, known := sameTerm(args[0], s.getT("cmd")); known && !same {
					r.failPath("executed other", where, s.path(), "the command executed is not the one made from the record at hand")
				}
			}
			return CallAction{Kind: actOpaque}
		case p.isMethodCall(c.Common(), "db", "DB", "ExecuteCommand"):
			if ix := s.getT("index"); ix != nil && len(args) == 2 {
				if got := dbIndex(args[0]); got != nil {
					r.site("database of the record", where)
					if same, known := sameTerm(got, ix); known && !same {
						r.failPath("replay database", where, s.path(), "the record is executed on database %s, its command was made for database %s", got, ix)
					}
				}
			}
			return CallAction{}
		}
		if a, ok := p.engineModel(x, s, c, callees, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		switch {
		case len(callees) == 1 && callees[0] == newCmd && len(res) == 2:
			s.setT("cmd", res[0])
			s.setT("cmderr", res[1])
		case len(callees) == 1 && callees[0] == parse && len(res) == 2:
			if av.base(s) != nil && (av.mentions(s, args[0]) || x.readerOf(s, args[0], av)) {
				s.setT("parsed", res[0])
				s.setT("parseerr", res[1])
			} else {
				r.site("other parse", p.instrPos(c))
			}
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		av.branch(x, s, cond, truth, in)
		recs.branch(x, s, cond, truth, in)
		if e := s.getT("parseerr"); e != nil && x.Nilness(s, e) == 2 {
			s.set("unreadable", "1")
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 {
			leave(x, s, fr.fn.Blocks[0].Instrs[0])
			recs.left(x, s, fr.fn.Blocks[0].Instrs[0])
		}
	}
	x.Run(build, nil, func(s *State) { recs.start(s, x.Param(build.Params[len(build.Params)-1])) })
	r.exec(x)
	for _, e := range recSkips {
		r.failPath("skipped record in "+fname(e.fn), e.pos, e.path, "a readable record can be left without having been executed")
	}
	recs.used[build] = true
	recs.skips = nil
	recs.report(r, "record of the log", "executed")
	av.report(r, "argument of the record", "restored")
	r.min("record taken", 1)
	r.min("command made from a record", 1)
	r.min("argument parsed", 1)
	r.min("argument restored", 1)
	r.min("record executed", 1)
}

func isGetter(t *Term, field string, rv *Term) bool {
	return (t.op == "call" || t.op == "pure") && t.mentions(rv)
}

// recordExcused: the record could not be read or its command not made.
func (x *Exec) recordExcused(s *State) bool {
	if s.get("unreadable") != "" {
		return true
	}
	if e := s.getT("cmderr"); e != nil && x.Nilness(s, e) == 2 {
		return true
	}
	if c := s.getT("cmd"); c != nil && x.Nilness(s, c) == 1 {
		return true
	}
	if v := s.getT("recv"); v != nil && x.Nilness(s, v) == 1 {
		return true
	}
	return false
}

// readerOf: the term is a reader over a text made from the element at hand.
func (x *Exec) readerOf(s *State, t *Term, cv *cover) bool {
	e := s.getT(cv.tag + "v")
	return e != nil && t.any(func(u *Term) bool { return u == e })
}

// dbIndex: the key under which a database was looked up.
func dbIndex(t *Term) *Term {
	var out *Term
	t.any(func(u *Term) bool {
		if u.op == "call" && len(u.args) >= 2 && (u.args[1].op == "mi" || u.args[1].op == "mix") {
			out = u.args[1]
			return true
		}
		return false
	})
	return out
}
