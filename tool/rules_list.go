package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "a list stays linked both ways and its size counts it", ruleList)
	register("C46", "positions of a list", ruleListPos)
}

// Shape analysis of the linked list.  The list at the last checkpoint (method entry or loop
// head) is a sequence: the head sentinel, nodes that were looked at, gaps that stand for any
// number of nodes, the tail sentinel.  A gap is opened when a link into it is read: it turns
// out to be empty or to start with a new node.  At each loop head and at the return the links
// are walked from the head, compared with the sequence (what was put in, what was taken out)
// and everything nothing refers to becomes part of a gap again.
type listSpec struct {
	method string
	op     string
}

var listSpecs = []listSpec{
	{"PushHead", "push"}, {"PushTail", "push"}, {"PopHead", "pop"}, {"PopTail", "pop"},
	{"Insert", "insert"}, {"Remove", "remove"}, {"Set", "set"}, {"Trim", "trim"},
	{"Index", "index"}, {"Range", "range"}, {"Len", "len"},
}

type listCheck struct {
	p     *Prog
	r     *Report
	sp    listSpec
	f     *ssa.Function
	x     *Exec
	recv  *Term
	cv    *cover
	sh    *listShape
	learn bool
	rel   map[*ssa.BasicBlock]listRel
	acts  int
	blind bool
	posOn bool // the rule on positions
	track bool // positions are followed
	rets  []*Term
	ans   map[*ssa.BasicBlock]*ssa.Phi
	rel2  map[*ssa.Function]bool
	free  bool // the function that lets go of a chain
	und   bool
}

// listRel: a loop in which the size lags behind by k times a counter.
type listRel struct {
	phi *ssa.Phi
	k   int64
}

type listShape struct {
	list, node                         *types.Named
	next, prev, data, head, tail, size string
	ptr                                types.Type
	dataT                              types.Type
}

func ruleList(p *Prog, r *Report) {
	r.rule("Shape analysis of every method of the list. Nodes have symbolic names; parts of the list that nothing refers to are gaps of any length, opened on demand. At every loop head and return, following next from the head must lead to the tail with prev as the exact inverse, the nodes that were there must be in their old order, and the size field (plus what a loop counter still owes it) must have changed by exactly the nodes put in and taken out. PushHead puts each item right behind the head, PushTail right before the tail; PopHead and PopTail take out the first and last node, give back its data, and report an error only when the list is empty; Insert compares the nodes one by one from the first one and puts the new node next to the first equal one, on the side asked for; Remove looks at the nodes one by one, from the head unless the count is negative, takes out exactly the equal ones, and stops early only when as many were removed as asked.")
	sh := listShapeOf(p)
	done := 0
	for _, sp := range listSpecs {
		c := &listCheck{p: p, r: r, sp: sp, sh: sh, f: p.impl("container", "ListContainer", sp.method)}
		c.run()
		if !c.und {
			done++
		}
	}
	c := &listCheck{p: p, r: r, sp: listSpec{"New", "new"}, sh: sh}
	for _, f := range p.pkgFuncs("container") {
		if f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && p.isNamedType(f.Signature.Results().At(0).Type(), "container", "ListContainer") && f.Blocks != nil {
			c.f = f
			c.run()
		}
	}
	r.min("method", len(listSpecs)+1)
}

func ruleListPos(p *Prog, r *Report) {
	r.rule("On the same abstraction as C11 each node carries its distance from the head as a linear term; at loop heads it is tied to the loop variable. Index must give the data of, and Set must change, the node whose position is the resolved index; Range must give the data of the nodes from the resolved left to the resolved right position, one by one; Trim must make exactly those nodes the list. An error changes nothing.")
	sh := listShapeOf(p)
	for _, sp := range listSpecs {
		switch sp.op {
		case "set", "trim", "index", "range":
			c := &listCheck{p: p, r: r, sp: sp, sh: sh, f: p.impl("container", "ListContainer", sp.method), posOn: true}
			c.run()
		}
	}
	r.min("method", 4)
	for _, t := range []struct{ ctor, m string }{{"NewIndex", "ResolveRaw"}, {"NewIndex", "Resolve"}, {"NewSlice", "ResolveRaw"}, {"NewSlice", "Resolve"}} {
		resolving(p, r, t.ctor, t.m)
	}
}

// less: is a < b, from one comparison on the path; 3 when the path is not possible.
func (x *Exec) less(s *State, a, b lin) int8 {
	yes, no := false, false
	d := b.plus(a, -1) // is it at least 1?
	if d.isConst() {
		if d.c >= 1 {
			return 1
		}
		return 2
	}
	for t, f := range s.facts {
		if t.op != "cmp" || t.aux != "<" || f.truth == 0 {
			continue
		}
		e := linOf(t.args[1]).plus(linOf(t.args[0]), -1) // at least 1
		if f.truth == 2 {
			e = lin{c: 1}.plus(e, -1)
		}
		if k := d.plus(e, -1); k.isConst() && k.c >= 0 {
			yes = true
		}
		if k := d.plus(e, 1); k.isConst() && k.c <= 1 {
			no = true
		}
	}
	switch {
	case yes && no:
		return 3
	case yes:
		return 1
	case no:
		return 2
	}
	return 0
}

// resolving: a position, counted from the end when it is negative, is resolved to one in the
// range or refused.
func resolving(p *Prog, r *Report, ctor, m string) {
	f := p.fn("util", ctor)
	what := strings.TrimPrefix(ctor, "New") + "." + m
	r.site("resolving", what)
	x := NewExec(p)
	size := x.tp.mk("param", "size", types.Typ[types.Int])
	x.Chain = func(x *Exec, s *State, fr *Frame, res []*Term) *Frame {
		if fr.fn == f {
			g := p.method(f.Signature.Results().At(0).Type(), m)
			if g == nil {
				fatalf("anchor lost: util.%s", what)
			}
			return x.NewFrame(g, []*Term{res[0], size}, 1)
		}
		pos := p.instrPos(fr.block.Instrs[len(fr.block.Instrs)-1])
		fail := func(format string, a ...interface{}) {
			r.failPath("resolving "+what, pos, s.path(), "%s: %s", what, fmt.Sprintf(format, a...))
		}
		zero, n := lin{}, linOf(size)
		last := n.plus(lin{c: 1}, -1)
		var raw, got []lin
		for i, pa := range f.Params {
			l := linOf(x.Param(pa))
			switch x.less(s, l, zero) {
			case 1:
				l = l.plus(n, 1)
			case 0:
				r.site("not decided", what+": the sign is not known")
				return nil
			}
			raw = append(raw, l)
			got = append(got, linOf(res[i]))
		}
		for i, l := range raw {
			if x.less(s, l, zero) == 3 || x.less(s, l, n) == 3 || x.less(s, l, last) == 3 || i == 1 && x.less(s, l, raw[0]) == 3 {
				return nil
			}
		}
		if m == "ResolveRaw" {
			for i := range raw {
				if !got[i].plus(raw[i], -1).zero() {
					fail("the result is %s where it must be %s", x.linTerm(got[i]), x.linTerm(raw[i]))
				}
			}
			return nil
		}
		if len(raw) == 1 {
			below, above := x.less(s, raw[0], zero), x.less(s, raw[0], n)
			switch {
			case got[0].isConst() && got[0].c == -1:
				if below != 1 && above != 2 {
					fail("a position that may be in the range is refused")
				}
			case !got[0].plus(raw[0], -1).zero():
				fail("the result is %s where it must be %s", x.linTerm(got[0]), x.linTerm(raw[0]))
			case below != 2 || above != 1:
				fail("a position that may be out of the range is not refused")
			}
			return nil
		}
		a, b := raw[0], raw[1]
		switch {
		case got[0].isConst() && got[0].c == -1:
			if x.less(s, a, zero) != 1 && x.less(s, b, zero) != 1 && x.less(s, a, n) != 2 && x.less(s, b, a) != 1 {
				fail("a segment that may have elements in the range is refused")
			}
			if !got[1].isConst() || got[1].c != -1 {
				fail("only one end is refused")
			}
		case !got[0].plus(a, -1).zero():
			fail("the left end is %s where it must be %s", x.linTerm(got[0]), x.linTerm(a))
		case x.less(s, a, zero) != 2:
			fail("a left end that may be before the range is not refused")
		case got[1].plus(b, -1).zero():
			if x.less(s, b, n) != 1 {
				fail("a right end that may be beyond the range is not moved to the last position")
			}
			if x.less(s, b, a) != 2 {
				fail("a segment without elements may not be refused")
			}
		case got[1].plus(last, -1).zero():
			if x.less(s, b, last) != 2 {
				fail("the right end is moved although it may be in the range")
			}
			if x.less(s, a, n) != 1 {
				fail("a segment beyond the range may not be refused")
			}
		default:
			fail("the right end is %s where it must be %s", x.linTerm(got[1]), x.linTerm(b))
		}
		return nil
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

func (p *Prog) pkgFuncs(short string) []*ssa.Function {
	pk := p.pkg(short)
	var out []*ssa.Function
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func listShapeOf(p *Prog) *listShape {
	f := p.impl("container", "ListContainer", "PushHead")
	sh := &listShape{list: derefNamed(f.Params[0].Type())}
	st, ok := sh.list.Underlying().(*types.Struct)
	if !ok {
		fatalf("anchor lost: the list is not a struct")
	}
	is := func(name string, ws ...string) bool {
		name = strings.ToLower(name)
		for _, w := range ws {
			if strings.Contains(name, w) {
				return true
			}
		}
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		k := fieldKey(sh.list, i)
		if n := derefNamed(v.Type()); n != nil && p.isRepoPkg(n.Obj().Pkg()) {
			switch {
			case is(v.Name(), "head", "front", "first"):
				sh.head, sh.node = k, n
			case is(v.Name(), "tail", "back", "last"):
				sh.tail = k
			}
		} else if isIntType(v.Type()) {
			sh.size = k
		}
	}
	if sh.head == "" || sh.tail == "" || sh.size == "" {
		fatalf("anchor lost: head, tail and size of the list")
	}
	st, ok = sh.node.Underlying().(*types.Struct)
	if !ok {
		fatalf("anchor lost: the node of the list is not a struct")
	}
	for i := 0; i < st.NumFields(); i++ {
		v := st.Field(i)
		k := fieldKey(sh.node, i)
		if n := derefNamed(v.Type()); n == sh.node {
			switch {
			case is(v.Name(), "next", "succ", "right"):
				sh.next = k
			case is(v.Name(), "prev", "pred", "left"):
				sh.prev = k
			}
		} else {
			sh.data, sh.dataT = k, v.Type()
		}
	}
	if sh.next == "" || sh.prev == "" || sh.data == "" {
		fatalf("anchor lost: the links of a list node")
	}
	sh.ptr = types.NewPointer(sh.node)
	return sh
}

// ---- linear terms ----

type lin struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *lin) add(t *Term, k int64) {
	t = stripConv(t)
	if v, ok := t.intVal(); ok {
		l.c += k * v
		return
	}
	switch {
	case t.op == "bin" && (t.aux == "+" || t.aux == "-"):
		l.add(t.args[0], k)
		if t.aux == "-" {
			k = -k
		}
		l.add(t.args[1], k)
		return
	case t.op == "un" && t.aux == "-":
		l.add(t.args[0], -k)
		return
	}
	l.m[t] += k
	if l.m[t] == 0 {
		delete(l.m, t)
	}
}

func (l lin) plus(o lin, k int64) lin {
	r := lin{m: map[*Term]int64{}, c: l.c + k*o.c}
	for t, n := range l.m {
		r.m[t] = n
	}
	for t, n := range o.m {
		r.m[t] += k * n
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func (l lin) isConst() bool { return len(l.m) == 0 }

func (l lin) zero() bool { return len(l.m) == 0 && l.c == 0 }

func (l lin) mentions(pred func(u *Term) bool) bool {
	for t := range l.m {
		if t.any(pred) {
			return true
		}
	}
	return false
}

// term rebuilds a term in a fixed order.
func (x *Exec) linTerm(l lin) *Term {
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	it := types.Typ[types.Int]
	for _, t := range ts {
		k := l.m[t]
		for ; k > 0; k-- {
			if r == nil {
				r = t
			} else {
				r = x.tp.mk("bin", "+", it, r, t)
			}
		}
		for ; k < 0; k++ {
			if r == nil {
				r = x.tp.mk("un", "-", it, t)
			} else {
				r = x.tp.mk("bin", "-", it, r, t)
			}
		}
	}
	if r == nil {
		return x.tp.intT(l.c)
	}
	switch {
	case l.c > 0:
		r = x.tp.mk("bin", "+", it, r, x.tp.intT(l.c))
	case l.c < 0:
		r = x.tp.mk("bin", "-", it, r, x.tp.intT(-l.c))
	}
	return r
}

func moving(u *Term) bool { return u.op == "iter" || u.op == "old" || u.op == "mix" }

// ---- substitution of many terms at once ----

func (x *Exec) substMap(s *State, m map[*Term]*Term) {
	memo := map[*Term]*Term{}
	var sub func(u *Term) *Term
	sub = func(u *Term) *Term {
		if n, ok := m[u]; ok {
			return n
		}
		if len(u.args) == 0 {
			return u
		}
		if n, ok := memo[u]; ok {
			return n
		}
		as := make([]*Term, len(u.args))
		diff := false
		for i, a := range u.args {
			as[i] = sub(a)
			if as[i] != a {
				diff = true
			}
		}
		r := u
		if diff {
			r = x.tp.mk(u.op, u.aux, u.typ, as...)
			r.val, r.fn, r.site, r.conc = u.val, u.fn, u.site, u.conc
		}
		memo[u] = r
		return r
	}
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
		na := make([]*Term, len(f.args))
		for i, a := range f.args {
			na[i] = sub(a)
		}
		f.args = na
		for i := range f.defers {
			d := &f.defers[i]
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = sub(a)
			}
			d.args = na
			if d.clo != nil {
				d.clo = sub(d.clo)
			}
		}
	}
	ns := map[*Term]*Term{}
	for _, k := range sortedCells(s.store) {
		ns[sub(k)] = sub(s.store[k])
	}
	s.store = ns
	nf := map[*Term]Fact{}
	for k, v := range s.facts {
		if v.eq != nil {
			v.eq = sub(v.eq)
		}
		nf[sub(k)] = v
	}
	s.facts = nf
	for k, v := range s.ts {
		if v.t != nil {
			s.ts[k] = TSVal{v.s, sub(v.t)}
		}
	}
}

// ---- the abstract list ----

func (c *listCheck) cell(n *Term, key string) *Term {
	st, named := c.sh.node.Underlying().(*types.Struct), c.sh.node
	if key == c.sh.head || key == c.sh.tail || key == c.sh.size {
		st, named = c.sh.list.Underlying().(*types.Struct), c.sh.list
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldKey(named, i) == key {
			return c.x.fieldAddr(n, types.NewPointer(named), i)
		}
	}
	return nil
}

func (c *listCheck) seq(s *State) []*Term { return s.getT("seq").args }

func (c *listCheck) setSeq(s *State, ns []*Term) {
	s.setT("seq", c.x.tp.mk("seq", "", nil, append([]*Term{}, ns...)...))
}

func indexOfTerm(ns []*Term, n *Term) int {
	for i, m := range ns {
		if m == n {
			return i
		}
	}
	return -1
}

func (c *listCheck) isNode(t *Term) bool {
	return t != nil && t.op == "alloc" && t.typ != nil && derefNamed(t.typ) == c.sh.node
}

func (c *listCheck) newNode(s *State) *Term {
	n := 0
	fmt.Sscan(s.get("nn"), &n)
	s.set("nn", fmt.Sprint(n+1))
	return c.node(fmt.Sprintf("x%d", n))
}

func (c *listCheck) node(name string) *Term { return c.x.tp.mk("alloc", "node "+name, c.sh.ptr) }

func (c *listCheck) dataOf(n *Term) *Term { return c.x.tp.mk("dataof", "", c.sh.dataT, n) }

func (c *listCheck) gap(name string) *Term { return c.x.tp.mk("gap", name, types.Typ[types.Int]) }

func (c *listCheck) H() *Term { return c.node("head") }
func (c *listCheck) T() *Term { return c.node("tail") }

// elems: how many nodes of the sequence are elements, and whether it has gaps.
func (c *listCheck) elems(ns []*Term) (int, bool) {
	k, gaps := 0, false
	for _, n := range ns {
		switch {
		case n.op == "gap":
			gaps = true
		case n != c.H() && n != c.T():
			k++
		}
	}
	return k, gaps
}

// sized restricts the size to what the sequence allows; false when nothing is left.
func (c *listCheck) sized(s *State) bool {
	S := s.getT("S")
	if S == nil {
		return true
	}
	d := linOf(s.getT("actual")).plus(linOf(S), -1)
	if !d.isConst() {
		return true
	}
	k, gaps := c.elems(c.seq(s))
	f := s.facts[S]
	dom := f.dom
	if !f.hasDom {
		dom = ^uint64(0) &^ domBit(-1)
	}
	if s.get("some") != "" {
		dom &^= domBit(0)
	}
	var keep uint64
	for v := int64(0); v <= 41; v++ {
		e := v + d.c
		if e == int64(k) || gaps && e > int64(k) || v == 41 && gaps {
			keep |= domBit(v)
		}
	}
	f.dom, f.hasDom = dom&keep, true
	s.facts[S] = f
	return f.dom != 0
}

// open makes the link of n that is about to be used known; it may fork.
func (c *listCheck) open(s *State, n *Term, key string) {
	if s.getT("seq") == nil || !c.isNode(n) {
		return
	}
	a := c.cell(n, key)
	if _, ok := s.store[a]; ok {
		return
	}
	ns := c.seq(s)
	i := indexOfTerm(ns, n)
	if i < 0 {
		return
	}
	j, g := i+2, i+1
	back := c.sh.prev
	if key == c.sh.prev {
		j, g = i-2, i-1
		back = c.sh.next
	}
	if g < 0 || g >= len(ns) || ns[g].op != "gap" {
		return
	}
	o := ns[j]
	// the gap is empty
	t := s.clone()
	t.store[a] = o
	if c.free {
		t.store[a] = c.x.tp.nilT()
		if p, ok := c.posOf(t, n); ok {
			t.setT("endpos", c.x.linTerm(p.plus(lin{c: 1}, 1)))
		}
	} else {
		t.store[c.cell(o, back)] = n
	}
	var cl []*Term
	for k, m := range ns {
		if k != g {
			cl = append(cl, m)
		}
	}
	c.setSeq(t, cl)
	if c.track {
		c.contract(t)
	}
	if !t.dead && c.sized(t) {
		c.x.push(t)
	}
	// it starts with a node
	m := c.newNode(s)
	s.store[a] = m
	if !(c.free && back == c.sh.prev) {
		s.store[c.cell(m, back)] = n
	}
	s.store[c.cell(m, c.sh.data)] = c.dataOf(m)
	var op []*Term
	for k, q := range ns {
		switch {
		case k == g && key == c.sh.next:
			op = append(op, m, q)
		case k == g:
			op = append(op, q, m)
		default:
			op = append(op, q)
		}
	}
	c.setSeq(s, op)
	if c.track {
		c.contract(s)
	}
	if !c.sized(s) {
		s.dead = true
	}
}

// walk follows the links from the head.
func (c *listCheck) walk(s *State) ([]*Term, string) {
	x := c.x
	h, t := s.store[c.cell(c.recv, c.sh.head)], s.store[c.cell(c.recv, c.sh.tail)]
	if !c.isNode(h) || !c.isNode(t) {
		return nil, "the head or tail of the list is lost"
	}
	get := func(a *Term) *Term { return x.load(s, a, nil, c.sh.ptr) }
	ns := c.seq(s)
	out := []*Term{h}
	for n := h; n != t; {
		if len(out) > 60 {
			return nil, "following next from the head does not come to the tail"
		}
		a := c.cell(n, c.sh.next)
		if _, ok := s.store[a]; !ok {
			if i := indexOfTerm(ns, n); i >= 0 && i+2 < len(ns) && ns[i+1].op == "gap" {
				m := ns[i+2]
				if _, ok := s.store[c.cell(m, c.sh.prev)]; ok {
					return nil, "the links of the list are not each other's inverse"
				}
				out = append(out, ns[i+1], m)
				n = m
				continue
			}
		}
		m := get(a)
		if m.isNil() {
			return nil, "following next from the head ends before the tail"
		}
		if !c.isNode(m) {
			return nil, "?"
		}
		if indexOfTerm(out, m) >= 0 {
			return nil, "the list is linked into a circle"
		}
		b := get(c.cell(m, c.sh.prev))
		if b != n {
			if !c.isNode(b) && !b.isNil() {
				return nil, "?"
			}
			return nil, "the prev link of a node is not the node whose next link leads to it"
		}
		out = append(out, m)
		n = m
	}
	return out, ""
}

// ---- positions ----

// posCell holds the position of a node: what it was resolved to, or (was) its distance in
// terms of the loop variables.
func (c *listCheck) posCell(n *Term) *Term { return c.x.tp.mk("posof", "", nil, n) }

func (c *listCheck) wasCell(n *Term) *Term { return c.x.tp.mk("posof", "was", nil, n) }

// altCell: the two positions that were asked for are the same.
func (c *listCheck) altCell(n *Term) *Term { return c.x.tp.mk("posof", "alt", nil, n) }

// endCell: the tail is as far from the head as the list is long.
func (c *listCheck) endCell(n *Term) *Term { return c.x.tp.mk("posof", "end", nil, n) }

func (c *listCheck) posOf(s *State, n *Term) (lin, bool) {
	if l, ok := c.posBy(s, n, c.posCell); ok {
		return l, true
	}
	return c.posBy(s, n, c.wasCell)
}

func (c *listCheck) posBy(s *State, n *Term, cell func(*Term) *Term) (lin, bool) {
	if t, ok := s.store[cell(n)]; ok {
		return linOf(t), true
	}
	if s.getT("seq") == nil {
		return lin{}, false
	}
	ns := c.seq(s)
	i := indexOfTerm(ns, n)
	if i < 0 {
		return lin{}, false
	}
	for j := i - 1; j >= 0 && ns[j].op != "gap"; j-- {
		if t, ok := s.store[cell(ns[j])]; ok {
			return linOf(t).plus(lin{c: int64(i - j)}, 1), true
		}
	}
	for j := i + 1; j < len(ns) && ns[j].op != "gap"; j++ {
		if t, ok := s.store[cell(ns[j])]; ok {
			return linOf(t).plus(lin{c: int64(i - j)}, 1), true
		}
	}
	return lin{}, false
}

func isNorm(u *Term) bool { return u.op == "norm" }

// equalInts: a and b turned out to be equal; nodes at the one are at the other.
func (c *listCheck) equalInts(s *State, a, b lin) {
	x := c.x
	if !c.track || s.getT("seq") == nil {
		return
	}
	if !b.mentions(isNorm) || b.mentions(moving) {
		a, b = b, a
	}
	if !b.mentions(isNorm) || b.mentions(moving) {
		return
	}
	cell := c.wasCell
	if a.mentions(isNorm) {
		cell = c.posCell
	}
	for _, n := range c.seq(s) {
		if n.op == "gap" {
			continue
		}
		for _, p := range c.posAll(s, n, cell, c.endCell) {
			d := p.plus(a, -1)
			if !d.isConst() {
				continue
			}
			v := x.linTerm(b.plus(d, 1))
			if q, ok := s.store[c.posCell(n)]; ok && q != v {
				if _, ok := single(linOf(q)); ok {
					if _, ok := single(linOf(v)); !ok {
						continue
					}
					s.store[c.altCell(n)] = q
				}
			}
			s.store[c.posCell(n)] = v
		}
	}
	// H is at -1: what equals it is not a position
	if d := a.plus(lin{c: -1}, -1); d.zero() {
		for t, k := range b.m {
			if k == 1 && t.op == "norm" && len(b.m) == 1 && b.c == 0 {
				if !x.Assume(s, x.binopEq(t, x.tp.intT(-1)), true) {
					s.dead = true
					return
				}
			}
		}
	}
	c.contract(s)
}

// counter: the counted variable that the condition compares, with what is added to it.
func counter(in *ssa.If) (phi *ssa.Phi, add int64) {
	v := in.Cond
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			break
		}
		v = u.X
	}
	outer := func(o ssa.Value) ssa.Value { return o }
	if call, ok := v.(*ssa.Call); ok {
		// the comparison stands in a predicate
		f := call.Call.StaticCallee()
		if f == nil || len(f.Blocks) != 1 {
			return nil, 0
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return nil, 0
		}
		v = ret.Results[0]
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok {
				break
			}
			v = u.X
		}
		outer = func(o ssa.Value) ssa.Value {
			for i, q := range f.Params {
				if q == o && i < len(call.Call.Args) {
					return call.Call.Args[i]
				}
			}
			return o
		}
	}
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return nil, 0
	}
	for _, o := range []ssa.Value{outer(b.X), outer(b.Y)} {
		if at, step, phi, ok := inductive(o); ok && step == 1 && isHeader(phi.Block()) {
			start, _, _, _ := inductive(phi)
			return phi, at - start
		}
	}
	return nil, 0
}

// down: the variable in a, which starts at a resolved position and goes down, has come to be b.
func (c *listCheck) down(s *State, a, b lin) bool {
	if n, ok := single(b); ok && strings.HasPrefix(n.aux, "Resolve.") {
		// from the last position or beyond it
		from := a
		for u, k := range a.m {
			if phi, ok := u.site.(*ssa.Phi); ok && u.op == "iter" && k == 1 && stepOf(phi) == -1 {
				st := s.ts["start:"+phi.Name()].t
				if st == nil {
					return false
				}
				from = a.plus(lin{m: map[*Term]int64{u: 1}}, -1).plus(linOf(st), 1)
			}
		}
		if d := from.plus(linOf(n.args[1]), -1); !d.isConst() || d.c < -1 {
			return false
		}
		if a.mentions(moving) || from.plus(linOf(n.args[1]), -1).c == -1 {
			c.equalInts(s, a, b)
			return true
		}
		return false
	}
	if !b.isConst() || len(a.m) != 1 {
		return false
	}
	for u, k := range a.m {
		if u.op == "norm" && k == 1 && strings.HasPrefix(u.aux, "Resolve.") {
			// it has not moved yet
			if b.c-a.c < 0 && c.x.Truth(s, c.x.binopEq(u, c.x.tp.intT(-1))) == 2 {
				s.dead = true
				return true
			}
			if b.c-a.c != 0 {
				return false
			}
			for _, n := range c.seq(s) {
				if p, ok := c.posBy(s, n, c.wasCell); n.op != "gap" && ok && p.isConst() && p.c == 0 {
					s.store[c.posCell(n)] = u
				}
			}
			c.contract(s)
			return true
		}
		phi, ok := u.site.(*ssa.Phi)
		if k != 1 || !ok || u.op != "iter" || stepOf(phi) != -1 {
			return false
		}
		st := s.ts["start:"+phi.Name()].t
		if st == nil {
			return false
		}
		from := linOf(st)
		q := from
		q.c = 0
		n, ok := single(q)
		if !ok || !strings.HasPrefix(n.aux, "Resolve.") || from.c+a.c < b.c {
			return false
		}
		for _, m := range c.seq(s) {
			if m.op == "gap" {
				continue
			}
			for _, p := range c.posAll(s, m, c.wasCell) {
				if p = p.plus(a, 1).plus(b, -1); !p.mentions(moving) {
					s.store[c.posCell(m)] = c.x.linTerm(p)
				}
			}
		}
		c.contract(s)
		return true
	}
	return false
}

// ahead: a is not beyond the resolved position b is made of.
func (c *listCheck) ahead(a, b lin) bool {
	d := b.plus(a, -1)
	if a.isConst() {
		for u, k := range b.m {
			if k != 1 || len(b.m) != 1 || u.op != "norm" {
				return false
			}
			return b.c-a.c >= 0
		}
		return false
	}
	var lo, hi *Term
	for u, k := range d.m {
		switch {
		case k == 1 && u.aux == "Resolve.1":
			hi = u
		case k == -1 && u.aux == "Resolve.0":
			lo = u
		default:
			return false
		}
	}
	return lo != nil && hi != nil && lo.args[0] == hi.args[0] && d.c >= 0
}

// behind: a constant is not less than a resolved position plus something.  That is false, or
// too little is known for the two to be equal.
func (c *listCheck) behind(s *State, a, b lin) bool {
	if !a.isConst() || len(b.m) != 1 {
		return false
	}
	k := b.c
	b.c = 0
	n, ok := single(b)
	if !ok || !strings.HasPrefix(n.aux, "Resolve.") {
		return false
	}
	min := int64(-1)
	if c.x.Truth(s, c.x.binopEq(n, c.x.tp.intT(-1))) == 2 {
		min = 0
	}
	if a.c-k < min {
		s.dead = true
	}
	return a.c-k != min
}

// meets: a counted variable is, or is not, a resolved position.  It is that only once, and it
// comes to the left one no later than to the right one.  Flags: t tested in this round, a in
// all rounds, n met now, b met before.
func (c *listCheck) meets(s *State, in *ssa.If, a, b lin, truth bool) {
	phi, add := counter(in)
	if phi == nil {
		return
	}
	n, ok := single(b)
	if !ok {
		n, ok = single(a)
	}
	if !ok || !strings.HasPrefix(n.aux, "Resolve.") {
		return
	}
	pre := "met:" + phi.Name() + ":"
	key := fmt.Sprintf("%s%d:%d", pre, add, n.id)
	fl := s.get(key)
	if fl == "" && s.get("round:"+phi.Name()) == "0" {
		fl = "a"
	}
	fl = strings.Replace(fl, "t", "", 1) + "t"
	if truth {
		if strings.Contains(fl, "b") {
			s.dead = true
			return
		}
		if n.aux == "Resolve.0" {
			for k, v := range s.ts {
				if strings.HasPrefix(k, fmt.Sprintf("%s%d:", pre, add)) && strings.Contains(v.s, "b") && v.t.aux == "Resolve.1" && v.t.args[0] == n.args[0] {
					s.dead = true
					return
				}
			}
		}
		fl = strings.Replace(fl, "n", "", 1) + "n"
	}
	s.ts[key] = TSVal{fl, n}
	// at the right position the left one has been met if it was looked for
	for k, v := range s.ts {
		if !strings.HasPrefix(k, fmt.Sprintf("%s%d:", pre, add)) || v.t.aux != "Resolve.0" || !strings.Contains(v.s, "a") || !strings.Contains(v.s, "t") || strings.ContainsAny(v.s, "nb") {
			continue
		}
		start, _, _, _ := inductive(phi)
		if start+add > 0 || start+add == 0 && c.x.Truth(s, c.x.binopEq(v.t, c.x.tp.intT(-1))) != 2 {
			continue
		}
		for k2, v2 := range s.ts {
			if strings.HasPrefix(k2, fmt.Sprintf("%s%d:", pre, add)) && v2.t.aux == "Resolve.1" && v2.t.args[0] == v.t.args[0] && strings.Contains(v2.s, "n") {
				s.dead = true
				return
			}
		}
	}
}

// later: the counter has left a position behind.
func (c *listCheck) later(s *State, in *ssa.If, a, b lin, truth bool) {
	phi, _ := counter(in)
	if phi == nil {
		return
	}
	v := linOf(c.x.eval(s, phi))
	pre := "met:" + phi.Name() + ":"
	for k, f := range s.ts {
		if !strings.HasPrefix(k, pre) || !strings.Contains(f.s, "b") {
			continue
		}
		var add int64
		fmt.Sscan(strings.Split(k[len(pre):], ":")[0], &add)
		gone := v.plus(linOf(f.t), -1) // at least 1-add
		d := a.plus(b, -1)             // less than 0, or not
		if e := d.plus(gone, -1); e.isConst() && truth && 1-add+e.c >= 0 {
			s.dead = true
		}
		if e := d.plus(gone, 1); e.isConst() && !truth && e.c-(1-add) < 0 {
			s.dead = true
		}
	}
}

// round: a loop is entered or goes on.
func (c *listCheck) round(s *State, b *ssa.BasicBlock, back bool) {
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if _, step, _, ok := inductive(phi); !ok || step != 1 {
			continue
		}
		s.set("round:"+phi.Name(), "0")
		if back {
			s.set("round:"+phi.Name(), "1")
		}
		for k, v := range s.ts {
			if !strings.HasPrefix(k, "met:"+phi.Name()+":") {
				continue
			}
			if !back {
				delete(s.ts, k)
				continue
			}
			fl := ""
			if strings.Contains(v.s, "a") && strings.Contains(v.s, "t") {
				fl += "a"
			}
			if strings.ContainsAny(v.s, "nb") {
				fl += "b"
			}
			s.ts[k] = TSVal{fl, v.t}
		}
	}
}

// passed: the loop ends with the counter at a, behind the position in b; if it was compared in
// each round it met the positions on the way.
func (c *listCheck) passed(s *State, h *ssa.BasicBlock, a, b lin) {
	d := a.plus(b, -1)
	for _, i := range h.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		start, step, _, ok := inductive(phi)
		if !ok || step != 1 {
			continue
		}
		last := linOf(c.x.eval(s, phi)).plus(d, -1) // the counter in terms of the position
		last.c--
		for k, v := range s.ts {
			pre := "met:" + phi.Name() + ":"
			if !strings.HasPrefix(k, pre) || !strings.Contains(v.s, "a") || strings.ContainsAny(v.s, "nb") {
				continue
			}
			var add int64
			fmt.Sscan(strings.Split(k[len(pre):], ":")[0], &add)
			if start+add > 0 || start+add == 0 && c.x.Truth(s, c.x.binopEq(v.t, c.x.tp.intT(-1))) != 2 {
				continue
			}
			for u, n := range last.m {
				if n != 1 || len(last.m) != 1 || last.c+add < 0 || u.op != "norm" {
					continue
				}
				if u == v.t || v.t.aux == "Resolve.0" && u.aux == "Resolve.1" && v.t.args[0] == u.args[0] {
					s.dead = true
					return
				}
			}
		}
	}
}

func (x *Exec) binopEq(a, b *Term) *Term {
	return x.tp.mk("cmp", "==", types.Typ[types.Bool], a, b)
}

// contract drops paths on which resolved positions are out of order or out of the list.
func (c *listCheck) contract(s *State) {
	ns := c.seq(s)
	// known positions must fit the number of nodes in between
	for _, cell := range []func(*Term) *Term{c.posCell, c.wasCell} {
		last, at := lin{}, -1
		gap := false
		for i, n := range ns {
			if n.op == "gap" {
				gap = true
				continue
			}
			t, ok := s.store[cell(n)]
			if !ok {
				continue
			}
			p := linOf(t)
			if at >= 0 {
				k := int64(0)
				for _, m := range ns[at+1 : i+1] {
					if m.op != "gap" {
						k++
					}
				}
				if d := p.plus(last, -1); d.isConst() && (d.c < k || d.c > k && !gap) {
					s.dead = true
					return
				}
			}
			last, at, gap = p, i, false
		}
	}
	lo, hi := map[int]int{}, map[int]int{}
	for i, n := range ns {
		t, ok := s.store[c.posCell(n)]
		if !ok {
			continue
		}
		u, ok := single(linOf(t))
		if !ok || !strings.HasPrefix(u.aux, "Resolve.") {
			continue
		}
		if n == c.T() || n == c.H() {
			s.dead = true
			return
		}
		switch u.aux {
		case "Resolve.0":
			lo[u.args[0].id] = i
		case "Resolve.1":
			hi[u.args[0].id] = i
		}
	}
	for id, i := range lo {
		if j, ok := hi[id]; ok && i > j {
			s.dead = true
		}
	}
}

// single: exactly one resolved position.
func single(l lin) (*Term, bool) {
	if l.c != 0 || len(l.m) != 1 {
		return nil, false
	}
	for u, k := range l.m {
		if k == 1 && u.op == "norm" {
			return u, true
		}
	}
	return nil, false
}

// ---- checkpoints ----

func (c *listCheck) name() string { return "ListContainer." + c.sp.method }

func (c *listCheck) fail(s *State, pos, key, format string, a ...interface{}) {
	if c.learn || c.blind || c.posOn {
		return
	}
	c.r.failPath(key+" in "+c.name(), pos, s.path(), "%s: %s", c.name(), fmt.Sprintf(format, a...))
}

func (c *listCheck) failPos(s *State, pos, key, format string, a ...interface{}) {
	if c.learn || c.blind || !c.posOn {
		return
	}
	c.r.failPath(key+" in "+c.name(), pos, s.path(), "%s: %s", c.name(), fmt.Sprintf(format, a...))
}

func (c *listCheck) giveUp(s *State, why string) {
	s.dead = true
	if !c.und && !c.learn {
		c.und = true
		c.r.site("not decided", c.name()+": "+why)
	}
}

// diff compares the links with the sequence: nodes put in, nodes and gaps taken out.
func (c *listCheck) diff(s *State, act []*Term) (ins, del []*Term, ok bool) {
	ns := c.seq(s)
	in := map[*Term]bool{}
	for _, n := range act {
		in[n] = true
	}
	old := map[*Term]bool{}
	var kept []*Term
	for _, n := range ns {
		old[n] = true
		if in[n] {
			kept = append(kept, n)
		} else {
			del = append(del, n)
		}
	}
	var seen []*Term
	for _, n := range act {
		if old[n] {
			seen = append(seen, n)
		} else {
			ins = append(ins, n)
		}
	}
	for i := range kept {
		if kept[i] != seen[i] {
			return ins, del, false
		}
	}
	return ins, del, true
}

// settle brings the sequence up to date with the links and accounts for the difference.
func (c *listCheck) settle(s *State, in ssa.Instruction, final bool) bool {
	x := c.x
	pos := c.p.instrPos(in)
	act, bad := c.walk(s)
	if bad == "?" {
		c.giveUp(s, "links that are not followed")
		return false
	}
	if bad != "" {
		if final {
			c.fail(s, pos, "links", "%s when it returns", bad)
		}
		return false
	}
	ins, del, ok := c.diff(s, act)
	if !ok {
		c.fail(s, pos, "order", "the nodes that were in the list are in another order than before")
		return false
	}
	if act[0] != c.H() || act[len(act)-1] != c.T() {
		c.giveUp(s, "sentinels are replaced")
		return false
	}
	// data of nodes that were there
	for _, n := range act {
		if indexOfTerm(c.seq(s), n) < 0 || n.op == "gap" || n == c.H() || n == c.T() {
			continue
		}
		d := s.store[c.cell(n, c.sh.data)]
		if d == nil || d == c.dataOf(n) {
			continue
		}
		c.changed(s, pos, n, d)
		s.store[c.cell(n, c.sh.data)] = c.dataOf(n)
	}
	c.event(s, in, act, ins, del)
	if s.dead {
		return false
	}
	l := linOf(s.getT("actual"))
	l.c += int64(len(ins))
	for _, n := range del {
		if n.op == "gap" {
			l.m[n]--
			if l.m[n] == 0 {
				delete(l.m, n)
			}
		} else {
			l.c--
		}
	}
	s.setT("actual", x.linTerm(l))
	if len(ins)+len(del) > 0 {
		c.acts++
		s.set("touched", "1")
		s.del("some")
		for a := range s.store {
			if a.op == "posof" && (a.args[0] != c.H() || a.aux != "end") {
				delete(s.store, a)
			}
		}
	}
	c.setSeq(s, act)
	return true
}

func (c *listCheck) sizeCell() *Term { return c.cell(c.recv, c.sh.size) }

// head is run at each loop head.
func (c *listCheck) atHead(s *State, b *ssa.BasicBlock) {
	x := c.x
	fr := s.top()
	in := b.Instrs[len(b.Instrs)-1]
	ins := map[*ssa.Phi]lin{}
	for _, i := range b.Instrs {
		if phi, ok := i.(*ssa.Phi); ok {
			if t := s.getT("in:" + phi.Name()); t != nil {
				ins[phi] = linOf(t)
				s.del("in:" + phi.Name())
			}
		}
	}
	back := fr.prev != nil && b.Dominates(fr.prev)
	if s.getT("seq") == nil {
		return
	}
	if c.track {
		if !back {
			for phi, v := range ins {
				s.setT("start:"+phi.Name(), x.linTerm(v))
			}
		}
		c.round(s, b, back)
	}
	if c.free {
		c.abstract(s, b, ins, back)
		return
	}
	if !c.settle(s, in, false) {
		if s.dead {
			return
		}
		n := 0
		fmt.Sscan(s.get("unroll"), &n)
		if n >= 3 {
			s.dead = true
			return
		}
		s.set("unroll", fmt.Sprint(n+1))
		m := map[*Term]*Term{}
		for a := range s.store {
			if a.op == "fieldaddr" && c.isNode(a.args[0]) && a.args[0].site != nil && m[a.args[0]] == nil {
				m[a.args[0]] = c.newNode(s)
			}
		}
		if len(m) > 0 {
			x.substMap(s, m)
		}
		return
	}
	c.count(s, b, in, ins, back)
	if s.dead {
		return
	}
	c.abstract(s, b, ins, back)
	delete(s.facts, s.getT("S"))
	c.sized(s)
}

// count ties the size to the number of elements.
func (c *listCheck) count(s *State, b *ssa.BasicBlock, in ssa.Instruction, ins map[*ssa.Phi]lin, back bool) {
	x := c.x
	S := s.getT("S")
	sv := linOf(x.load(s, c.sizeCell(), nil, types.Typ[types.Int]))
	av := linOf(s.getT("actual"))
	removedBefore := linOf(s.getT("S0")).plus(av, -1) // what is gone since the start, as long as the size is not touched
	d := av.plus(sv, -1)
	rel, has := c.rel[b]
	if has {
		d = d.plus(ins[rel.phi], -rel.k)
	}
	if c.learn {
		d = lin{}
	}
	if !d.isConst() {
		c.giveUp(s, "the size in a loop")
		return
	}
	key := fmt.Sprintf("hd%d", x.siteID(b.Instrs[len(b.Instrs)-1]))
	if back && s.get(key) != "" && s.get(key) != fmt.Sprint(d.c) {
		what := "the size"
		if has {
			what = "the count by which the size is corrected"
		}
		c.fail(s, c.p.instrPos(in), "size", "%s does not follow the nodes put in and taken out in a round of the loop", what)
		s.dead = true
		return
	}
	s.set(key, fmt.Sprint(d.c))
	// the size goes down with the counter that is the answer
	if phi := c.ans[b]; phi != nil && !has && !c.learn {
		if v, ok := ins[phi]; ok {
			if e := sv.plus(linOf(S), -1).plus(v, 1); e.isConst() && e.c <= 2 && e.c >= -2 {
				sv = linOf(S).plus(e, 1).plus(linOf(x.eval(s, phi)), -1)
				s.store[c.sizeCell()] = x.linTerm(sv)
				sv.c += d.c
				s.setT("actual", x.linTerm(sv))
				return
			}
		}
	}
	// a new name for the size if it has changed
	if !sv.plus(linOf(S), -1).zero() {
		old := x.tp.mk("sizeold", "", types.Typ[types.Int])
		x.substMap(s, map[*Term]*Term{S: old})
		for t := range s.facts {
			if t.mentions(old) {
				delete(s.facts, t)
			}
		}
		s.store[c.sizeCell()] = S
		s.setT("S", S)
	}
	a := linOf(S)
	a.c += d.c
	if has {
		a = a.plus(linOf(x.eval(s, rel.phi)), rel.k)
	}
	s.setT("actual", x.linTerm(a))
	// counters that run down
	if c.sp.op == "remove" && s.getT("S0") == S {
		for phi, v := range ins {
			if has && phi == rel.phi {
				continue
			}
			e := v.plus(removedBefore, 1)
			if e.isConst() || e.mentions(moving) || e.c > 2 || e.c < -2 {
				continue
			}
			r := linOf(S).plus(a, -1)
			s.top().env[phi] = x.linTerm(e.plus(r, -1))
		}
	}
}

// abstract makes everything nothing refers to part of a gap and gives the rest fixed names.
func (c *listCheck) abstract(s *State, b *ssa.BasicBlock, ins map[*ssa.Phi]lin, back bool) {
	x := c.x
	ns := c.seq(s)
	roots := map[*Term]bool{c.H(): true, c.T(): true}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil {
			return
		}
		if c.isNode(t) {
			roots[t] = true
			return
		}
		switch t.op {
		case "append", "appendv", "iter", "mix", "join", "seq", "old":
			return
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, t := range f.args {
			mark(t)
		}
		for _, d := range f.defers {
			for _, t := range d.args {
				mark(t)
			}
		}
	}
	for k, v := range s.ts {
		if k != "seq" {
			mark(v.t)
		}
	}
	for a, v := range s.store {
		if a.op == "alloc" {
			mark(v)
		}
	}
	// positions of what stays
	type at struct {
		n          *Term
		p, w, q, z lin
		all        []lin
	}
	var ps []at
	for _, n := range ns {
		if n.op == "gap" || !roots[n] {
			continue
		}
		e := at{n: n}
		e.p, _ = c.posBy(s, n, c.posCell)
		e.w, _ = c.posBy(s, n, c.wasCell)
		e.q, _ = c.posBy(s, n, c.altCell)
		e.z, _ = c.posBy(s, n, c.endCell)
		e.all = c.posAll(s, n, c.wasCell, c.posCell)
		ps = append(ps, e)
	}
	for a := range s.store {
		if a.op == "posof" && a.aux != "end" {
			delete(s.store, a)
		}
	}
	for _, e := range ps {
		if q := e.p; q.m != nil && q.c <= 2 && q.c >= -2 {
			q.c = 0
			if _, ok := single(q); ok {
				s.store[c.posCell(e.n)] = x.linTerm(e.p)
			}
		}
		if _, ok := single(e.q); ok {
			s.store[c.altCell(e.n)] = x.linTerm(e.q)
		}
		if !back {
			// counters of loops that are over, or start again, say nothing
			if e.w.m == nil || e.w.mentions(func(u *Term) bool { return moving(u) && !c.outer(u, b) }) {
				e.w = e.p
			}
			if e.w.m == nil && e.n != c.T() {
				e.w = e.z
			}
			if e.w.m != nil {
				s.store[c.wasCell(e.n)] = x.linTerm(e.w)
			}
			continue
		}
		for _, i := range b.Instrs {
			phi, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			v, ok := ins[phi]
			if !ok {
				continue
			}
			now, done := linOf(x.eval(s, phi)), false
			for k, w := range append(e.all, e.z) {
				if w.m == nil || k == len(e.all) && (e.n == c.H() || e.n == c.T()) {
					continue
				}
				switch stepOf(phi) {
				case 1:
					if d := w.plus(v, -1); d.isConst() && d.c <= 2 && d.c >= -2 {
						s.store[c.wasCell(e.n)] = x.linTerm(now.plus(d, 1))
						done = true
					}
				case -1:
					if d := w.plus(v, -1); d.isConst() && d.c <= 2 && d.c >= -2 {
						s.store[c.wasCell(e.n)] = x.linTerm(now.plus(d, 1))
						done = true
					} else if d := w.plus(v, 1); k < len(e.all) && !w.isConst() == w.mentions(moving) && !d.mentions(moving) && d.c <= 2 && d.c >= -2 {
						s.store[c.wasCell(e.n)] = x.linTerm(d.plus(now, -1))
						done = true
					}
				}
				if done {
					break
				}
			}
			if done {
				break
			}
		}
	}
	if e := s.getT("endpos"); e != nil && c.free && back {
		l := linOf(e)
		for _, i := range b.Instrs {
			if phi, ok := i.(*ssa.Phi); ok {
				if v, ok := ins[phi]; ok {
					if d := l.plus(v, -1); d.isConst() && d.c <= 2 && d.c >= -2 {
						s.setT("endpos", x.linTerm(linOf(x.eval(s, phi)).plus(d, 1)))
						break
					}
				}
			}
		}
	}
	// the new sequence
	var out []*Term
	gapped := false
	drop := map[*Term]bool{}
	for _, n := range ns {
		if n.op == "gap" || !roots[n] {
			gapped = true
			if n.op != "gap" {
				drop[n] = true
			}
			continue
		}
		if c.track && len(out) > 0 && out[len(out)-1] != s.getT("gave") {
			gapped = true // neighbours need not be known as such
		}
		if gapped && len(out) > 0 {
			out = append(out, c.gap("?"))
		}
		gapped = false
		out = append(out, n)
	}
	for i, n := range out {
		if n.op == "gap" {
			l, r := out[i-1], out[i+1]
			delete(s.store, c.cell(l, c.sh.next))
			delete(s.store, c.cell(r, c.sh.prev))
		}
	}
	// nodes that are not part of the list any more
	for a := range s.store {
		if a.op == "fieldaddr" && c.isNode(a.args[0]) && indexOfTerm(ns, a.args[0]) < 0 && !roots[a.args[0]] {
			drop[a.args[0]] = true
		}
	}
	lost := x.tp.mk("lostnode", "", c.sh.ptr)
	m := map[*Term]*Term{}
	isDrop := func(u *Term) bool { return drop[u] }
	for a := range s.store {
		if a.any(isDrop) {
			delete(s.store, a)
		}
	}
	for t := range s.facts {
		if t.any(isDrop) {
			delete(s.facts, t)
		}
	}
	for n := range drop {
		m[n] = lost
	}
	k := 0
	name := func(n *Term) {
		if n != c.H() && n != c.T() && m[n] == nil {
			k++
			m[n] = c.node(fmt.Sprintf("n%d", k))
		}
	}
	for _, n := range out {
		if n.op != "gap" {
			name(n)
		}
	}
	// roots outside the list
	var rest []*Term
	for n := range roots {
		if m[n] == nil && n != c.H() && n != c.T() {
			rest = append(rest, n)
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].id < rest[j].id })
	for _, n := range rest {
		name(n)
	}
	s.setT("seq", x.tp.mk("seq", "", nil, out...))
	x.substMap(s, m)
	ns = c.seq(s)
	out = nil
	for i, n := range ns {
		if n.op == "gap" {
			n = c.gap(fmt.Sprintf("g%d", i))
		}
		out = append(out, n)
	}
	c.setSeq(s, out)
	for _, n := range out {
		if n.op != "gap" && n != c.H() && n != c.T() {
			s.store[c.cell(n, c.sh.data)] = c.dataOf(n)
		}
	}
	s.set("nn", "0")
	if c.track {
		c.contract(s)
	}
}

// ---- what the methods may do ----

// event checks what was put in and taken out since the last checkpoint.
func (c *listCheck) event(s *State, in ssa.Instruction, act, ins, del []*Term) {
	pos := c.p.instrPos(in)
	changed := len(ins)+len(del) > 0
	switch c.sp.op {
	case "push":
		if len(del) > 0 {
			c.fail(s, pos, "takes out", "a node is taken out of the list")
		}
		if len(ins) > 1 {
			c.giveUp(s, "several nodes at once")
			return
		}
		for _, n := range ins {
			i := indexOfTerm(act, n)
			if c.sp.method == "PushHead" && i != 1 {
				c.fail(s, pos, "place", "the new node is not right behind the head")
			}
			if c.sp.method == "PushTail" && i != len(act)-2 {
				c.fail(s, pos, "place", "the new node is not right before the tail")
			}
			if iv := s.getT("iv"); iv == nil || c.dataIn(s, n) != iv.canon() {
				c.fail(s, pos, "data", "the new node does not hold the item at hand")
			} else {
				c.cv.use(c.x, s, in)
			}
			c.r.site("node put in", pos+" "+c.name())
		}
	case "pop":
		if !changed {
			return
		}
		ns := c.seq(s)
		first := ns[1]
		if c.sp.method == "PopTail" {
			first = ns[len(ns)-2]
		}
		if len(ins) > 0 || len(del) != 1 || del[0] != first {
			c.fail(s, pos, "other node", "what is taken out is not just the node at the end asked for")
		}
		if len(c.rets) == 2 && len(del) == 1 {
			if v := stripConv(c.rets[0]); v != c.dataOf(del[0]) {
				c.fail(s, pos, "data", "the data given back is not that of the node taken out")
			}
			if c.x.Nilness(s, c.rets[1]) == 2 {
				c.fail(s, pos, "error", "an error is reported although a node was taken out")
			}
			c.r.site("node taken out", pos+" "+c.name())
		}
	case "insert":
		if len(del) > 0 || len(ins) > 1 {
			c.fail(s, pos, "other nodes", "more than one node is put in, or one is taken out")
		}
		if len(ins) != 1 {
			return
		}
		n := ins[0]
		i := indexOfTerm(act, n)
		m := s.getT("match")
		if m == nil {
			c.fail(s, pos, "no pivot", "a node is put in although no node was found to be equal to the pivot")
			return
		}
		if c.dataIn(s, n) != c.x.Param(c.f.Params[2]) {
			c.fail(s, pos, "data", "the new node does not hold the value given")
		}
		switch c.x.Truth(s, c.x.Param(c.f.Params[3])) {
		case 1:
			if act[i-1] != m {
				c.fail(s, pos, "place", "the new node is not right behind the pivot")
			}
		case 2:
			if act[i+1] != m {
				c.fail(s, pos, "place", "the new node is not right before the pivot")
			}
		default:
			c.fail(s, pos, "side", "the node is put in whichever side is asked for")
		}
		s.set("put", "1")
		c.r.site("node put in", pos+" "+c.name())
	case "remove":
		m := s.getT("match")
		switch {
		case len(ins) > 0:
			c.fail(s, pos, "puts in", "a node is put in")
		case len(del) > 1:
			c.giveUp(s, "several nodes at once")
			return
		case len(del) == 1 && del[0] != m:
			c.fail(s, pos, "other node", "a node is taken out that was not found to be equal to the value")
		case len(del) == 0 && m != nil:
			c.fail(s, pos, "left in", "a node that is equal to the value is not taken out")
		case len(del) == 1:
			c.r.site("node taken out", pos+" "+c.name())
		}
		s.del("match")
	case "trim":
		if len(ins) > 0 {
			c.fail(s, pos, "puts in", "a node is put in")
		}
		if len(c.rets) == 1 {
			switch c.x.Nilness(s, c.rets[0]) {
			case 2:
				if changed {
					c.failPos(s, pos, "error", "an error is reported although the list was cut")
				}
			case 1:
				c.place(s, pos, act[1], 0, "the first node left")
				c.place(s, pos, act[len(act)-2], 1, "the last node left")
			}
		}
	default:
		if changed {
			c.fail(s, pos, "changes", "the nodes of the list are changed")
		}
	}
}

// place: n is the node at the resolved position of the parameter.
func (c *listCheck) place(s *State, pos string, n *Term, par int, what string) {
	want := c.x.Param(c.f.Params[1+par])
	one := c.sp.op == "index" || c.sp.op == "set"
	aux := fmt.Sprintf("Resolve.%d", par)
	if one {
		aux = "Resolve.s"
	}
	S := s.getT("S")
	asked := func(t *Term) bool {
		if t == want {
			return true
		}
		// resolved before, which can be done again only if it is not negative
		if t.op == "norm" && strings.HasPrefix(t.aux, "ResolveRaw.") && t.args[1] == S && t.args[0].op == "norm" && t.args[0].args[0] == want {
			return c.x.Truth(s, c.x.tp.mk("cmp", "<", types.Typ[types.Bool], t, c.x.tp.intT(0))) == 2
		}
		return false
	}
	is := func(u *Term) bool {
		if u.aux != aux && strings.HasPrefix(u.aux, "Resolve.") || len(u.args) != 2 || u.args[1] != S || u.args[0].op != "norm" {
			return false
		}
		as := u.args[0].args
		if one {
			return asked(as[0])
		}
		return len(as) == 2 && asked(as[par]) || par == 1 && c.clamped(s, u, want)
	}
	var wrong *Term
	for _, l := range c.posAll(s, n, c.posCell, c.altCell, c.wasCell, c.endCell) {
		ok := false
		u, sg := single(l)
		if sg {
			ok = is(u)
		} else {
			// resolved by hand
			rest := l.plus(linOf(want), -1)
			neg := c.x.Truth(s, c.x.tp.mk("cmp", "<", types.Typ[types.Bool], want, c.x.tp.intT(0)))
			ok = rest.zero() && neg != 1 || rest.plus(linOf(S), -1).zero() && neg != 2
		}
		for t, f := range s.facts {
			if t.op == "norm" && is(t) && l.isConst() && c.x.Truth(s, c.x.binopEq(t, c.x.tp.intT(l.c))) == 1 {
				ok = true
			}
			if t.op == "cmp" && t.aux == "==" && f.truth == 1 {
				for i := range t.args {
					if u := t.args[i]; u.op == "norm" && is(u) && linOf(t.args[1-i]).plus(l, -1).zero() {
						ok = true
					}
				}
			}
		}
		if ok {
			if c.posOn {
				c.r.site("position reached", c.name()+" "+what)
			}
			return
		}
		if l.isConst() || sg || wrong == nil && l.mentions(func(u *Term) bool { return isNorm(u) || u == want }) {
			wrong = c.x.linTerm(l)
		}
	}
	if wrong != nil {
		c.failPos(s, pos, "position", "%s is at position %s, which is not the one asked for", what, wrong)
		return
	}
	if c.posOn {
		c.giveUp(s, "positions")
	}
}

// posAll: what is known of the position of a node.
func (c *listCheck) posAll(s *State, n *Term, cells ...func(*Term) *Term) []lin {
	var out []lin
	ns := c.seq(s)
	i := indexOfTerm(ns, n)
	for _, d := range []int{-1, 1} {
		for j := i; j >= 0 && j < len(ns) && ns[j].op != "gap"; j += d {
			for _, cell := range cells {
				if t, ok := s.store[cell(ns[j])]; ok {
					out = append(out, linOf(t).plus(lin{c: int64(i - j)}, 1))
				}
			}
		}
	}
	return out
}

// clamped: the last position stands in for one that is not in the list.
func (c *listCheck) clamped(s *State, u, want *Term) bool {
	S := s.getT("S")
	last := linOf(S)
	last.c--
	if !u.any(func(v *Term) bool { return v != u && v.op != "norm" && linOf(v).plus(last, -1).zero() }) {
		return false
	}
	for t, f := range s.facts {
		if t.op != "cmp" || t.aux != "<" || f.truth == 0 {
			continue
		}
		a, b := t.args[0], t.args[1]
		beyond := linOf(a).plus(linOf(S), -1) // at least 0
		w := a
		if f.truth == 1 {
			beyond, w = linOf(b).plus(linOf(S), -1), b
			if !linOf(a).plus(last, -1).zero() {
				continue
			}
		} else if b != S {
			continue
		}
		if len(beyond.m) == 2 && w.mentions(want) && (w == want || w.op == "norm") {
			return true
		}
	}
	return false
}

func (c *listCheck) dataIn(s *State, n *Term) *Term {
	return c.x.load(s, c.cell(n, c.sh.data), nil, c.sh.dataT).canon()
}

// changed: the data of a node that was in the list is replaced.
func (c *listCheck) changed(s *State, pos string, n, d *Term) {
	if c.sp.op != "set" {
		c.fail(s, pos, "data changed", "the data of a node in the list is replaced")
		return
	}
	if s.get("set") != "" {
		c.failPos(s, pos, "twice", "more than one element is replaced")
	}
	s.set("set", "1")
	if d.canon() != c.x.Param(c.f.Params[2]) {
		c.failPos(s, pos, "data", "the element is replaced by something else than the value given")
	}
	c.place(s, pos, n, 0, "the element that is replaced")
}

// match: the node whose data the condition compares, and with what.
func (c *listCheck) match(t *Term) (*Term, *Term) {
	var a, b *Term
	switch {
	case t.op == "equals":
		a, b = t.args[0], t.args[1]
	case t.op == "cmp" && t.aux == "==":
		a, b = itemOf(t.args[0]), itemOf(t.args[1])
	}
	if a == nil || b == nil {
		return nil, nil
	}
	a, b = stripConv(a), stripConv(b)
	if a.op != "dataof" {
		a, b = b, a
	}
	if a.op != "dataof" || b.op == "dataof" {
		return nil, nil
	}
	return a.args[0], b
}

// compared: a node is compared with the value looked for.
func (c *listCheck) compared(s *State, in ssa.Instruction, n, key *Term, truth bool) {
	pos := c.p.instrPos(in)
	par := 1
	if c.sp.op == "remove" {
		par = 2
	}
	c.acts++
	c.r.site("comparison of an element", pos)
	if key != c.x.Param(c.f.Params[par]) {
		c.fail(s, pos, "compared with", "the elements are compared with something else than the value given")
	}
	if n == c.H() || n == c.T() {
		c.fail(s, pos, "sentinel", "a sentinel is compared as if it was an element")
		s.dead = true
		return
	}
	if s.getT("match") != nil {
		c.giveUp(s, "comparisons after a match")
		return
	}
	ns := c.seq(s)
	i := indexOfTerm(ns, n)
	if i < 0 {
		c.fail(s, pos, "gone", "a node is compared that is not in the list any more")
		s.dead = true
		return
	}
	if s.get("dir") == "" {
		switch {
		case i == 1:
			s.set("dir", "f")
			s.setT("seen", c.H())
			if len(ns) == 3 {
				s.set("dir", "?") // the only element
			}
		case i == len(ns)-2 && c.sp.op == "remove":
			s.set("dir", "b")
			s.setT("seen", c.T())
		default:
			c.fail(s, pos, "start", "the first element that is compared is not the one at the end")
			s.dead = true
			return
		}
	} else {
		v := s.getT("seen")
		ok := false
		switch s.get("dir") {
		case "f":
			ok = ns[i-1] == v
		case "b":
			ok = ns[i+1] == v
		}
		if !ok {
			c.fail(s, pos, "skips", "the element that is compared is not the one next to the last one")
			s.dead = true
			return
		}
	}
	if truth {
		s.setT("match", n)
		if c.sp.op == "remove" {
			c.under(s, pos)
		}
	} else {
		s.setT("seen", n)
	}
}

// removed: how many nodes were taken out so far.
func (c *listCheck) removed(s *State) (lin, bool) {
	S := s.getT("S")
	if s.getT("S0") != S {
		return lin{}, false
	}
	act, bad := c.walk(s)
	if bad != "" {
		return lin{}, false
	}
	_, del, ok := c.diff(s, act)
	if !ok {
		return lin{}, false
	}
	return linOf(S).plus(linOf(s.getT("actual")), -1).plus(lin{c: int64(len(del))}, 1), true
}

// limit recognises the comparison of the number of removed nodes with how many are wanted.
func (c *listCheck) limit(s *State, t *Term, truth bool) {
	if t.op != "cmp" {
		return
	}
	r, ok := c.removed(s)
	if !ok {
		return
	}
	a, b := linOf(t.args[0]), linOf(t.args[1])
	var l lin
	switch {
	case t.aux == "<":
		// a < b: b - a > 0; with r + rest = b - a the limit is r + (b - a)
		l = b.plus(a, -1).plus(r, 1)
		truth = !truth
	case t.aux == "==":
		l = b.plus(a, -1).plus(r, 1)
		if !c.validLimit(s, l) {
			l = a.plus(b, -1).plus(r, 1)
		}
	}
	if l.m == nil || l.mentions(moving) || !c.validLimit(s, l) {
		return
	}
	// the limit is reached (truth) or not
	if truth {
		if sg := c.signOf(s); r.zero() && (sg == 1 || sg == -1 || sg == 2) {
			s.dead = true // at least one is asked for
			return
		}
		s.set("limited", "1")
	} else {
		s.set("under", "1")
	}
}

// validLimit: the limit is the absolute value of the count, or all when the count is zero.
func (c *listCheck) validLimit(s *State, l lin) bool {
	cnt := c.x.Param(c.f.Params[1])
	zero := c.signOf(s)
	switch {
	case l.plus(linOf(cnt), -1).zero():
		return zero != 0 && zero != -1
	case l.plus(linOf(cnt), 1).zero():
		return zero == -1 || zero == 2
	case l.plus(linOf(s.getT("S0")), -1).zero():
		return zero == 0
	}
	return false
}

// signOf the count: -1, 0, 1, 2 (not zero), 3 (zero or more), 4 (unknown).
func (c *listCheck) signOf(s *State) int {
	x := c.x
	cnt, z := x.Param(c.f.Params[1]), x.tp.intT(0)
	lt := x.Truth(s, x.tp.mk("cmp", "<", types.Typ[types.Bool], cnt, z))
	gt := x.Truth(s, x.tp.mk("cmp", "<", types.Typ[types.Bool], z, cnt))
	eq := x.Truth(s, x.binopEq(cnt, z))
	switch {
	case lt == 1:
		return -1
	case gt == 1:
		return 1
	case eq == 1 || lt == 2 && gt == 2:
		return 0
	case lt == 2 && eq == 2:
		return 1
	case gt == 2 && eq == 2:
		return -1
	case eq == 2:
		return 2
	case lt == 2:
		return 3
	}
	return 4
}

// under: one more node may be removed.
func (c *listCheck) under(s *State, pos string) {
	switch sg := c.signOf(s); {
	case sg == -1 && s.get("dir") == "f":
		c.fail(s, pos, "direction", "with a negative count the elements are removed from the head")
	case (sg == 1 || sg == 0 || sg == 3) && s.get("dir") == "b":
		c.fail(s, pos, "direction", "the elements are removed from the tail although the count is not negative")
	case sg == 4:
		c.fail(s, pos, "direction", "the elements are removed from the same end whatever the sign of the count")
	}
	r, ok := c.removed(s)
	if !ok || r.zero() || s.get("under") != "" || c.signOf(s) == 0 {
		s.del("under")
		return
	}
	c.fail(s, pos, "limit", "one more element is removed without a look at how many were asked for")
}

// complete: every element was compared.
func (c *listCheck) complete(s *State) bool {
	ns := c.seq(s)
	switch s.get("dir") {
	case "":
		k, gaps := c.elems(ns)
		return k == 0 && !gaps
	case "b":
		i := indexOfTerm(ns, s.getT("seen"))
		return i == 1
	case "?":
		k, gaps := c.elems(ns)
		return !gaps && k <= 1
	}
	i := indexOfTerm(ns, s.getT("seen"))
	return i == len(ns)-2
}

// ---- running ----

func (c *listCheck) hooks(x *Exec) {
	p, f, sp := c.p, c.f, c.sp
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" }
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		if c.cv != nil {
			c.cv.cut(x, s, in)
		}
		var addr ssa.Value
		switch i := in.(type) {
		case *ssa.UnOp:
			addr = i.X
		case *ssa.Store:
			addr = i.Addr
		}
		if addr == nil {
			return
		}
		if a := x.eval(s, addr); a.op == "fieldaddr" && (a.aux == c.sh.next || a.aux == c.sh.prev) {
			if _, ok := in.(*ssa.UnOp); ok && c.track && (a.args[0] == c.T() && a.aux == c.sh.next || a.args[0] == c.H() && a.aux == c.sh.prev) {
				s.dead = true // a resolved position is not beyond the ends
				return
			}
			c.open(s, a.args[0], a.aux)
		}
	}
	x.H.Deref = func(x *Exec, s *State, base *Term, in ssa.Instruction) {
		if x.Nilness(s, base) == 1 {
			switch sp.op {
			case "push", "pop", "insert", "remove":
				c.fail(s, p.instrPos(in), "nil link", "a nil link is followed")
			}
		}
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if c.cv != nil && c.cv.load(x, s, addr, val, in) {
			s.setT("iv", val)
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		if c.cv != nil {
			c.cv.branch(x, s, cond, truth, in)
		}
		if s.getT("seq") == nil {
			return
		}
		t := cond
		tr := truth
		for t.op == "not" {
			t, tr = t.args[0], !tr
		}
		if sp.op == "remove" || sp.op == "insert" {
			if n, key := c.match(t); n != nil {
				c.compared(s, in, n, key, tr)
				return
			}
		}
		if sp.op == "remove" {
			cnt, z := x.Param(f.Params[1]), x.tp.intT(0)
			if x.Truth(s, x.tp.mk("cmp", "<", types.Typ[types.Bool], cnt, z)) == 2 && x.Truth(s, x.tp.mk("cmp", "<", types.Typ[types.Bool], z, cnt)) == 2 && x.Truth(s, x.binopEq(cnt, z)) == 2 {
				s.dead = true
				return
			}
			c.limit(s, t, tr)
		}
		if c.track && t.op == "cmp" {
			a, b := linOf(t.args[0]), linOf(t.args[1])
			to := in.Block().Succs[1]
			if truth {
				to = in.Block().Succs[0]
			}
			h := loopOf(in.Block())
			leaves := h != nil && !inLoop(h, to)
			// the counter starts where it can only come to be equal
			counts := func(l, to lin) bool {
				if l.isConst() {
					return true
				}
				if !l.mentions(moving) {
					return c.ahead(l, to)
				}
				for u, k := range l.m {
					phi, ok := u.site.(*ssa.Phi)
					if u.op != "iter" || k != 1 || !ok || len(l.m) != 1 || stepOf(phi) != 1 {
						return false
					}
					st := s.ts["start:"+phi.Name()].t
					return st != nil && c.ahead(linOf(st).plus(lin{c: l.c}, 1), to)
				}
				return false
			}
			if t.aux == "==" && !tr {
				for i, u := range t.args {
					if k, ok := t.args[1-i].intVal(); ok && k == -1 && u.op == "norm" && strings.HasPrefix(u.aux, "Resolve.") && u.args[1] == s.getT("S") {
						// there is an element
						s.set("some", "1")
						if !c.sized(s) {
							s.dead = true
							return
						}
					}
				}
			}
			if t.aux == "<" {
				c.later(s, in, a, b, tr)
			}
			switch {
			case s.dead:
			case t.aux == "==" && tr && leaves && (c.down(s, a, b) || c.down(s, b, a)):
			case t.aux == "==":
				c.meets(s, in, a, b, tr)
				if tr && !s.dead {
					c.equalInts(s, a, b)
					if leaves {
						c.passed(s, h, a, b)
					}
				}
			case t.aux == "<" && !tr && leaves && c.behind(s, a, b), t.aux == "<" && tr && leaves && c.behind(s, b, a.plus(lin{c: 1}, 1)):
			case t.aux == "<" && !tr && leaves && c.down(s, b, a):
			case t.aux == "<" && tr && leaves && c.down(s, a, b.plus(lin{c: -1}, 1)):
			case t.aux == "<" && !tr && leaves && counts(a, b):
				c.equalInts(s, a, b)
				c.passed(s, h, a, b)
			case t.aux == "<" && tr && leaves && counts(b, a.plus(lin{c: 1}, 1)):
				c.equalInts(s, b, a.plus(lin{c: 1}, 1))
				c.passed(s, h, b, a.plus(lin{c: 1}, 1))
			}
		}
	}
	x.H.Phi = func(x *Exec, s *State, phi *ssa.Phi, in *Term) {
		if isIntType(phi.Type()) && isHeader(phi.Block()) {
			s.setT("in:"+phi.Name(), in)
		}
	}
	x.H.Block = func(x *Exec, s *State, b *ssa.BasicBlock) bool {
		if isHeader(b) {
			c.atHead(s, b)
		}
		return !s.dead
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == "elemaddr" && sp.op == "range" && val.canon().op == "dataof" {
			c.gave(s, in, val.canon().args[0])
		}
	}
	x.H.Call = func(x *Exec, s *State, call ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if len(callees) != 1 {
			return CallAction{}
		}
		g := callees[0]
		rs := g.Signature.Results()
		pure := func(ts ...*Term) CallAction { return CallAction{Kind: actOpaque, Pure: true, Results: ts} }
		if len(args) > 0 && g.Signature.Recv() != nil && p.isNamedType(deref(g.Signature.Recv().Type()), "container", "StringContainer") {
			switch g.Name() {
			case "Equals":
				a, b := stripConv(args[0]), stripConv(args[1])
				if a.id > b.id {
					a, b = b, a
				}
				return pure(x.tp.mk("equals", "", rs.At(0).Type(), a, b))
			case "String", "Key", "Byte":
				return pure(x.tp.mk("str", g.Name()[:1], rs.At(0).Type(), args[0]))
			}
		}
		if pkgName(g) == "util" && rs.Len() > 0 {
			if len(args) == 2 && strings.HasPrefix(g.Name(), "Resolve") && rs.Len() == 1 && args[0].op == "norm" && len(args[0].args) == 1 {
				// it is in the list already
				if t := args[0].args[0]; t.op == "norm" && strings.HasPrefix(t.aux, "Resolve.") && t.args[1] == args[1] && x.Truth(s, x.binopEq(t, x.tp.intT(-1))) == 2 {
					return pure(t)
				}
			}
			var res []*Term
			for i := 0; i < rs.Len(); i++ {
				aux := fmt.Sprintf("%s.%d", g.Name(), i)
				if rs.Len() == 1 {
					aux = g.Name() + ".s"
				}
				t := x.tp.mk("norm", aux, rs.At(i).Type(), args...)
				if _, ok := rs.At(i).Type().Underlying().(*types.Pointer); ok {
					x.setNil(s, t, 2)
				}
				res = append(res, t)
			}
			return pure(res...)
		}
		if !c.free && c.releases(g) {
			if c.rel2 == nil {
				c.rel2 = map[*ssa.Function]bool{}
			}
			c.rel2[g] = true
			if t := c.release(s, args[0]); t != nil {
				return pure(t)
			}
			c.giveUp(s, "a chain that is let go of")
			return CallAction{Stop: true}
		}
		return CallAction{}
	}
}

// releases: the function walks a chain of nodes and counts it.
func (c *listCheck) releases(g *ssa.Function) bool {
	sg := g.Signature
	if sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 1 || !isIntType(sg.Results().At(0).Type()) || derefNamed(sg.Params().At(0).Type()) != c.sh.node {
		return false
	}
	loop := false
	for _, b := range g.Blocks {
		loop = loop || isHeader(b)
		for _, in := range b.Instrs {
			if _, ok := in.(ssa.CallInstruction); ok {
				return false
			}
		}
	}
	return loop
}

// release takes the chain that starts at n apart, up to the nil link at its end.
func (c *listCheck) release(s *State, n *Term) *Term {
	x := c.x
	ns := c.seq(s)
	l := lin{m: map[*Term]int64{}}
	var chain []*Term
	for !n.isNil() {
		if !c.isNode(n) || len(chain) > 60 {
			return nil
		}
		chain = append(chain, n)
		l.c++
		a := c.cell(n, c.sh.next)
		v, ok := s.store[a]
		if !ok {
			if i := indexOfTerm(ns, n); i >= 0 && i+2 < len(ns) && ns[i+1].op == "gap" {
				l.m[ns[i+1]]++
				n = ns[i+2]
				continue
			}
			v = x.tp.nilT()
		}
		n = v
	}
	for _, m := range chain {
		s.store[c.cell(m, c.sh.next)] = x.tp.nilT()
		s.store[c.cell(m, c.sh.prev)] = x.tp.nilT()
	}
	return x.linTerm(l)
}

// gave: the data of a node becomes part of the answer.
func (c *listCheck) gave(s *State, in ssa.Instruction, n *Term) {
	pos := c.p.instrPos(in)
	c.acts++
	if v := s.getT("gave"); v == nil {
		c.place(s, pos, n, 0, "the first element given")
	} else {
		ns := c.seq(s)
		i := indexOfTerm(ns, n)
		if i < 1 || ns[i-1] != v {
			c.failPos(s, pos, "order", "the element given is not the one next to the last one")
		}
	}
	s.setT("gave", n)
}

func (c *listCheck) run() {
	c.r.site("method", c.name())
	switch c.sp.op {
	case "new":
		c.fresh()
		return
	case "set", "index", "range", "trim":
		c.track = true
	}
	c.rel = map[*ssa.BasicBlock]listRel{}
	c.ans = map[*ssa.BasicBlock]*ssa.Phi{}
	c.learn = true
	c.once()
	c.learn = false
	c.once()
	if c.posOn {
		return
	}
	for g := range c.rel2 {
		d := &listCheck{p: c.p, r: c.r, sp: listSpec{g.Name(), "release"}, sh: c.sh, f: g, free: true}
		d.rel = map[*ssa.BasicBlock]listRel{}
		d.once()
	}
}

func (c *listCheck) once() {
	p, r, f, sp := c.p, c.r, c.f, c.sp
	x := NewExec(p)
	c.x = x
	x.Depth = 14
	x.Soft = true
	c.recv = x.Param(f.Params[0])
	c.cv = nil
	if sp.op == "push" {
		c.cv = newCover("items", 0)
	}
	c.hooks(x)
	at := p.pos(f.Pos())
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		in := fr.block.Instrs[len(fr.block.Instrs)-1]
		if c.free {
			c.freed(s, p.instrPos(in), res)
			return
		}
		if c.cv != nil {
			defer func() {
				if !s.dead {
					c.cv.finish(x, s, in)
					c.cv.left(x, s, in)
				}
			}()
		}
		c.rets = res
		ok := c.settle(s, in, true)
		c.rets = nil
		if ok {
			c.ret(s, in, res)
		}
	}
	x.Run(f, nil, func(s *State) {
		g := c.gap("g1")
		if c.free {
			a := c.node("n1")
			t := s.clone()
			t.top().env[f.Params[0]] = x.tp.nilT()
			t.setT("seq", x.tp.mk("seq", "", nil, c.T()))
			t.setT("endpos", x.tp.intT(0))
			x.push(t)
			s.top().env[f.Params[0]] = a
			c.setSeq(s, []*Term{a, g, c.T()})
			s.store[c.wasCell(a)] = x.tp.intT(0)
			return
		}
		s.store[c.cell(c.recv, c.sh.head)] = c.H()
		s.store[c.cell(c.recv, c.sh.tail)] = c.T()
		S := x.tp.mk("param", "size", types.Typ[types.Int])
		s.store[c.sizeCell()] = S
		s.setT("S", S)
		s.setT("S0", S)
		s.setT("actual", S)
		c.setSeq(s, []*Term{c.H(), g, c.T()})
		if c.track {
			s.store[c.wasCell(c.H())] = x.tp.intT(-1)
			s.store[c.endCell(c.H())] = x.tp.intT(-1)
			s.store[c.endCell(c.T())] = S
		}
		if c.cv != nil {
			c.cv.start(s, x.Param(f.Params[1]))
		}
		c.sized(s)
	})
	if x.Over && !c.learn {
		c.und = true
		r.site("not decided", c.name()+": too many states")
	}
	if c.learn {
		return
	}
	r.exec(x)
	if c.cv != nil && !c.und {
		c.cv.report(r, "item of "+c.name(), "put in")
	}
	switch sp.op {
	case "push", "pop", "insert", "remove":
		if c.acts == 0 && !c.und {
			c.r.fail("nothing in "+c.name(), at, "%s never changes the list", c.name())
		}
	}
}

// stepOf: what a variable of a loop changes by in each round.
func stepOf(phi *ssa.Phi) int64 {
	n := int64(0)
	for i, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[i]) {
			continue
		}
		o, isO := e.(*ssa.BinOp)
		if !isO || o.X != phi || o.Op != token.ADD && o.Op != token.SUB {
			return 0
		}
		k, isK := o.Y.(*ssa.Const)
		if !isK || k.Value == nil || k.Value.Kind() != constant.Int {
			return 0
		}
		d, _ := constant.Int64Val(k.Value)
		if o.Op == token.SUB {
			d = -d
		}
		if n != 0 && n != d {
			return 0
		}
		n = d
	}
	return n
}

// outer: the term is a variable of a loop around b.
func (c *listCheck) outer(u *Term, b *ssa.BasicBlock) bool {
	phi, ok := u.site.(*ssa.Phi)
	return ok && phi.Block() != b && phi.Parent() == b.Parent() && inLoop(phi.Block(), b)
}

// rangeCounter: the counter of a loop over all elements of a slice.
func rangeCounter(b *ssa.BasicBlock) *ssa.Phi {
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			return nil
		}
		if _, step, _, ok := inductive(phi); ok && step == 1 && isHeader(b) {
			return phi
		}
	}
	return nil
}

// ret checks the results.
func (c *listCheck) ret(s *State, in ssa.Instruction, res []*Term) {
	x := c.x
	pos := c.p.instrPos(in)
	sv := linOf(x.load(s, c.sizeCell(), nil, types.Typ[types.Int]))
	if c.learn {
		// which counter corrects the size
		for t, k := range sv.m {
			if phi, ok := t.site.(*ssa.Phi); ok && t.op == "iter" && isHeader(phi.Block()) {
				c.rel[phi.Block()] = listRel{phi, k}
			}
			if t.op == "len" && c.cv != nil {
				// a range over all of them
				for _, b := range c.f.Blocks {
					if phi := rangeCounter(b); phi != nil {
						c.rel[b] = listRel{phi, k}
					}
				}
			}
		}
		if c.sp.op == "remove" && len(res) == 1 {
			if phi, ok := stripConv(res[0]).site.(*ssa.Phi); ok && stripConv(res[0]).op == "iter" && isHeader(phi.Block()) {
				c.ans[phi.Block()] = phi
			}
		}
		return
	}
	av := linOf(s.getT("actual"))
	for t, f := range s.facts {
		// the end of a range
		if t.op == "cmp" && t.aux == "<" && f.truth == 2 {
			a, b := linOf(t.args[0]), linOf(t.args[1])
			for u := range a.m {
				if phi, ok := u.site.(*ssa.Phi); ok && u.op == "iter" && len(a.m) == 1 && a.m[u] == 1 && phi == rangeCounter(phi.Block()) && av.m[u] != 0 {
					av = av.plus(b.plus(a, -1), av.m[u])
				}
			}
		}
	}
	if d := sv.plus(av, -1); !d.zero() {
		if d.mentions(func(u *Term) bool { return u.op != "param" && u.op != "gap" }) {
			c.giveUp(s, "the size")
			return
		}
		c.fail(s, pos, "size", "the size becomes %s while the list has %s elements (size is the one before)", x.linTerm(sv), x.linTerm(av))
	}
	errNil := int8(0)
	if n := len(res); n > 0 {
		if _, ok := res[n-1].typ, true; ok && c.f.Signature.Results().At(n-1).Type().String() == "error" {
			errNil = x.Nilness(s, res[n-1])
		}
	}
	touched := s.get("touched") != ""
	count := func(t *Term) {
		if errNil != 2 && !linOf(t).plus(av, -1).zero() {
			c.fail(s, pos, "answer", "the answer is %s, not the length of the list", t)
		}
	}
	switch c.sp.op {
	case "push":
		count(res[0])
		if errNil == 2 && !touched {
			c.fail(s, pos, "error", "an error is reported")
		}
	case "pop":
		if !touched {
			if errNil == 1 {
				c.fail(s, pos, "nothing", "success is reported although nothing was taken out")
			}
			if k, gaps := c.elems(c.seq(s)); k > 0 || gaps && x.Truth(s, x.binopEq(s.getT("S"), x.tp.intT(0))) != 1 {
				c.fail(s, pos, "not empty", "nothing is taken out although the list may have elements")
			}
		}
	case "insert":
		if s.get("put") != "" {
			count(res[0])
			if errNil == 2 {
				c.fail(s, pos, "error", "an error is reported although the value was put in")
			}
			return
		}
		if errNil == 1 {
			c.fail(s, pos, "nothing", "success is reported although nothing was put in")
		}
		if s.getT("match") != nil {
			c.fail(s, pos, "left out", "the pivot was found but the value is not put in")
		} else if !c.complete(s) {
			c.fail(s, pos, "early", "the search for the pivot ends before every element was looked at")
		}
	case "remove":
		r := linOf(s.getT("S0"))
		if s.getT("S0").op == "param" {
			r = r.plus(av, -1)
			if !linOf(res[0]).plus(r, -1).zero() {
				c.fail(s, pos, "answer", "the answer is %s while %s elements were removed", res[0], x.linTerm(r))
			}
		}
		if s.get("limited") == "" && !c.complete(s) {
			c.fail(s, pos, "early", "it ends before every element was looked at and before as many were removed as asked for")
		}
	case "len":
		count(res[0])
	case "set":
		switch {
		case s.get("set") != "" && errNil == 2:
			c.failPos(s, pos, "error", "an error is reported although the element was replaced")
		case s.get("set") == "" && errNil != 2:
			c.failPos(s, pos, "nothing", "success is reported although nothing was replaced")
		}
		c.inRange(s, pos, errNil)
	case "index":
		if errNil != 2 {
			v := stripConv(res[0])
			if v.op != "dataof" {
				c.failPos(s, pos, "data", "what is given is not the data of an element")
			} else {
				c.place(s, pos, v.args[0], 0, "the element given")
			}
		}
		c.inRange(s, pos, errNil)
	case "range":
		if errNil != 2 {
			g := s.getT("gave")
			if g == nil {
				c.giveUp(s, "how the answer is made")
				return
			}
			c.place(s, pos, g, 1, "the last element given")
		}
		c.inRange(s, pos, errNil)
	case "trim":
		c.inRange(s, pos, errNil)
	}
}

// inRange: no error is reported for a position that was resolved.
func (c *listCheck) inRange(s *State, pos string, errNil int8) {
	if errNil != 2 {
		return
	}
	for t, f := range s.facts {
		if t.op == "cmp" && t.aux == "==" && f.truth == 2 && t.args[0].op == "norm" && strings.HasPrefix(t.args[0].aux, "Resolve.") {
			if k, ok := t.args[1].intVal(); ok && k == -1 {
				s.set("res:"+t.args[0].aux, "1")
			}
		}
	}
	if s.get("res:Resolve.s") != "" || s.get("res:Resolve.0") != "" && s.get("res:Resolve.1") != "" {
		c.failPos(s, pos, "refused", "an error is reported for a position that is in the list")
	}
}

// freed: the function that lets go of a chain has come to its end and has counted it.
func (c *listCheck) freed(s *State, pos string, res []*Term) {
	e := s.getT("endpos")
	if e == nil {
		c.fail(s, pos, "chain", "it stops before the end of the chain")
		return
	}
	if !linOf(res[0]).plus(linOf(e), -1).zero() {
		c.fail(s, pos, "count", "the number of nodes it gives back is %s while the chain has %s", res[0], e)
	}
}

// fresh: a new list is empty and linked.
func (c *listCheck) fresh() {
	p, r, f := c.p, c.r, c.f
	x := NewExec(p)
	c.x = x
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" }
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		l := stripConv(res[0])
		if l.op != "alloc" || derefNamed(l.typ) != c.sh.list {
			return
		}
		pos := p.pos(f.Pos())
		h := x.load(s, c.cell(l, c.sh.head), nil, c.sh.ptr)
		t := x.load(s, c.cell(l, c.sh.tail), nil, c.sh.ptr)
		if !c.isNode(h) || !c.isNode(t) || h == t {
			c.fail(s, pos, "sentinels", "a new list does not have two sentinels")
			return
		}
		ok := x.load(s, c.cell(h, c.sh.next), nil, c.sh.ptr) == t && x.load(s, c.cell(t, c.sh.prev), nil, c.sh.ptr) == h
		if !ok {
			c.fail(s, pos, "links", "the sentinels of a new list are not linked to each other")
		}
		if !x.load(s, c.cell(t, c.sh.next), nil, c.sh.ptr).isNil() || !x.load(s, c.cell(h, c.sh.prev), nil, c.sh.ptr).isNil() {
			c.fail(s, pos, "ends", "the links beyond the sentinels are not nil")
		}
		if v, ok := x.load(s, c.cell(l, c.sh.size), nil, types.Typ[types.Int]).intVal(); !ok || v != 0 {
			c.fail(s, pos, "size", "the size of a new list is not zero")
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}
