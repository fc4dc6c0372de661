package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C44", "containers keep entries under their own text", ruleEntries)
}

type contSpec struct {
	iface, method string
	op            string
	pairs         bool   // the second list holds the values
	must          bool   // an entry that is there gets the new value
	count         string // what the answer counts: new, gone, found
	call          string // the method of the entry that does the work
}

var contSpecs = []contSpec{
	{"HashContainer", "Set", "put", true, true, "new", ""},
	{"HashContainer", "Get", "get", false, false, "", ""},
	{"HashContainer", "Exists", "has", false, false, "", ""},
	{"HashContainer", "Del", "del", false, false, "gone", ""},
	{"HashContainer", "Keys", "list", false, false, "k", ""},
	{"HashContainer", "Values", "list", false, false, "v", ""},
	{"HashContainer", "Entries", "list", false, false, "kv", ""},
	{"HashContainer", "KeyLen", "call", false, false, "", "Len"},
	{"HashContainer", "Len", "len", false, false, "", ""},
	{"SetContainer", "Add", "put", false, false, "new", ""},
	{"SetContainer", "Delete", "del", false, false, "gone", ""},
	{"SetContainer", "IsMember", "has", false, false, "", ""},
	{"SetContainer", "Members", "list", false, false, "v", ""},
	{"SetContainer", "RandomMember", "some", false, false, "v", ""},
	{"SetContainer", "Pop", "pop", false, false, "v", ""},
	{"SetContainer", "Len", "len", false, false, "", ""},
	{"StringMap", "Set", "put", true, true, "", ""},
	{"StringMap", "Get", "get", false, false, "", ""},
	{"StringMap", "StringLen", "call", false, false, "", "Len"},
	{"StringMap", "Append", "join", false, false, "", ""},
	{"StringMap", "Increase", "call", false, false, "", "Increase"},
	{"StringMap", "Decrease", "call", false, false, "", "Decrease"},
	{"StringMap", "GetRange", "call", false, false, "", "GetRange"},
	{"StringMap", "Exists", "count", false, false, "found", ""},
	{"StringMap", "Len", "len", false, false, "", ""},
}

func ruleEntries(p *Prog, r *Report) {
	r.rule("Each method of the hash, set and string containers is followed on every path, texts kept abstract. The table may only be read and changed under the text of the item at hand (the element of this iteration, or the one item given); what is stored is the item and the value of the same index; each item of a list is handled once, none is left out; entries are only taken out by the methods that say so. A phi that counts must, at every entry of its loop, have grown by exactly the number of changes since its last value (new entries, entries taken out, entries found). Get gives one result per item, nil exactly for those without entry; listings give each entry of the table once; the methods of one entry call the method of the entry found, with the arguments given, and hand on its result; without entry they report an error.")
	for _, sp := range contSpecs {
		c := &contCheck{p: p, r: r, sp: sp, f: p.impl("container", sp.iface, sp.method)}
		c.run()
	}
	r.min("method", len(contSpecs))
	r.min("access under the text of an item", 12)
}

type contCheck struct {
	p     *Prog
	r     *Report
	sp    contSpec
	f     *ssa.Function
	x     *Exec
	recv  *Term
	cv    *cover
	acts  int
	blind bool // a form that is not understood was met
	cnt   map[*ssa.Phi]bool
	kinds map[ssa.Instruction]string
}

func (c *contCheck) name() string { return c.sp.iface + "." + c.sp.method }

func (c *contCheck) fail(s *State, pos, key, format string, a ...interface{}) {
	c.r.failPath(key+" in "+c.name(), pos, s.path(), "%s: %s", c.name(), fmt.Sprintf(format, a...))
}

func (c *contCheck) isTable(t *Term) bool {
	t = stripConv(t)
	if t.op != "load" && t.op != "reload" || t.args[0].op != "fieldaddr" || t.args[0].args[0].canon() != c.recv.canon() {
		return false
	}
	_, ok := t.typ.Underlying().(*types.Map)
	return ok
}

// itemOf: the item whose text this is.
func itemOf(t *Term) *Term {
	t = stripConv(t)
	switch {
	case t.op == "str":
		return stripConv(t.args[0])
	case (t.op == "load" || t.op == "reload") && t.args[0].op == "fieldaddr" && (t.args[0].aux == "container.StringContainer.data" || t.args[0].aux == "container.StringContainer.bytes"):
		return stripConv(t.args[0].args[0])
	case t.op == "newstr":
		return itemOf(t.args[0])
	}
	return nil
}

// like: the same item, or a new one of the same text.
func like(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	a, b = stripConv(a), stripConv(b)
	if a == b {
		return true
	}
	if i := itemOf(a); i != nil && a.op == "newstr" {
		return like(i, b)
	}
	return false
}

// item: the item the path is at.
func (c *contCheck) item(s *State) *Term {
	if c.cv != nil {
		return s.getT("iv")
	}
	if len(c.f.Params) < 2 {
		return nil
	}
	return c.x.Param(c.f.Params[1])
}

func (c *contCheck) wantVal(s *State) *Term {
	if !c.sp.pairs {
		return c.item(s)
	}
	return nil
}

// right checks that a key of the table is the text of the item at hand.
func (c *contCheck) right(s *State, in ssa.Instruction, k *Term) bool {
	if c.blind {
		s.dead = true
		return false
	}
	if k.any(func(u *Term) bool { return u.op == "rangekey" || u.op == "rangeval" }) && (c.sp.op == "list" || c.sp.op == "some" || c.sp.op == "pop") {
		return true
	}
	it := itemOf(k)
	if it != nil && c.item(s) != nil && it == c.item(s).canon() {
		c.r.site("access under the text of an item", c.p.instrPos(in)+" "+c.name())
		return true
	}
	if stripConv(k).op == "elem" || it != nil && it.op == "elem" {
		c.blind = true // the texts or the items were collected first
		s.dead = true
		return false
	}
	c.fail(s, c.p.instrPos(in), "key", "the table is used under %s, which is not the text of the item at hand", k)
	return false
}

// present: 1 the item at hand has an entry, 2 it has none, 0 not known.
func (c *contCheck) present(s *State) int8 {
	switch s.get("pres") {
	case "1":
		return 1
	case "2":
		return 2
	}
	return 0
}

func (c *contCheck) note(s *State) {
	it := c.item(s)
	if it == nil || s.get("pres") != "" || s.get("evt") != "" {
		return
	}
	for t, f := range s.facts {
		l := t
		v := int8(0)
		if t.op == "ok" && t.args[0].canon().op == "lookup" {
			l, v = t.args[0].canon(), f.truth
		} else if t.op == "lookup" && f.nilness != 0 {
			v = 3 - f.nilness
		}
		if v == 0 || l.op != "lookup" || !c.isTable(l.args[0]) {
			continue
		}
		if k := itemOf(l.args[1]); k == nil || k != it.canon() {
			continue
		}
		s.set("pres", fmt.Sprint(v))
		if c.sp.count == "found" && v == 1 {
			c.change(s, 1)
		}
		return
	}
}

func (c *contCheck) change(s *State, n int) {
	k, _ := strconv.Atoi(s.get("chg"))
	if k+n < 4 { // a count that is not taken over at the head of its loop has no loop
		s.set("chg", fmt.Sprint(k+n))
	}
	s.set("touched", "1")
	s.del("lenok")
}

// entryOf: the entry read from the table under the item at hand.
func (c *contCheck) entryOf(s *State, t *Term) bool {
	t = stripConv(t)
	if t.op == "rangeval" {
		return c.isTable(t.args[0])
	}
	if t.op != "lookup" || !c.isTable(t.args[0]) {
		return false
	}
	it := itemOf(t.args[1])
	return it != nil && c.item(s) != nil && it == c.item(s).canon()
}

// entryField: which field of an entry the address is: k, v, or none.
func entryField(a *Term) string {
	if a.op != "fieldaddr" {
		return ""
	}
	n := derefNamed(a.args[0].typ)
	if n == nil {
		return ""
	}
	return entryFieldOf(n, a.aux[strings.LastIndex(a.aux, ".")+1:])
}

func entryFieldOf(n *types.Named, field string) string {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	l := strings.ToLower(field)
	switch {
	case strings.Contains(l, "val"):
		return "v"
	case strings.Contains(l, "key") || strings.Contains(l, "field"):
		return "k"
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			if i == 0 {
				return "k"
			}
			return "v"
		}
	}
	return ""
}

// part: t is the key (k) or the value (v) of an entry; the entry is returned.
func (c *contCheck) part(t *Term) (*Term, string) {
	t = stripConv(t)
	if (t.op == "load" || t.op == "reload") && t.args[0].op == "fieldaddr" {
		if k := entryField(t.args[0]); k != "" && t.args[0].aux[:10] != "container." {
			return nil, ""
		} else if k != "" {
			return stripConv(t.args[0].args[0]), k
		}
	}
	if t.op == "lookup" || t.op == "rangeval" {
		if c.plain() {
			return t, "kv"
		}
	}
	return nil, ""
}

// plain: the entries of the table are the items themselves.
func (c *contCheck) plain() bool { return c.sp.iface != "HashContainer" }

func (c *contCheck) pairAt(s *State, v *Term) (ok, known bool) {
	v = stripConv(v)
	if v.op == "newstr" {
		if i := itemOf(v); i != nil {
			v = i
		}
	}
	vals := c.x.Param(c.f.Params[2])
	if v.op == "load" && v.args[0].op == "elemaddr" && v.args[0].args[0].canon() == vals.canon() {
		return v.args[0].args[1].canon() == s.getT("iidx").canon(), true
	}
	if v.op == "elem" || v.op == "reload" {
		return false, false
	}
	return false, true
}

func (c *contCheck) putEvent(s *State, in ssa.Instruction, val *Term, part string) {
	pos := c.p.instrPos(in)
	s.set("evt", "1")
	c.acts++
	c.cv.use(c.x, s, in)
	check := func(what string, v *Term) {
		if what == "v" && c.sp.pairs {
			if s.get("lens") == "" {
				c.fail(s, pos, "lengths", "an item is stored although the lists may have different lengths")
			}
			if ok, known := c.pairAt(s, v); known && !ok {
				c.fail(s, pos, "value", "what is stored is %s, not the value that belongs to the item", v)
			}
			return
		}
		if !like(v, c.item(s)) {
			c.fail(s, pos, "item", "what is stored is %s, not the item", v)
		}
	}
	if part != "" {
		check(part, val)
		return
	}
	v := stripConv(val)
	if c.plain() {
		check("v", v)
		return
	}
	if v.op != "alloc" {
		return
	}
	n := derefNamed(v.typ)
	if n == nil {
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if k := entryFieldOf(n, st.Field(i).Name()); k != "" {
			check(k, c.x.load(s, c.x.fieldAddr(v, n, i), nil, st.Field(i).Type()))
		}
	}
}

func (c *contCheck) run() {
	p, r, f, sp := c.p, c.r, c.f, c.sp
	r.site("method", c.name())
	x := NewExec(p)
	c.x = x
	x.Depth = 14
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" }
	c.recv = x.Param(f.Params[0])
	c.kinds = map[ssa.Instruction]string{}
	c.cnt = countPhis(f)
	at := p.pos(f.Pos())
	lists := sp.op == "put" || sp.op == "del" || sp.op == "get" || sp.op == "count"
	if lists {
		c.cv = newCover("items", 0)
		c.cv.New = func(x *Exec, s *State) {
			s.del("pres")
			s.del("evt")
			s.del("out")
		}
		c.cv.Done = func(x *Exec, s *State) bool {
			if c.blind {
				return true
			}
			switch sp.op {
			case "put":
				return !sp.must && c.present(s) == 1
			case "del":
				return c.present(s) == 2
			case "count":
				return c.present(s) != 0
			case "get":
				if c.present(s) == 2 {
					s.set("skipnil", "1")
					return true
				}
			}
			return false
		}
	}
	x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if c.cv != nil && c.cv.load(x, s, addr, val, in) {
			s.setT("iv", val)
			s.setT("iidx", addr.args[1])
		}
		if addr.op == "mapcell" && c.isTable(addr.args[0]) {
			c.right(s, in, addr.args[1])
			if sp.op == "get" || sp.op == "put" || sp.op == "del" || sp.op == "count" {
				s.set("looked", "1")
			}
			c.acts++
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		c.note(s)
		if c.cv != nil {
			c.cv.branch(x, s, cond, truth, in)
		}
		if sp.pairs {
			a, b := x.Param(f.Params[1]), x.Param(f.Params[2])
			isLen := func(t, l *Term) bool { return t.op == "len" && t.args[0].canon() == l.canon() }
			t := cond
			for t.op == "not" {
				t, truth = t.args[0], !truth
			}
			if t.op == "cmp" && (isLen(t.args[0], a) && isLen(t.args[1], b) || isLen(t.args[0], b) && isLen(t.args[1], a)) {
				switch {
				case t.aux == "==" && truth:
					s.set("lens", "eq")
				case t.aux == "==":
					s.set("lens", "ne")
				default:
					s.set("lens", "?")
				}
			}
		}
		if ch := s.getT("chosen"); ch != nil && isHeader(in.Block()) && cond.any(func(u *Term) bool { return u.op == "len" && u.mentions(ch) }) {
			s.set("tookall", "1") // the loop over those chosen is done
		}
		if t := cond.canon(); t.op == "next" && s.get("ranging") != "" {
			if truth {
				s.set("it", "1")
				s.del("gave")
				s.del("took")
			} else {
				c.rangeDone(s, in)
				s.del("it")
				s.set("rangeend", "1")
			}
		}
	}
	x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
		if c.cv != nil {
			c.cv.cut(x, s, in)
		}
		switch i := in.(type) {
		case *ssa.Range:
			if c.isTable(x.eval(s, i.X)) {
				s.set("ranging", "1")
				s.del("rangeend")
				c.acts++
				r.site("listing", p.instrPos(in))
				if lists || sp.op == "has" || sp.op == "call" || sp.op == "join" || sp.op == "len" {
					c.blind = true
				}
			}
		case *ssa.Next:
			if s.get("ranging") != "" && s.get("it") != "" {
				c.rangeDone(s, in)
				s.del("it")
			}
		}
	}
	x.H.Phi = func(x *Exec, s *State, phi *ssa.Phi, in *Term) {
		if !c.cnt[phi] || sp.op == "list" {
			return
		}
		if isHeader(phi.Block()) {
			c.counted(s, phi, in)
			s.set("newref", "1")
		}
	}
	x.H.Block = func(x *Exec, s *State, b *ssa.BasicBlock) bool {
		if c.blind {
			return false
		}
		c.note(s)
		if s.get("newref") != "" {
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && c.cnt[phi] {
					s.setT("ref", x.eval(s, phi))
				}
			}
			s.del("newref")
			s.del("chg")
		}
		return true
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		pos := p.instrPos(in)
		switch {
		case addr.op == "fieldaddr" && addr.args[0].canon() == c.recv.canon():
			c.fail(s, pos, "replaced", "the table is replaced")
		case addr.op == "mapcell" && c.isTable(addr.args[0]):
			c.note(s)
			if val.isNil() && isDelete(in) {
				switch {
				case sp.op == "pop" && s.get("members") != "":
					c.acts++
					s.set("tookall", "1")
					if ch := s.getT("chosen"); ch == nil || !addr.args[1].mentions(ch) {
						c.fail(s, pos, "popped", "other members are taken out than those that were chosen")
					}
				case sp.op == "pop":
					s.set("took", "1")
					c.acts++
				case sp.op != "del":
					c.fail(s, pos, "deletes", "an entry is taken out")
				case c.right(s, in, addr.args[1]):
					c.acts++
					c.cv.use(x, s, in)
					switch c.present(s) {
					case 1:
						c.change(s, 1)
					case 0:
						s.set("chgunk", "1")
						s.set("touched", "1")
						s.del("lenok")
					}
					s.set("evt", "1")
					s.set("pres", "2")
				}
				return
			}
			switch {
			case sp.op == "join":
				if c.right(s, in, addr.args[1]) {
					c.joined(s, in, val)
				}
			case sp.op != "put":
				c.fail(s, pos, "stores", "an entry is stored")
			case c.right(s, in, addr.args[1]):
				switch c.present(s) {
				case 2:
					c.change(s, 1)
				case 0:
					s.set("chgunk", "1")
					s.set("touched", "1")
					s.del("lenok")
				}
				c.putEvent(s, in, val, "")
				s.set("pres", "1")
			}
		case addr.op == "fieldaddr" && strings.HasPrefix(addr.aux, "container.") && addr.args[0].op != "alloc":
			k := entryField(addr)
			if e := stripConv(addr.args[0]); k != "" && (e.op == "lookup" || e.op == "rangeval" || e.op == "load") {
				switch {
				case sp.op != "put":
					c.fail(s, pos, "alters", "an entry is changed")
				case !c.entryOf(s, e):
					c.fail(s, pos, "other entry", "another entry than that of the item at hand is changed")
				case k == "v" || !like(val, c.item(s)):
					c.putEvent(s, in, val, k)
				}
			}
		case addr.op == "elemaddr" && sp.op == "get" && addr.args[0].op == "make":
			c.gave(s, in, val)
			if i := s.getT("iidx"); i == nil || addr.args[1].canon() != i.canon() {
				c.fail(s, pos, "order", "the result of an item is not stored at the item's index")
			}
		case addr.op == "elemaddr" && addr.args[0].op == "make" && s.get("ranging") != "":
			c.listed(s, in, val)
		}
	}
	x.H.Call = func(x *Exec, s *State, call ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		return c.call(s, call, callees, args)
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 && !c.blind {
			c.ret(s, at, res)
		}
	}
	x.Run(f, nil, func(s *State) {
		if c.cv != nil {
			c.cv.start(s, x.Param(f.Params[1]))
		}
		s.setT("ref", x.tp.intT(0))
	})
	r.exec(x)
	if c.cv != nil && !c.blind {
		c.cv.report(r, "item of "+c.name(), "handled")
	}
	if c.acts == 0 && !c.blind {
		r.fail("nothing in "+c.name(), at, "%s does nothing with the table", c.name())
	}
}

func isDelete(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	b, ok := c.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "delete"
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			return true
		}
	}
	return false
}

// countPhis: the phis an integer result is made of.
func countPhis(f *ssa.Function) map[*ssa.Phi]bool {
	out := map[*ssa.Phi]bool{}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			out[i] = true
			for _, e := range i.Edges {
				w(e)
			}
		case *ssa.BinOp:
			if i.Op == token.ADD || i.Op == token.SUB {
				w(i.X)
				w(i.Y)
			}
		case *ssa.Convert:
			w(i.X)
		case *ssa.ChangeType:
			w(i.X)
		}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if isIntType(v.Type()) {
					w(v)
				}
			}
		}
	}
	return out
}

// linear: t as base plus constant.
func linear(t *Term) (*Term, int64) {
	var off int64
	t = stripConv(t)
	for {
		if v, ok := t.intVal(); ok {
			return nil, off + v
		}
		if t.op == "bin" && (t.aux == "+" || t.aux == "-") {
			if v, ok := t.args[1].intVal(); ok {
				if t.aux == "-" {
					v = -v
				}
				off += v
				t = stripConv(t.args[0])
				continue
			}
			if v, ok := t.args[0].intVal(); ok && t.aux == "+" {
				off += v
				t = stripConv(t.args[1])
				continue
			}
		}
		return t, off
	}
}

// counted compares a counter with the changes made since it had the value ref.
func (c *contCheck) counted(s *State, phi ssa.Value, in *Term) {
	b, o := linear(in)
	rb, ro := linear(s.getT("ref"))
	if b != rb {
		if b == nil || b.op == "len" || b.op == "bin" {
			c.fail(s, c.p.pos(c.f.Pos()), "count", "the count becomes %s, which does not follow the changes", in)
		}
		return
	}
	n, _ := strconv.Atoi(s.get("chg"))
	pos := c.p.pos(c.f.Pos())
	d := o - ro
	switch {
	case s.get("chgunk") != "" && d != 0:
		c.fail(s, pos, "count", "a change is counted although it is not known whether the table changed")
	case s.get("chgunk") == "" && d != int64(n):
		c.fail(s, pos, "count", "the count grows by %d while %d entries %s", d, n, map[string]string{"new": "are added", "gone": "are taken out", "found": "are found"}[c.sp.count])
	}
}

// gave: a result of Get.
func (c *contCheck) gave(s *State, in ssa.Instruction, v *Term) {
	pos := c.p.instrPos(in)
	c.acts++
	c.note(s)
	if s.get("out") != "" {
		c.fail(s, pos, "twice", "an item gets two results")
	}
	s.set("out", "1")
	c.cv.use(c.x, s, in)
	if c.x.Nilness(s, v) == 1 {
		if c.present(s) != 2 {
			c.fail(s, pos, "nil", "an item that may have an entry gets nil")
		}
		return
	}
	e, k := c.part(v)
	switch {
	case e == nil && v.op == "elem":
		c.blind = true
	case e == nil || !strings.Contains(k, "v") || !c.entryOf(s, e):
		c.fail(s, pos, "result", "the result is %s, not the value of the item's entry", v)
	case c.present(s) == 2 && !c.plain():
		c.fail(s, pos, "absent", "an entry is used although there is none")
	}
}

// listed: an element of a listing.
func (c *contCheck) listed(s *State, in ssa.Instruction, v *Term) {
	pos := c.p.instrPos(in)
	if s.get("it") == "" {
		return
	}
	c.acts++
	e, k := c.part(v)
	if e == nil && itemOf(v) != nil { // a new string of the key's text
		if i := stripConv(v); i.op == "newstr" && stripConv(i.args[0]).op == "rangekey" {
			k = "k"
			if c.plain() {
				k = "kv"
			}
		}
	}
	if i := stripConv(v); e == nil && i.op == "newstr" && stripConv(i.args[0]).op == "rangekey" {
		k = "k"
		if c.plain() {
			k = "kv"
		}
	}
	if e != nil && e.op != "rangeval" && !(e.op == "lookup" && stripConv(e.args[1]).op == "rangekey") || k == "" {
		c.fail(s, pos, "listed", "what is listed is %s, not a part of the entry at hand", v)
		return
	}
	c.kinds[in] = k
	have := s.get("gave")
	if k == "kv" {
		k = "v"
	}
	if strings.Contains(have, k) {
		c.fail(s, pos, "twice", "an entry is listed twice")
	}
	s.set("gave", have+k)
}

func (c *contCheck) rangeDone(s *State, in ssa.Instruction) {
	if s.get("it") == "" {
		return
	}
	have := s.get("gave")
	switch c.sp.op {
	case "list":
		for _, k := range c.sp.count {
			if !strings.ContainsRune(have, k) {
				c.fail(s, c.p.instrPos(in), "skipped", "an entry is left out of the listing")
			}
		}
	case "pop":
		if (have != "") != (s.get("took") != "") {
			c.fail(s, c.p.instrPos(in), "popped", "an entry is returned but not taken out, or taken out but not returned")
		}
	}
}

// joined: what Append stores.
func (c *contCheck) joined(s *State, in ssa.Instruction, val *Term) {
	c.acts++
	str := c.x.Param(c.f.Params[2])
	if s.get("evt") != "" {
		c.fail(s, c.p.instrPos(in), "twice", "one call stores twice")
	}
	s.set("evt", "1")
	s.setT("stored", val)
	var pieces []*Term
	known := true
	var add func(t *Term)
	add = func(t *Term) {
		t = stripConv(t)
		switch {
		case t.op == "joined":
			add(t.args[0])
			add(t.args[1])
		case t.op == "newstr":
			add(t.args[0])
		case t.op == "bin" && t.aux == "+":
			add(t.args[0])
			add(t.args[1])
		case itemOf(t) != nil:
			add(itemOf(t))
		case t.op == "lookup" || t.op == "param":
			pieces = append(pieces, t)
		case t.isConst():
			if v, ok := t.strVal(); !ok || v != "" {
				pieces = append(pieces, t)
			}
		default:
			known = false
		}
	}
	add(val)
	if !known {
		return
	}
	found := c.present(s)
	bad := false
	switch {
	case len(pieces) == 1:
		bad = pieces[0] != str.canon() || found != 2
	case len(pieces) == 2:
		bad = !c.entryOf(s, pieces[0]) || pieces[1] != str.canon() || found == 2
	default:
		bad = true
	}
	if bad {
		c.fail(s, c.p.instrPos(in), "text", "what is stored is not the old text followed by the new one")
	}
}

func (c *contCheck) call(s *State, call ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
	x, p, sp := c.x, c.p, c.sp
	cc := call.Common()
	rs := cc.Signature().Results()
	one := func(t *Term) CallAction {
		t.typ = rs.At(0).Type()
		return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{t}}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if len(args) != 2 {
				return CallAction{}
			}
			vs, ok := x.variadic(s, args[1])
			if !ok || !p.isNamedType(elemType(args[0].typ, rs.At(0).Type()), "container", "StringContainer") {
				return CallAction{}
			}
			for _, v := range vs {
				switch {
				case sp.op == "get":
					c.gave(s, call, v)
				case s.get("ranging") != "":
					c.listed(s, call, v)
				}
			}
		case "clear":
			if c.isTable(args[0]) {
				c.fail(s, p.instrPos(call), "cleared", "all entries are taken out")
			}
		case "len":
			if c.isTable(args[0]) {
				c.acts++
				aux := "before"
				if s.get("touched") != "" {
					aux = "after"
					s.set("lenok", "1")
				}
				t := x.tp.mk("maplen", aux, types.Typ[types.Int])
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{t}}
			}
		}
		return CallAction{}
	}
	if len(callees) != 1 {
		return CallAction{}
	}
	g := callees[0]
	if p.isFunc(callees, "container", "NewString") {
		return one(nonNil(x, s, x.tp.mk("newstr", "", rs.At(0).Type(), args[0])))
	}
	if len(args) > 0 && g.Signature.Recv() != nil && p.isNamedType(deref(g.Signature.Recv().Type()), "container", "StringContainer") {
		if sp.call != "" && g.Name() == sp.call {
			c.delegated(s, call, args)
		}
		switch g.Name() {
		case "String", "Key", "Byte":
			return one(x.tp.mk("str", g.Name()[:1], rs.At(0).Type(), args[0]))
		case "Len":
			t := x.tp.mk("strlen", "", rs.At(0).Type(), args[0])
			s.setT("res0", t)
			return one(t)
		case "Append":
			return one(nonNil(x, s, x.tp.mk("joined", "", rs.At(0).Type(), args[0], args[1])))
		case "Increase", "Decrease", "GetRange":
			var res []*Term
			for i := 0; i < rs.Len(); i++ {
				t := x.fresh(s, fmt.Sprint("entryres", i), "", call, rs.At(i).Type())
				res = append(res, t)
				s.setT(fmt.Sprint("res", i), t)
			}
			return CallAction{Kind: actOpaque, Pure: true, Results: res}
		}
		return CallAction{Kind: actOpaque, Pure: true}
	}
	if sp.op == "pop" && len(args) > 0 && args[0].canon() == c.recv.canon() {
		switch g.Name() {
		case "RandomMember":
			c.acts++
			if same, known := sameTerm(args[1], x.Param(c.f.Params[1])); known && !same {
				c.fail(s, p.instrPos(call), "number", "another number of members is taken than asked for")
			}
			t := x.fresh(s, "members", "", call, rs.At(0).Type())
			if s.get("members") != "" {
				c.fail(s, p.instrPos(call), "twice", "members are chosen twice: others are returned than taken out")
			}
			s.set("members", "1")
			s.setT("chosen", t)
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{t}}
		case "Delete":
			c.acts++
			if ch := s.getT("chosen"); ch == nil || stripConv(args[1]) != ch.canon() {
				c.fail(s, p.instrPos(call), "popped", "other members are taken out than those that were chosen")
			}
			s.set("tookall", "1")
			return CallAction{Kind: actOpaque, Pure: true}
		}
	}
	return CallAction{}
}

func nonNil(x *Exec, s *State, t *Term) *Term {
	x.setNil(s, t, 2)
	return t
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func elemType(ts ...types.Type) types.Type {
	for _, t := range ts {
		if t == nil {
			continue
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			return deref(sl.Elem())
		}
	}
	return types.Typ[types.Invalid]
}

// delegated: the method of an entry is called.
func (c *contCheck) delegated(s *State, call ssa.CallInstruction, args []*Term) {
	pos := c.p.instrPos(call)
	e, k := c.part(args[0])
	if e == nil || !strings.Contains(k, "v") || !c.entryOf(s, e) {
		c.fail(s, pos, "entry", "the work is done on %s, not on the value of the item's entry", args[0])
		return
	}
	c.r.site("work on an entry", pos)
	if s.get("called") != "" {
		c.fail(s, pos, "twice", "the work is done twice")
	}
	if c.present(s) != 1 {
		c.fail(s, pos, "absent", "an entry is used although there may be none")
	}
	s.set("called", "1")
	for i, a := range args[1:] {
		if i+2 >= len(c.f.Params) {
			break
		}
		if same, known := sameTerm(a, c.x.Param(c.f.Params[i+2])); known && !same {
			c.fail(s, pos, "argument", "the work is done with %s, not with the argument given", a)
		}
	}
}

func (c *contCheck) ret(s *State, at string, res []*Term) {
	x, sp := c.x, c.sp
	c.note(s)
	if last := s.top().block.Instrs; len(last) > 0 && c.cv != nil {
		in := last[len(last)-1]
		c.cv.finish(x, s, in)
		c.cv.left(x, s, in)
		if sp.op == "get" && s.get("skipnil") != "" {
			if t := stripConv(res[0]); t.op == "append" || t.op == "iter" || t.op == "appendv" || t.isNil() {
				c.fail(s, at, "left out", "an item without entry gets no result: the results do not line up with the items")
			}
		}
	}
	if sp.pairs {
		e := res[len(res)-1]
		n := x.Nilness(s, e)
		if s.get("lens") == "ne" && n != 2 {
			c.fail(s, at, "lengths", "lists of different lengths are not reported")
		}
		if s.get("lens") == "eq" && n != 1 {
			c.fail(s, at, "error", "lists of equal lengths are reported as an error")
		}
		if n == 2 && s.get("touched") != "" {
			c.fail(s, at, "partly", "an error is reported after something was stored")
		}
		if n == 2 {
			return
		}
	}
	switch sp.count {
	case "new", "gone", "found":
		c.answer(s, at, res[0])
	}
	switch sp.op {
	case "has":
		v := stripConv(res[0])
		if v.op == "ok" && c.entryOf(s, v.args[0]) {
			return
		}
		if v.op == "not" && v.args[0].op == "cmp" && v.args[0].aux == "==" && c.entryOf(s, v.args[0].args[0]) && v.args[0].args[1].isNil() {
			return
		}
		if t, pr := x.Truth(s, v), c.present(s); t == 0 || pr == 0 || t != pr {
			c.fail(s, at, "answer", "the answer does not say whether there is an entry")
		}
	case "join":
		st := s.getT("stored")
		if st == nil {
			c.fail(s, at, "not stored", "the text is not stored")
			return
		}
		v := stripConv(res[0])
		switch {
		case v.op == "strlen" && stripConv(v.args[0]) == stripConv(st):
		case v.op == "strlen" || v.isConst():
			c.fail(s, at, "length", "the length returned is not that of the new text")
		}
	case "call":
		c.delegatedResult(s, at, res)
	case "list", "some":
		if s.get("it") != "" && s.get("rangeend") == "" && sp.op == "list" {
			c.fail(s, at, "left early", "the listing ends before the last entry")
		}
		c.listOrder(s, at)
	case "pop":
		if s.get("members") != "" {
			if s.get("tookall") == "" {
				c.fail(s, at, "popped", "the members returned are not taken out")
			} else if ch := s.getT("chosen"); ch != nil && stripConv(res[0]) != ch.canon() {
				c.fail(s, at, "returned", "not the members taken out are returned")
			}
		}
	case "len":
		v := stripConv(res[0])
		if v.op != "maplen" && (v.isConst() || v.op == "bin" || v.op == "len") {
			c.fail(s, at, "length", "the length returned is not the number of entries")
		}
	}
}

// answer: the number returned is that of the changes.
func (c *contCheck) answer(s *State, at string, v *Term) {
	v = stripConv(v)
	if v.op == "bin" && v.aux == "-" && v.args[0].op == "maplen" && v.args[1].op == "maplen" {
		a, b := v.args[0].aux, v.args[1].aux
		if s.get("touched") == "" {
			return
		}
		want, other := a, b
		if c.sp.count == "gone" {
			want, other = b, a
		}
		if c.sp.count == "found" || want != "after" || other != "before" || s.get("lenok") == "" {
			c.fail(s, at, "count", "the difference of the lengths is not the number of changes")
		}
		return
	}
	if v.isConst() || s.getT("ref") != nil {
		b, _ := linear(v)
		rb, _ := linear(s.getT("ref"))
		if b == rb {
			c.counted(s, nil, v)
		} else if b == nil || b.op == "len" {
			c.fail(s, at, "count", "the answer is %s, not what was counted", v)
		}
	}
}

func (c *contCheck) delegatedResult(s *State, at string, res []*Term) {
	x := c.x
	e := res[len(res)-1]
	n := x.Nilness(s, e)
	if s.get("called") == "" {
		if c.present(s) == 1 {
			c.fail(s, at, "not done", "nothing is done with an entry that is there")
		}
		if n != 2 {
			c.fail(s, at, "error", "an item without entry is not reported")
		}
		return
	}
	r0, r1 := s.getT("res0"), s.getT("res1")
	if r1 == nil { // the work cannot fail
		if n != 1 {
			c.fail(s, at, "error", "an error is reported for an entry that is there")
		}
	} else if stripConv(e) != r1.canon() {
		switch m := x.Nilness(s, r1); {
		case m == 0:
			c.fail(s, at, "error", "the outcome of the work is not looked at")
			return
		case m != n:
			c.fail(s, at, "error", "the outcome of the work is not reported")
			return
		}
	}
	if n == 2 {
		return
	}
	if same, known := sameTerm(res[0], r0); r0 != nil && known && !same {
		c.fail(s, at, "result", "the result is %s, not that of the work", res[0])
	}
}

// listOrder: the first list holds the keys, the second the values.
func (c *contCheck) listOrder(s *State, at string) {
	for _, b := range c.f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			for in, k := range c.kinds {
				if iv, ok := in.(ssa.Value); ok && in.Parent() == c.f && fedBy(v, iv) && !strings.Contains(k, c.sp.count[i:i+1]) {
					c.fail(s, at, "order", "keys and values are mixed up")
				}
			}
		}
	}
}

func fedBy(v, w ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var f func(v ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == w {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch i := v.(type) {
		case *ssa.Phi:
			for _, e := range i.Edges {
				if f(e) {
					return true
				}
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return f(i.Call.Args[0])
			}
		case *ssa.Slice:
			return f(i.X)
		}
		return false
	}
	return f(v)
}
