package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C39", "strings keep one value in all their forms", ruleStr)
}

// strShape: the fields of a string object and of the number in it, by type.
type strShape struct {
	named                         *types.Named
	data, bytes, size, hash, ivar int
	impl                          *types.Named // what holds the number
	val                           int
	iface                         bool
}

func strShapeOf(p *Prog) *strShape {
	sh := &strShape{named: p.named("container", "StringContainer"), data: -1, bytes: -1, size: -1, hash: -1, ivar: -1, val: -1}
	st, ok := sh.named.Underlying().(*types.Struct)
	if !ok {
		fatalf("anchor lost: StringContainer is not a struct")
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		b, _ := t.Underlying().(*types.Basic)
		switch {
		case b != nil && b.Kind() == types.String:
			sh.data = i
		case b != nil && b.Kind() == types.Int:
			sh.size = i
		case b != nil && (b.Kind() == types.Uint64 || b.Kind() == types.Uint32):
			sh.hash = i
		case t.String() == "[]byte":
			sh.bytes = i
		case b == nil:
			sh.ivar = i
			if it, ok := t.Underlying().(*types.Interface); ok {
				sh.iface = true
				for _, m := range p.implementers(it) {
					if n := derefNamed(m); n != nil {
						sh.impl = n
					}
				}
			} else {
				sh.impl = derefNamed(t)
			}
		}
	}
	if sh.data < 0 {
		fatalf("anchor lost: the text of a StringContainer")
	}
	if sh.impl != nil {
		if st, ok := sh.impl.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
					sh.val = i
				}
			}
		}
	}
	return sh
}

type strCheck struct {
	p     *Prog
	r     *Report
	sh    *strShape
	x     *Exec
	f     *ssa.Function
	sums  map[string]bool // the hash functions in use
	seen  map[*ssa.Function]bool
	obj   []*Term // the strings there are at entry
	wrote bool
}

func ruleStr(p *Prog, r *Report) {
	r.rule("Symbolic execution of every function of the container package that makes a StringContainer or writes one of its fields (all methods of the type included). Entry states satisfy the invariant; at each return every string reached must satisfy it again: bytes and size are those of the text, the hash is the sum of a hasher that was given exactly these bytes (one hash function everywhere), the number is strconv.ParseInt(text, 10, 64), absent exactly when that fails (a text made of the decimal form of the number counts). The observers give back the field they stand for; Equals says yes only for the same text and no only for texts that differ; Append is the concatenation, GetRange the part between the resolved ends. On every path of Increase and Decrease the comparisons made are turned into linear constraints over the integers, a wrapped operation being a case of its own (polyhedral abstraction): success needs the sum or difference to fit in 64 bits, a refusal of a number needs it not to fit, and an error leaves the string as it was.")
	sh := strShapeOf(p)
	c := &strCheck{p: p, r: r, sh: sh, sums: map[string]bool{}, seen: map[*ssa.Function]bool{}}
	var fs, late []*ssa.Function
	for _, f := range p.Funcs {
		if pkgName(f) != "container" || f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		rc, rs := f.Signature.Recv(), f.Signature.Results()
		switch {
		case rc != nil && derefNamed(rc.Type()) == sh.named && f.Object().Exported():
			fs = append(fs, f)
		case rc == nil && rs.Len() == 1 && derefNamed(rs.At(0).Type()) == sh.named:
			fs = append(fs, f)
		case c.writes(f):
			late = append(late, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	sort.Slice(late, func(i, j int) bool { return fname(late[i]) < fname(late[j]) })
	for _, f := range fs {
		c.run(f)
	}
	for _, f := range late {
		if !c.seen[f] {
			c.run(f)
		}
	}
	if len(c.sums) > 1 {
		var ks []string
		for k := range c.sums {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		r.fail("hash functions", p.pos(sh.named.Obj().Pos()), "strings are hashed by different functions: %s", strings.Join(ks, ", "))
	}
	r.min("function", 3)
	r.min("string made or changed", 2)
}

// writes: does the function store to a field of a string or of its number?
func (c *strCheck) writes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				if n := derefNamed(fa.X.Type()); n == c.sh.named || c.sh.impl != nil && n == c.sh.impl {
					return true
				}
			}
		}
	}
	return false
}

func (c *strCheck) cell(o *Term, i int) *Term {
	return c.x.fieldAddr(o, types.NewPointer(c.sh.named), i)
}

func (c *strCheck) valCell(iv *Term) *Term {
	return c.x.fieldAddr(iv.canon(), types.NewPointer(c.sh.impl), c.sh.val)
}

// text is the normal form of a text, whatever its type.
func (c *strCheck) text(t *Term) *Term {
	if t == nil {
		return nil
	}
	return c.x.textOf(t)
}

func (c *strCheck) dataAt(o *Term) *Term {
	return c.x.tp.mk("param", "the text of "+o.String(), types.Typ[types.String])
}

func (c *strCheck) pint(d *Term) *Term {
	return c.x.tp.mk("pint", "", types.Typ[types.Int64], c.text(d))
}

func (c *strCheck) pintErr(d *Term) *Term {
	return c.x.tp.mk("pinterr", "", errType(), c.text(d))
}

func (c *strCheck) sum(how string, t *Term) *Term {
	return c.x.tp.mk("sum", how, types.Typ[types.Uint64], c.text(t))
}

// lenLin is the length of a text as a linear term.
func (c *strCheck) lenLin(s *State, t *Term) lin {
	out := lin{m: map[*Term]int64{}}
	for _, a := range c.text(t).args {
		if v, ok := a.strVal(); ok {
			out.c += int64(len(v))
			continue
		}
		out = out.plus(linOf(c.x.lenOf(s, a, nil)), 1)
	}
	return out
}

func (c *strCheck) sizeLin(s *State, t *Term) lin {
	out := lin{m: map[*Term]int64{}}
	l := linOf(t)
	out.c = l.c
	for u, k := range l.m {
		if u.op == "len" && c.x.isText(u.args[0].typ) {
			out = out.plus(c.lenLin(s, u.args[0]), k)
			continue
		}
		out = out.plus(lin{m: map[*Term]int64{u: 1}}, k)
	}
	return out
}

func (c *strCheck) run(f *ssa.Function) {
	p, sh := c.p, c.sh
	x := NewExec(p)
	c.x, c.f, c.obj = x, f, nil
	x.Soft = true
	x.Depth = 9
	c.r.site("function", fname(f))
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "container" }
	x.H.Call = c.call
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) == 1 {
			c.ret(s, fr, res)
		}
	}
	init := func(s *State) {
		for _, pa := range f.Params {
			if derefNamed(pa.Type()) != sh.named {
				continue
			}
			o := x.Param(pa)
			c.obj = append(c.obj, o)
			d := c.dataAt(o)
			s.store[c.cell(o, sh.data)] = d
			if sh.bytes >= 0 {
				s.store[c.cell(o, sh.bytes)] = x.tp.mk("chg", "[]byte", types.NewSlice(types.Typ[types.Byte]), d)
			}
			if sh.size >= 0 {
				s.store[c.cell(o, sh.size)] = x.tp.mk("len", "", types.Typ[types.Int], d)
			}
			if sh.hash >= 0 {
				s.store[c.cell(o, sh.hash)] = c.sum("", d)
			}
			if sh.ivar >= 0 && sh.val >= 0 {
				iv := x.tp.mk("param", "the number of "+o.String(), sh.named.Underlying().(*types.Struct).Field(sh.ivar).Type())
				s.store[c.cell(o, sh.ivar)] = iv
				s.store[c.valCell(iv)] = c.pint(d)
			}
		}
	}
	x.Run(f, nil, init)
	if x.Over {
		c.r.site("not decided", fname(f)+": too many states")
	}
	for g := range x.Inlined {
		c.seen[g] = true
	}
	c.r.exec(x)
}

func hashKey(t *Term) string { return "hash " + t.canon().String() }

func (c *strCheck) call(x *Exec, s *State, call ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
	if a, ok := x.textModel(s, call, args); ok {
		return a
	}
	name := libName(call.Common())
	rs := call.Common().Signature().Results()
	pure := func(ts ...*Term) CallAction { return CallAction{Kind: actOpaque, Pure: true, Results: ts} }
	if strings.HasPrefix(name, "hash/") && strings.Contains(name, ".New") && rs.Len() == 1 {
		t := x.fresh(s, "hasher", name, call, rs.At(0).Type())
		x.setNil(s, t, 2)
		s.setT(hashKey(t), x.textOf())
		s.set("how "+hashKey(t), name)
		return pure(t)
	}
	write := func(h, d *Term) CallAction {
		if old := s.getT(hashKey(h)); old != nil && loopOf(call.Block()) == nil {
			s.setT(hashKey(h), x.textOf(old, d))
		} else {
			s.del(hashKey(h))
		}
		return pure(nil, x.tp.nilT())
	}
	switch {
	case strings.HasPrefix(name, "(hash.") || strings.HasPrefix(name, "(*hash/"):
		h := args[0]
		switch name[strings.LastIndexByte(name, '.')+1:] {
		case "Write", "WriteString":
			return write(h, args[1])
		case "Sum64", "Sum32":
			if old := s.getT(hashKey(h)); old != nil {
				return pure(c.sum(s.get("how "+hashKey(h)), old))
			}
		case "Reset":
			if s.getT(hashKey(h)) != nil {
				s.setT(hashKey(h), x.textOf())
			}
			return pure()
		}
	case name == "io.WriteString" && s.getT(hashKey(args[0])) != nil:
		return write(args[0], args[1])
	case name == "(io.Writer).Write" && s.getT(hashKey(args[0])) != nil:
		return write(args[0], args[1])
	case name == "strconv.ParseInt":
		b, ok1 := args[1].intVal()
		w, ok2 := args[2].intVal()
		if ok1 && ok2 && b == 10 && (w == 64 || w == 0) {
			return pure(c.pint(args[0]), c.pintErr(args[0]))
		}
	case name == "strconv.Atoi":
		return pure(c.pint(args[0]), c.pintErr(args[0]))
	}
	for _, g := range callees {
		if pkgName(g) == "util" && len(args) == 2 {
			switch g.Name() {
			case "NewSlice":
				t := x.tp.mk("segment", "", rs.At(0).Type(), args...)
				x.setNil(s, t, 2)
				return pure(t)
			case "Resolve":
				if t := args[0].canon(); t.op == "segment" {
					as := []*Term{t.args[0], t.args[1], args[1]}
					return pure(x.tp.mk("end", "0", types.Typ[types.Int], as...), x.tp.mk("end", "1", types.Typ[types.Int], as...))
				}
			}
		}
		if pkgName(g) == "protocol" {
			c.object(s, call, g, args)
		}
	}
	return CallAction{}
}

func (c *strCheck) fail(s *State, pos, key, format string, a ...interface{}) {
	c.r.failPath(fname(c.f)+": "+key, pos, s.path(), "%s: %s", fname(c.f), fmt.Sprintf(format, a...))
}

func (c *strCheck) undecided(format string, a ...interface{}) {
	c.r.site("not decided", fname(c.f)+": "+fmt.Sprintf(format, a...))
}

// isMethod: is it a method of the string that is checked?
func (c *strCheck) isMethod() bool {
	rc := c.f.Signature.Recv()
	return rc != nil && derefNamed(rc.Type()) == c.sh.named
}

// object: what a string says to the client is its text or its number.
func (c *strCheck) object(s *State, call ssa.CallInstruction, g *ssa.Function, args []*Term) {
	if !c.isMethod() || len(args) != 1 || len(c.obj) == 0 {
		return
	}
	o, pos := c.obj[0], c.p.instrPos(call)
	a := args[0].canon()
	c.r.site("reply", fname(c.f)+" "+g.Name())
	switch {
	case c.x.isText(g.Params[0].Type()):
		if d := c.x.textOf(s.store[c.cell(o, c.sh.data)]); c.text(a) != d {
			c.fail(s, pos, "reply", "the reply is made of %s, not of the text", a)
		}
	case isIntType(g.Params[0].Type()):
		iv := s.store[c.cell(o, c.sh.ivar)]
		if iv == nil {
			return
		}
		if v := s.store[c.valCell(iv)]; v != nil && !linOf(a).plus(linOf(v), -1).zero() {
			c.fail(s, pos, "reply", "the reply is made of %s, not of the number", a)
		}
	}
}

// strings lists the strings whose fields are set in a state.
func (c *strCheck) strings(s *State) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range sortedCells(s.store) {
		if a.op != "fieldaddr" || len(a.args) != 1 || seen[a.args[0]] {
			continue
		}
		st := c.sh.named.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if a.aux == fieldKey(c.sh.named, i) {
				seen[a.args[0]] = true
				out = append(out, a.args[0])
				break
			}
		}
	}
	return out
}

func (c *strCheck) ret(s *State, fr *Frame, res []*Term) {
	x, sh := c.x, c.sh
	pos := c.p.instrPos(fr.block.Instrs[len(fr.block.Instrs)-1])
	field := func(o *Term, i int) *Term {
		if v, ok := s.store[c.cell(o, i)]; ok {
			return v
		}
		if o.canon().op == "alloc" {
			return x.tp.zero(sh.named.Underlying().(*types.Struct).Field(i).Type())
		}
		return nil
	}
	for _, o := range c.strings(s) {
		d := field(o, sh.data)
		if d == nil {
			c.undecided("a string that came from elsewhere is written")
			continue
		}
		dt := c.text(d)
		c.r.site("string made or changed", fname(c.f)+" "+o.String())
		bad := func(key, format string, a ...interface{}) { c.fail(s, pos, key, format, a...) }
		if sh.bytes >= 0 {
			b := field(o, sh.bytes)
			switch {
			case b == nil:
				c.undecided("the bytes are not known")
			case c.text(b) != dt:
				bad("bytes", "the bytes of the string are those of %s, its text is %s", c.show(b), c.show(d))
			}
		}
		if sh.size >= 0 {
			n := field(o, sh.size)
			switch {
			case n == nil:
				c.undecided("the size is not known")
			case !c.sizeLin(s, n).plus(c.lenLin(s, d), -1).zero():
				bad("size", "the size of the string is %s, its text is %s", n, c.show(d))
			}
		}
		if sh.hash >= 0 {
			h := field(o, sh.hash)
			hh := h
			if h != nil {
				hh = stripConv(h)
			}
			switch {
			case hh != nil && hh.op == "sum":
				if hh.aux != "" {
					c.sums[hh.aux] = true
				}
				if c.filled(s, hh.args[0]) != c.filled(s, dt) && !(len(hh.args[0].args) == 0 && c.isEmpty(s, c.lenLin(s, d))) {
					bad("hash", "the hash of the string is that of %s, its text is %s", c.show(hh.args[0]), c.show(d))
				}
			case hh != nil && hh.op == "const":
				bad("hash", "the hash of the string is %s, its text is %s", h, c.show(d))
			default:
				c.undecided("the hash is %s", h)
			}
		}
		if sh.ivar >= 0 && sh.val >= 0 {
			c.number(s, o, field(o, sh.ivar), d, bad)
		}
	}
	c.observe(s, pos, res)
}

func (c *strCheck) show(t *Term) string {
	u := c.text(t)
	if len(u.args) == 1 {
		u = u.args[0]
	}
	v := u.String()
	if len(v) > 80 {
		v = v[:80] + "..."
	}
	return v
}

// number checks the number of a string against its text.
func (c *strCheck) number(s *State, o, iv, d *Term, bad func(key, format string, a ...interface{})) {
	x := c.x
	if iv == nil {
		c.undecided("the number is not known")
		return
	}
	none := iv.isNil() || s.facts[iv.canon()].nilness == 1
	if none {
		dt := c.text(d)
		if s.facts[c.pintErr(d)].nilness == 2 || iv.op == "param" && dt == c.text(c.dataAt(o)) {
			return
		}
		if v, ok := d.strVal(); ok && !isDecimal(v) {
			return
		}
		bad("number", "the string has no number, but its text %s may be one", c.show(d))
		return
	}
	v := s.store[c.valCell(iv)]
	if v == nil && iv.canon().op == "alloc" {
		v = x.tp.intT(0)
	}
	if v == nil {
		c.undecided("the number is %s", iv)
		return
	}
	v = stripConv(v)
	dt := c.text(d)
	if v == c.pint(d) {
		known := iv.op == "param" && dt == c.text(c.dataAt(o))
		if !known && s.facts[c.pintErr(d)].nilness != 1 {
			bad("number", "the string has a number also when its text %s is none", c.show(d))
		}
		return
	}
	if len(dt.args) == 1 && dt.args[0].op == "dec" && linOf(dt.args[0].args[0]).plus(linOf(v), -1).zero() {
		return
	}
	if w, ok := v.intVal(); ok {
		if u, ok := dt.strVal(); ok && u == fmt.Sprint(w) {
			return
		}
	}
	bad("number", "the number of the string is %s, its text is %s", v, c.show(d))
}

func isDecimal(s string) bool {
	var n int64
	_, err := fmt.Sscanf(s, "%d", &n)
	return err == nil
}

// observe checks what the methods give back.
func (c *strCheck) observe(s *State, pos string, res []*Term) {
	if !c.isMethod() || len(c.obj) == 0 || len(res) == 0 {
		return
	}
	x, sh, o := c.x, c.sh, c.obj[0]
	d := s.store[c.cell(o, sh.data)]
	if d == nil {
		c.undecided("the text is not known")
		return
	}
	name := c.f.Name()
	fail := func(format string, a ...interface{}) { c.fail(s, pos, "result", format, a...) }
	var iv, val *Term
	if sh.ivar >= 0 && sh.val >= 0 {
		if iv = s.store[c.cell(o, sh.ivar)]; iv != nil {
			val = s.store[c.valCell(iv)]
		}
	}
	switch name {
	case "String", "Key", "Byte":
		if c.text(res[0]) != c.text(d) {
			fail("the result is %s, not the text", res[0])
		}
	case "Len":
		if !c.sizeLin(s, res[0]).plus(c.lenLin(s, d), -1).zero() {
			fail("the result is %s, not the length of the text", res[0])
		}
	case "Hash":
		if stripConv(res[0]) != c.sum("", d) && (stripConv(res[0]).op != "sum" || stripConv(res[0]).args[0] != c.text(d)) {
			fail("the result is %s, not the hash of the text", res[0])
		}
	case "IsInt":
		if iv == nil {
			return
		}
		want := x.nilCmp(iv)
		b, known := res[0].boolVal()
		switch {
		case known && b != (s.facts[iv.canon()].nilness == 2) && s.facts[iv.canon()].nilness != 0:
			fail("the result is %v", b)
		case known && s.facts[iv.canon()].nilness == 0:
			fail("the result is %v whether there is a number or not", b)
		case !known && res[0] == want:
			fail("the result says that there is no number")
		}
	case "Int", "Increase", "Decrease", "AsIntObject":
		if len(res) != 2 || iv == nil {
			return
		}
		nilness := s.facts[iv.canon()].nilness
		failed := !res[1].isNil()
		if failed && !res[1].inherentNonNil() && s.facts[res[1].canon()].nilness != 2 && !strings.HasPrefix(res[1].String(), "container.") {
			c.undecided("the error is %s", res[1])
			return
		}
		if name == "Increase" || name == "Decrease" {
			c.arith(s, pos, res, iv, val, failed)
			return
		}
		switch {
		case failed && nilness != 1:
			fail("an error for a string that may have a number")
		case !failed && nilness != 2:
			fail("no error for a string that may have no number")
		case !failed && name == "Int" && val != nil && !linOf(res[0]).plus(linOf(val), -1).zero():
			fail("the result is %s, not the number", res[0])
		}
	case "Equals":
		c.equals(s, pos, res[0])
	case "Append":
		if len(c.obj) != 2 {
			return
		}
		got := s.store[c.cell(res[0].canon(), sh.data)]
		want := x.textOf(c.dataAt(c.obj[0]), c.dataAt(c.obj[1]))
		if got == nil {
			c.undecided("the result is %s", res[0])
		} else if c.filled(s, got) != c.filled(s, want) {
			fail("the text of the result is %s, not both texts one after the other", c.show(got))
		}
	case "GetRange":
		c.getRange(s, pos, res)
	}
}

// filled is a text without the pieces that are empty on the path.
func (c *strCheck) filled(s *State, t *Term) *Term {
	var out []*Term
	for _, a := range c.text(t).args {
		n := c.x.lenOf(s, a, nil)
		if c.x.Truth(s, c.x.binopEq(n, c.x.tp.intT(0))) == 1 || c.x.Truth(s, c.x.binopEq(a, c.x.tp.strT(""))) == 1 || c.isEmpty(s, linOf(n)) {
			continue
		}
		out = append(out, a)
	}
	return c.x.textOf(out...)
}

// isEmpty: a length that is not above 0.
func (c *strCheck) isEmpty(s *State, n lin) bool {
	for t, f := range s.facts {
		if t.op == "cmp" && t.aux == "<" && f.truth == 2 && linOf(t.args[0]).zero() && c.sizeLin(s, t.args[1]).plus(n, -1).zero() {
			return true
		}
	}
	return false
}

func (x *Exec) nilCmp(t *Term) *Term {
	return x.tp.mk("cmp", "==", types.Typ[types.Bool], t, x.tp.nilT())
}

// formOf: does the term stand for the whole text of o (2), or for something that is the same
// for equal texts (1)?
func (c *strCheck) formOf(s *State, t, o *Term) int {
	d := c.dataAt(o)
	t = t.canon()
	switch {
	case c.x.isText(t.typ) && c.text(t) == c.text(d):
		return 2
	case t == o:
		return 3
	case t.op == "len" && c.text(t.args[0]) == c.text(d), t.op == "sum" && t.args[0] == c.text(d):
		return 1
	case t.op == "param" && t.aux == "the number of "+o.String(), t == c.pint(d):
		return 1
	}
	return 0
}

func (c *strCheck) equals(s *State, pos string, res *Term) {
	if len(c.obj) != 2 {
		return
	}
	a, b := c.obj[0], c.obj[1]
	// what an equality says about the two strings: 2 same text, 1 necessary, 3 same pointer
	kind := func(t *Term) int {
		if t.op == "pure" && t.aux == "bytes.Equal" || t.op == "cmp" && t.aux == "==" {
			if len(t.args) != 2 {
				return 0
			}
			k := c.formOf(s, t.args[0], a)
			if k == 0 || k != c.formOf(s, t.args[1], b) {
				k = c.formOf(s, t.args[0], b)
				if k != c.formOf(s, t.args[1], a) {
					return 0
				}
			}
			return k
		}
		return 0
	}
	same, differ, hazy := false, false, false
	for t, f := range s.facts {
		if f.truth == 0 {
			continue
		}
		k := kind(t)
		switch {
		case k == 0 && (t.op == "cmp" || t.op == "call" || t.op == "pure"):
			hazy = true
		case f.truth == 1 && k >= 2:
			same = true
		case f.truth == 2 && (k == 1 || k == 2):
			differ = true
		}
	}
	val, known := res.boolVal()
	neg := false
	u := res
	for u.op == "not" {
		u, neg = u.args[0], !neg
	}
	switch {
	case known && val:
		if !same && !hazy {
			c.fail(s, pos, "result", "texts that may differ are called equal")
		} else if !same {
			c.undecided("a comparison that is not understood")
		}
	case known:
		if !differ && !hazy {
			c.fail(s, pos, "result", "texts that may be equal are called different")
		} else if !differ {
			c.undecided("a comparison that is not understood")
		}
	default:
		switch k := kind(u); {
		case k == 0 && !hazy && u.op == "cmp" && u.any(func(v *Term) bool { return v.op == "sum" || v.op == "len" || v.op == "pint" }):
			c.fail(s, pos, "result", "the result is %s, which does not say that the texts are equal", res)
		case k == 0:
			c.undecided("the result %s is not understood", res)
		case neg:
			c.fail(s, pos, "result", "the result is the opposite of equality")
		case k == 1:
			c.fail(s, pos, "result", "strings of different texts can have the same %s", u.args[0])
		case k == 3 && !differ:
			c.fail(s, pos, "result", "equal texts in two places are called different")
		}
	}
}

func (c *strCheck) getRange(s *State, pos string, res []*Term) {
	if len(res) != 2 || len(c.f.Params) != 3 {
		return
	}
	x := c.x
	d := c.dataAt(c.obj[0])
	as := []*Term{x.Param(c.f.Params[1]), x.Param(c.f.Params[2]), nil}
	isEnd := func(t *Term, i string) bool {
		t = stripConv(t)
		return t.op == "end" && t.aux == i && t.args[0] == as[0] && t.args[1] == as[1] && c.sizeLin(s, t.args[2]).plus(c.lenLin(s, d), -1).zero()
	}
	refused, taken := false, false
	other := false
	for t, f := range s.facts {
		if f.truth == 0 || t.op != "cmp" || len(t.args) != 2 {
			continue
		}
		a, b := stripConv(t.args[0]), stripConv(t.args[1])
		if b.op == "end" && t.aux == "==" {
			a, b = b, a
		}
		v, ok := b.intVal()
		is := isEnd(a, "0") || isEnd(a, "1")
		switch {
		case is && ok && t.aux == "==" && v == -1, is && ok && t.aux == "<" && v == 0:
			refused = refused || f.truth == 1
			taken = taken || f.truth == 2
		default:
			other = true
		}
	}
	if !res[1].isNil() {
		if !refused && !other {
			c.fail(s, pos, "result", "a range is refused that may not be empty")
		} else if !refused {
			c.undecided("why the range is refused")
		}
		return
	}
	got := s.store[c.cell(res[0].canon(), c.sh.data)]
	if got == nil {
		c.undecided("the result is %s", res[0])
		return
	}
	t := c.text(got)
	if len(t.args) == 0 && refused {
		c.fail(s, pos, "result", "an empty range gives an empty string and no error")
		return
	}
	if len(t.args) != 1 || t.args[0].op != "slice" {
		if !other || t == c.text(d) && !taken {
			c.fail(s, pos, "result", "the text of the result is %s, not the part between the ends", c.show(got))
		} else {
			c.undecided("the result is %s", c.show(got))
		}
		return
	}
	t = t.args[0]
	if c.text(t.args[0]) != c.text(d) {
		c.fail(s, pos, "result", "the result is a part of %s, not of the text", c.show(t.args[0]))
		return
	}
	lo, hi := linOf(t.args[1]), linOf(t.args[2])
	if t.args[2].isNil() {
		hi = c.lenLin(s, d)
	}
	hi.c--
	for i, l := range []lin{lo, hi} {
		ok, known := false, false
		for u, k := range l.m {
			if u.op == "end" {
				known = true
			}
			ok = len(l.m) == 1 && l.c == 0 && k == 1 && isEnd(u, fmt.Sprint(i))
		}
		what := []string{"first", "last"}[i]
		if known && !ok {
			c.fail(s, pos, "result", "the %s place of the result is %s, not the resolved end", what, x.linTerm(l))
		} else if !ok {
			c.undecided("the %s place of the result", what)
		}
	}
	if !taken {
		if other {
			c.undecided("why the range is not refused")
		} else {
			c.fail(s, pos, "result", "a range that may be empty is not refused")
		}
	}
}

// arith: Increase and Decrease.
func (c *strCheck) arith(s *State, pos string, res []*Term, iv, val *Term, failed bool) {
	x, sh, o := c.x, c.sh, c.obj[0]
	iv0 := "the number of " + o.String()
	d := c.dataAt(o)
	old := c.pint(d)
	n := x.Param(c.f.Params[1])
	sign := int64(1)
	if c.f.Name() == "Decrease" {
		sign = -1
	}
	want := linOf(old).plus(linOf(n), sign)
	fail := func(key, format string, a ...interface{}) { c.fail(s, pos, key, format, a...) }
	was := x.tp.mk("param", iv0, nil)
	nilness := s.facts[was].nilness
	if failed {
		if c.text(s.store[c.cell(o, sh.data)]) != c.text(d) || iv.canon() != was || val != old {
			fail("error", "an error, but the string is changed")
		}
		if nilness == 1 {
			return
		}
		fits, sure := c.fits(s, old, n, sign, 0)
		switch {
		case nilness == 0 && len(s.facts) <= 1:
			fail("error", "an error for a string that may have a number")
		case fits && sure:
			fail("error", "an error although the result may fit")
		case fits:
			c.undecided("why the amount is refused")
		default:
			c.r.site("refusal", pos)
		}
		return
	}
	if nilness != 2 {
		fail("result", "no error for a string that may have no number")
		return
	}
	if val == nil || !linOf(val).plus(want, -1).zero() {
		fail("result", "the number of the string becomes %s", val)
		return
	}
	if !linOf(res[0]).plus(want, -1).zero() {
		fail("result", "the result is %s, not the new number", res[0])
		return
	}
	c.r.site("result that fits", pos)
	for _, k := range []int64{-1, 1} {
		wraps, sure := c.fits(s, old, n, sign, k)
		switch {
		case wraps && sure:
			fail("overflow", "the number may leave the 64 bits, which is not refused")
		case wraps:
			c.undecided("whether the result fits")
		}
	}
}

// ---- integers and wrapped operations ----

// ideal is a linear form over the integers.
type ideal struct {
	m map[*Term]int64
	c *big.Int
}

func (l ideal) plus(o ideal, k int64) ideal {
	r := ideal{m: map[*Term]int64{}, c: new(big.Int).Add(l.c, new(big.Int).Mul(o.c, big.NewInt(k)))}
	for t, n := range l.m {
		r.m[t] = n
	}
	for t, n := range o.m {
		r.m[t] += k * n
		if r.m[t] == 0 {
			delete(r.m, t)
		}
	}
	return r
}

func idealC(v *big.Int) ideal { return ideal{m: map[*Term]int64{}, c: v} }

var (
	bigMax = big.NewInt(math.MaxInt64)
	bigMin = big.NewInt(math.MinInt64)
	bigMod = new(big.Int).Lsh(big.NewInt(1), 64)
)

// fits: can the path be taken with old+sign*n being off by k times 2^64 from what is stored?
// The second result says that all the path depends on was understood.
func (c *strCheck) fits(s *State, old, n *Term, sign, k int64) (bool, bool) {
	sure := true
	atom := func(t *Term) bool { return t == old || t == n }
	// the operations that may wrap, each with a case of its own
	var ops []*Term
	var find func(t *Term) bool
	find = func(t *Term) bool {
		t = stripConv(t)
		if _, ok := t.intVal(); ok || atom(t) {
			return true
		}
		switch {
		case t.op == "bin" && (t.aux == "+" || t.aux == "-"), t.op == "un" && t.aux == "-":
			for _, a := range t.args {
				if !find(a) {
					return false
				}
			}
			for _, u := range ops {
				if u == t {
					return true
				}
			}
			ops = append(ops, t)
			return true
		}
		return false
	}
	type cmp struct {
		a, b *Term
		kind int // 0 a<b, 1 a>=b, 2 a==b, 3 a!=b
	}
	var cs []cmp
	for _, t := range sortedFacts(s) {
		f := s.facts[t]
		if f.truth == 0 && f.eq == nil {
			continue
		}
		touches := t.any(func(u *Term) bool { return atom(u) })
		if !touches {
			continue
		}
		if t.op != "cmp" || len(t.args) != 2 || (t.aux != "<" && t.aux != "==") || f.truth == 0 || !find(t.args[0]) || !find(t.args[1]) {
			if t == c.pintErr(c.dataAt(c.obj[0])) || t.op == "pinterr" {
				continue
			}
			if f.eq != nil && f.truth == 0 && atom(t) {
				if _, ok := f.eq.intVal(); ok {
					cs = append(cs, cmp{t, f.eq, 2})
					continue
				}
			}
			if os := t.op; os == "fieldaddr" || os == "load" || os == "text" || os == "dec" {
				continue
			}
			sure = false
			continue
		}
		kind := 0
		if t.aux == "==" {
			kind = 2
		}
		if f.truth == 2 {
			kind++
		}
		cs = append(cs, cmp{t.args[0], t.args[1], kind})
	}
	if len(ops) > 5 {
		return true, false
	}
	shift := map[*Term]int64{}
	var form func(t *Term) ideal
	form = func(t *Term) ideal {
		t = stripConv(t)
		if v, ok := t.intVal(); ok {
			return idealC(big.NewInt(v))
		}
		if atom(t) {
			return ideal{m: map[*Term]int64{t: 1}, c: new(big.Int)}
		}
		var l ideal
		if t.op == "un" {
			l = idealC(new(big.Int)).plus(form(t.args[0]), -1)
		} else if t.aux == "+" {
			l = form(t.args[0]).plus(form(t.args[1]), 1)
		} else {
			l = form(t.args[0]).plus(form(t.args[1]), -1)
		}
		return l.plus(idealC(bigMod), shift[t])
	}
	one := idealC(big.NewInt(1))
	in := func(l ideal) []ideal { // the two constraints of a 64 bit value
		return []ideal{l.plus(idealC(bigMin), -1), idealC(bigMax).plus(l, -1)}
	}
	var try func(i int) bool
	try = func(i int) bool {
		if i < len(ops) {
			for _, v := range []int64{0, -1, 1} {
				shift[ops[i]] = v
				if try(i + 1) {
					return true
				}
			}
			shift[ops[i]] = 0
			return false
		}
		base := append(in(form(old)), in(form(n))...)
		for _, t := range ops {
			base = append(base, in(form(t))...)
		}
		total := form(old).plus(form(n), sign).plus(idealC(bigMod), k)
		base = append(base, in(total)...)
		var alt func(i int, gs []ideal) bool
		alt = func(i int, gs []ideal) bool {
			if i == len(cs) {
				return feasible(gs, []*Term{old, n})
			}
			a, b := form(cs[i].a), form(cs[i].b)
			lt := b.plus(a, -1).plus(one, -1)
			gt := a.plus(b, -1).plus(one, -1)
			le := b.plus(a, -1)
			ge := a.plus(b, -1)
			with := func(ls ...ideal) bool {
				return alt(i+1, append(append([]ideal{}, gs...), ls...))
			}
			switch cs[i].kind {
			case 0:
				return with(lt)
			case 1:
				return with(ge)
			case 2:
				return with(le, ge)
			}
			return with(lt) || with(gt)
		}
		return alt(0, base)
	}
	return try(0), sure
}

// feasible: can all the forms be at least 0? (Elimination of one variable after the other.)
func feasible(gs []ideal, vars []*Term) bool {
	for _, v := range vars {
		var up, down, rest []ideal
		for _, g := range gs {
			switch k := g.m[v]; {
			case k > 0:
				up = append(up, g)
			case k < 0:
				down = append(down, g)
			default:
				rest = append(rest, g)
			}
		}
		for _, u := range up {
			for _, w := range down {
				// u.m[v]*v + ... >= 0 and -|w.m[v]|*v + ... >= 0
				sum := idealC(new(big.Int)).plus(u, -w.m[v]).plus(w, u.m[v])
				rest = append(rest, sum)
			}
		}
		gs = rest
	}
	for _, g := range gs {
		if g.c.Sign() < 0 {
			return false
		}
	}
	return true
}

func sortedFacts(s *State) []*Term {
	out := make([]*Term, 0, len(s.facts))
	for t := range s.facts {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
