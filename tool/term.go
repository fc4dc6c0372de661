package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic name for a run-time value.  Two occurrences with the
// same term denote the same value on the path under consideration.
type Term struct {
	id    int
	op    string
	aux   string
	args  []*Term
	typ   types.Type
	val   constant.Value // op "const"
	fn    *ssa.Function  // op "func"/"clo"
	site  ssa.Instruction
	conc  types.Type // op "mi": the concrete type
	depth int
	leafs []*Term // cached
	atomc []*Term // cached
}

type termPool struct {
	m    map[string]*Term
	next int
}

func newPool() *termPool { return &termPool{m: map[string]*Term{}} }

func (tp *termPool) mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&sb, "|%d", a.id)
	}
	k := sb.String()
	if t, ok := tp.m[k]; ok {
		return t
	}
	d := 0
	for _, a := range args {
		if a.depth >= d {
			d = a.depth + 1
		}
	}
	tp.next++
	t := &Term{id: tp.next, op: op, aux: aux, args: args, typ: typ, depth: d}
	tp.m[k] = t
	return t
}

func (tp *termPool) constant(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return tp.zero(typ)
	}
	t := tp.mk("const", v.ExactString(), typ)
	t.val = v
	return t
}

func (tp *termPool) nilT() *Term { return tp.mk("nil", "", nil) }
func (tp *termPool) intT(i int64) *Term {
	return tp.constant(constant.MakeInt64(i), types.Typ[types.Int])
}
func (tp *termPool) boolT(b bool) *Term {
	return tp.constant(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tp *termPool) strT(s string) *Term {
	return tp.constant(constant.MakeString(s), types.Typ[types.String])
}

// zero is the zero value of a type.
func (tp *termPool) zero(typ types.Type) *Term {
	if typ == nil {
		return tp.nilT()
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tp.boolT(false)
		case u.Info()&types.IsString != 0:
			return tp.strT("")
		case u.Info()&types.IsNumeric != 0:
			return tp.constant(constant.MakeInt64(0), typ)
		}
		return tp.nilT()
	case *types.Struct, *types.Array:
		return tp.mk("zero", typ.String(), typ)
	}
	return tp.nilT()
}

func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) isConst() bool { return t.op == "const" }

func (t *Term) boolVal() (bool, bool) {
	if t.op == "const" && t.val.Kind() == constant.Bool {
		return constant.BoolVal(t.val), true
	}
	return false, false
}

func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.val.Kind() == constant.Int {
		return constant.Int64Val(t.val)
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t.op == "const" && t.val.Kind() == constant.String {
		return constant.StringVal(t.val), true
	}
	return "", false
}

// inherentNonNil holds for terms which are never nil by construction.
func (t *Term) inherentNonNil() bool {
	switch t.op {
	case "alloc", "make", "clo", "func", "fieldaddr", "elemaddr", "mi", "global", "nonnil", "const", "zero":
		return true
	}
	return false
}

// canon strips conversions that keep the identity of the object.
func (t *Term) canon() *Term {
	for {
		switch t.op {
		case "mi", "ta", "chg":
			t = t.args[0]
		default:
			return t
		}
	}
}

// atoms is the set of atomic terms a term is built from.
func (t *Term) atoms() []*Term {
	if t.atomc != nil {
		return t.atomc
	}
	if len(t.args) == 0 || t.op == "alloc" || t.op == "make" || t.op == "clo" {
		t.atomc = []*Term{t}
		return t.atomc
	}
	m := map[*Term]bool{}
	for _, a := range t.args {
		for _, l := range a.atoms() {
			m[l] = true
		}
	}
	t.atomc = sortedTerms(m)
	return t.atomc
}

func sortedTerms(m map[*Term]bool) []*Term {
	out := make([]*Term, 0, len(m))
	for l := range m {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// leaves is the set of sources a term is computed from: atoms and shallow loads.
func (t *Term) leaves() []*Term {
	if t.leafs != nil {
		return t.leafs
	}
	if len(t.args) == 0 || t.op == "alloc" || t.op == "make" || t.op == "clo" || (t.op == "load" && t.depth <= 3) {
		t.leafs = []*Term{t}
		return t.leafs
	}
	m := map[*Term]bool{}
	for _, a := range t.args {
		for _, l := range a.leaves() {
			m[l] = true
		}
	}
	t.leafs = sortedTerms(m)
	return t.leafs
}

// mentions reports whether u occurs in t.
func (t *Term) mentions(u *Term) bool {
	if t == u {
		return true
	}
	if t.depth <= u.depth {
		return false
	}
	for _, a := range t.args {
		if a.mentions(u) {
			return true
		}
	}
	return false
}

// any reports whether pred holds for t or a subterm.
func (t *Term) any(pred func(*Term) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(pred) {
			return true
		}
	}
	return false
}

func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	switch t.op {
	case "const":
		return t.val.ExactString()
	case "nil":
		return "nil"
	case "param":
		return t.aux
	case "load":
		if len(t.args) == 1 {
			return strings.TrimPrefix(t.args[0].String(), "&")
		}
	case "fieldaddr":
		return "&" + strings.TrimPrefix(t.args[0].String(), "&") + "." + t.aux
	case "global":
		return t.aux
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.String())
	}
	aux := t.aux
	if i := strings.LastIndexByte(aux, '#'); i >= 0 {
		aux = aux[i:]
	}
	if len(as) == 0 {
		return t.op + "(" + aux + ")"
	}
	return t.op + "[" + aux + "](" + strings.Join(as, ",") + ")"
}

func negate(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return token.ILLEGAL
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (t *Term) argInt(i int) (int64, bool) {
	if i >= len(t.args) {
		return 0, false
	}
	return t.args[i].intVal()
}

func constInt(v int64) constant.Value { return constant.MakeInt64(v) }
