package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An algebra of texts: strings and byte slices that are put together from constants, decimal
// numbers and other texts are compared as the list of their pieces, however they were built.

func (x *Exec) isText(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func (x *Exec) dec(n *Term) *Term {
	n = n.canon()
	if v, ok := n.intVal(); ok {
		return x.tp.strT(constant.MakeInt64(v).ExactString())
	}
	if n.op == "len" { // len([]byte(s)) is len(s)
		a := n.args[0]
		for a.op == "chg" && x.isText(a.typ) && x.isText(a.args[0].typ) {
			a = a.args[0]
		}
		n = x.tp.mk("len", "", types.Typ[types.Int], a)
	}
	return x.tp.mk("dec", "", nil, n)
}

// textOf is the normal form of a text: a "text" term of pieces, neighbouring constants merged.
func (x *Exec) textOf(ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		t = t.canon()
		switch {
		case t.op == "text":
			for _, a := range t.args {
				add(a)
			}
			return
		case t.op == "bin" && t.aux == "+" && x.isText(t.typ):
			add(t.args[0])
			add(t.args[1])
			return
		case t.op == "nil":
			return
		case t.op == "make" && len(t.args) > 0 && x.isText(t.typ):
			if n, ok := t.args[0].intVal(); ok && n == 0 {
				return
			}
		case (t.op == "appendv") && x.isText(t.typ):
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if v, ok := t.strVal(); ok {
			if v == "" {
				return
			}
			if n := len(out); n > 0 {
				if w, ok := out[n-1].strVal(); ok {
					out[n-1] = x.tp.strT(w + v)
					return
				}
			}
		}
		if n := len(out); n > 0 && t.op == "each" && out[n-1] == t {
			return
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t != nil {
			add(t)
		}
	}
	return x.tp.mk("text", "", types.Typ[types.String], out...)
}

// variadic lists the elements of a variadic argument, nil when they cannot be told.
func (x *Exec) variadic(s *State, t *Term) ([]*Term, bool) {
	if t.isNil() {
		return nil, true
	}
	if t.op != "slice" || t.args[0].op != "alloc" {
		return nil, false
	}
	n, ok := x.lenOf(s, t, nil).intVal()
	if !ok || n > 16 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		v, ok := s.store[x.tp.mk("elemaddr", "", nil, t.args[0], x.tp.intT(i))]
		if !ok {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

// sprintf gives the text of a formatted string; nil when a verb is not understood.
func (x *Exec) sprintf(s *State, format string, args []*Term) *Term {
	var out []*Term
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = append(out, x.tp.strT(format[i:i+1]))
			continue
		}
		i++
		if i >= len(format) {
			return nil
		}
		if format[i] == '%' {
			out = append(out, x.tp.strT("%"))
			continue
		}
		if k >= len(args) {
			return nil
		}
		a := unbox(args[k])
		k++
		isInt := a.typ != nil && isIntType(a.typ) && !isFloat(a.typ)
		switch v := format[i]; {
		case (v == 'd' || v == 'v') && isInt:
			out = append(out, x.dec(a))
		case (v == 's' || v == 'v') && x.isText(a.typ):
			if _, isSlice := a.typ.Underlying().(*types.Slice); isSlice && v == 'v' {
				return nil
			}
			out = append(out, a)
		case v == 's' || v == 'v':
			m := ".String"
			if a.typ != nil && types.Implements(a.typ, errType().Underlying().(*types.Interface)) {
				m = ".Error"
			} else if a.typ == nil || types.NewMethodSet(a.typ).Lookup(nil, "String") == nil {
				return nil
			}
			out = append(out, x.tp.mk("pure", m, types.Typ[types.String], a.canon()))
		case v == 'c' && isInt:
			if n, ok := a.intVal(); ok {
				out = append(out, x.tp.strT(string(rune(n))))
				continue
			}
			return nil
		case v == 'q' && x.isText(a.typ):
			out = append(out, x.tp.mk("pure", "strconv.Quote", types.Typ[types.String], a.canon()))
		default:
			return nil
		}
	}
	if k != len(args) {
		return nil
	}
	return x.textOf(out...)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func bufKey(t *Term) string { return "buf " + t.String() }

// textModel interprets the library functions that build texts.
func (x *Exec) textModel(s *State, c ssa.CallInstruction, args []*Term) (CallAction, bool) {
	cc := c.Common()
	name := libName(cc)
	one := func(t *Term) (CallAction, bool) {
		if t == nil {
			return CallAction{}, false
		}
		res := []*Term{t}
		for i := 1; i < cc.Signature().Results().Len(); i++ {
			res = append(res, nil)
		}
		return CallAction{Kind: actOpaque, Pure: true, Results: res}, true
	}
	buf := func(b *Term) *Term {
		if t := s.getT(bufKey(b.canon())); t != nil {
			return t
		}
		return x.textOf()
	}
	write := func(b *Term, t *Term) (CallAction, bool) {
		s.setT(bufKey(b.canon()), x.textOf(buf(b), t))
		res := make([]*Term, cc.Signature().Results().Len())
		for i := range res {
			if types.Identical(cc.Signature().Results().At(i).Type(), errType()) {
				res[i] = x.tp.nilT()
			}
		}
		if len(res) == 0 {
			return CallAction{Kind: actOpaque, Pure: true}, true
		}
		return CallAction{Kind: actOpaque, Pure: true, Results: res}, true
	}
	switch name {
	case "fmt.Sprintf":
		f, ok := args[0].strVal()
		vs, known := x.variadic(s, args[1])
		if ok && known {
			return one(x.sprintf(s, f, vs))
		}
	case "strconv.Itoa":
		return one(x.textOf(x.dec(args[0])))
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, ok := args[1].intVal(); ok && b == 10 {
			return one(x.textOf(x.dec(args[0])))
		}
	case "strconv.AppendInt":
		if b, ok := args[2].intVal(); ok && b == 10 {
			return one(x.textOf(args[0], x.dec(args[1])))
		}
	case "strings.Join", "bytes.Join":
		sep, ok := args[1].canon().strVal()
		vs, known := x.variadic(s, args[0])
		if ok && known {
			var ps []*Term
			for i, v := range vs {
				if i > 0 {
					ps = append(ps, x.tp.strT(sep))
				}
				ps = append(ps, v)
			}
			return one(x.textOf(ps...))
		}
	case "bytes.NewBufferString", "bytes.NewBuffer":
		rs := cc.Signature().Results()
		t := x.fresh(s, "newbuf", "", c, rs.At(0).Type())
		x.setNil(s, t, 2)
		s.setT(bufKey(t), x.textOf(args[0]))
		return one(t)
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write":
		return write(args[0], args[1])
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		if v, ok := args[1].intVal(); ok {
			return write(args[0], x.tp.strT(string(rune(v))))
		}
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		return one(buf(args[0]))
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return CallAction{Kind: actOpaque, Pure: true}, true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		s.del(bufKey(args[0].canon()))
		return CallAction{Kind: actOpaque, Pure: true}, true
	case "fmt.Fprintf":
		b := args[0].canon()
		if b.typ == nil || !(strings.HasSuffix(b.typ.String(), "bytes.Buffer") || strings.HasSuffix(b.typ.String(), "strings.Builder")) {
			break
		}
		f, ok := args[1].strVal()
		vs, known := x.variadic(s, args[2])
		if ok && known {
			if t := x.sprintf(s, f, vs); t != nil {
				return write(b, t)
			}
		}
	}
	return CallAction{}, false
}

var _ = token.ADD
