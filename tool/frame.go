package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of byte slices that are put together and of the calls that read and write them, for
// formats that announce a length before the data.

// bytesOf is the content of a byte slice as a text.
func (x *Exec) bytesOf(s *State, t *Term) *Term {
	t = t.canon()
	base, lo, hi := t, int64(0), (*Term)(nil)
	for base.op == "slice" {
		l, ok := base.args[1].intVal()
		if !ok {
			return x.textOf(t)
		}
		lo += l
		if h := base.args[2]; !h.isNil() && hi == nil && lo == l {
			hi = h
		}
		base = base.args[0].canon()
	}
	if n, ok := x.lenOf(s, base, nil).intVal(); ok && n == 0 && base.op == "make" {
		return x.textOf()
	}
	segs := s.getT("seg " + base.String())
	if segs == nil {
		return x.textOf(t)
	}
	var out []*Term
	for i := 0; i+1 < len(segs.args); i += 2 {
		at, _ := segs.args[i].intVal()
		if at < lo {
			continue
		}
		if hi != nil {
			if v, ok := hi.intVal(); ok && at >= v {
				continue
			}
		}
		out = append(out, segs.args[i+1])
	}
	return x.textOf(out...)
}

// putBytes notes that a part of a byte slice was filled.
func (x *Exec) putBytes(s *State, dst, content *Term) {
	base, lo := dst.canon(), int64(0)
	for base.op == "slice" {
		l, ok := base.args[1].intVal()
		if !ok {
			s.del("seg " + base.String())
			return
		}
		lo += l
		base = base.args[0].canon()
	}
	key := "seg " + base.String()
	var out []*Term
	put := false
	if old := s.getT(key); old != nil {
		for i := 0; i+1 < len(old.args); i += 2 {
			at, _ := old.args[i].intVal()
			if at >= lo && !put {
				out = append(out, x.tp.intT(lo), content)
				put = true
			}
			if at != lo {
				out = append(out, old.args[i], old.args[i+1])
			}
		}
	}
	if !put {
		out = append(out, x.tp.intT(lo), content)
	}
	s.setT(key, x.tp.mk("segs", "", nil, out...))
}

func (x *Exec) le32(n *Term) *Term {
	if narrow(n) {
		return x.tp.mk("le32", "narrow", nil, n)
	}
	return x.tp.mk("le32", "", nil, stripConv(n))
}

// narrow: the number went through a type of less than 32 bits.
func narrow(n *Term) bool {
	for (n.op == "conv" || n.op == "chg" || n.op == "mi") && len(n.args) == 1 {
		if b, ok := n.typ.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Int8, types.Int16, types.Uint8, types.Uint16:
				return true
			}
		}
		n = n.args[0]
	}
	return false
}

func (x *Exec) unle32(b *Term) *Term {
	if b.op == "text" && len(b.args) == 1 && b.args[0].op == "le32" {
		return b.args[0].args[0]
	}
	return x.tp.mk("pure", "unle32", types.Typ[types.Uint32], b)
}

// uintConv: a number of 32 bits, wherever it was converted to.
func is32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint32 || b.Kind() == types.Int32)
}

// littleEndian reports whether a call uses the little-endian order, and gives its method.
func littleEndian(cc *ssa.CallCommon, args []*Term) (method string, ok bool) {
	n := libName(cc)
	if i := strings.LastIndex(n, "."); i >= 0 {
		method = n[i+1:]
	}
	switch {
	case strings.HasPrefix(n, "(encoding/binary.littleEndian)."):
		return method, true
	case strings.HasPrefix(n, "(encoding/binary.ByteOrder).") && len(args) > 0:
		return method, isLittle(args[0])
	}
	return "", false
}

func isLittle(t *Term) bool {
	return t.any(func(u *Term) bool {
		return u.op == "global" && strings.HasSuffix(u.aux, "LittleEndian") || u.typ != nil && strings.HasSuffix(u.typ.String(), "binary.littleEndian")
	})
}

func errorsIs(n string) bool { return n == "errors.Is" }

// bytesModel interprets the calls that move bytes between slices, buffers and readers.
func (x *Exec) bytesModel(s *State, c ssa.CallInstruction, args []*Term) (CallAction, bool) {
	cc := c.Common()
	name := libName(cc)
	rs := cc.Signature().Results()
	one := func(ts ...*Term) (CallAction, bool) {
		return CallAction{Kind: actOpaque, Pure: true, Results: ts}, true
	}
	if m, ok := littleEndian(cc, args); ok {
		switch m {
		case "PutUint32":
			x.putBytes(s, args[1], x.le32(args[2]))
			return CallAction{Kind: actOpaque, Pure: true}, true
		case "Uint32":
			return one(x.unle32(x.bytesOf(s, args[1])))
		case "AppendUint32":
			return one(x.textOf(x.bytesOf(s, args[1]), x.le32(args[2])))
		}
	}
	switch name {
	case "builtin.copy":
		x.putBytes(s, args[0], x.bytesOf(s, args[1]))
		return CallAction{}, false
	case "builtin.append":
		if len(args) == 2 && rs.Len() == 1 && x.isText(rs.At(0).Type()) {
			if vs, ok := x.variadic(s, args[1]); ok && len(vs) > 0 {
				break
			}
			return one(x.textOf(x.bytesOf(s, args[0]), x.bytesOf(s, args[1])))
		}
	case "encoding/binary.Write":
		v := unbox(args[2])
		if isBuf(args[0]) && isLittle(args[1]) && v.typ != nil && is32(v.typ) {
			s.setT(bufKey(args[0].canon()), x.textOf(x.bufText(s, args[0]), x.le32(v)))
			return one(x.tp.nilT())
		}
	case "(*bytes.Buffer).Write":
		s.setT(bufKey(args[0].canon()), x.textOf(x.bufText(s, args[0]), x.bytesOf(s, args[1])))
		return one(nil, x.tp.nilT())
	case "bytes.NewReader", "strings.NewReader", "bytes.NewBuffer", "bytes.NewBufferString":
		t := x.fresh(s, "newbuf", "", c, rs.At(0).Type())
		x.setNil(s, t, 2)
		s.setT(bufKey(t), x.bytesOf(s, args[0]))
		return one(t)
	case "bufio.NewReader", "bufio.NewReaderSize":
		t := x.fresh(s, "reader", "", c, rs.At(0).Type(), args[0].canon())
		x.setNil(s, t, 2)
		return one(t)
	case "io.LimitReader":
		t := x.fresh(s, "limited", "", c, rs.At(0).Type(), args[0].canon(), args[1])
		x.setNil(s, t, 2)
		return one(t)
	case "fmt.Errorf":
		f, ok := args[0].strVal()
		vs, known := x.variadic(s, args[1])
		if ok && known && strings.Count(f, "%w") == 1 && strings.Count(f, "%") == len(vs) {
			k := strings.Count(f[:strings.Index(f, "%w")], "%")
			t := x.fresh(s, "wraperr", "", c, errType(), unbox(vs[k]))
			x.setNil(s, t, 2)
			return one(t)
		}
	case "errors.Is":
		e := args[0]
		for e.canon().op == "wraperr" {
			e = e.canon().args[0]
		}
		// an error of a reader is none of this program's own
		if k := args[1].canon(); e.canon().op == "readerr" && isSentinel(k) && x.p.ownGlobal(k.args[0].aux) {
			return one(x.tp.boolT(false))
		}
		return one(x.tp.mk("pure", "errors.Is", types.Typ[types.Bool], e, args[1]))
	case "errors.Unwrap":
		if e := args[0].canon(); e.op == "wraperr" {
			return one(e.args[0])
		}
	}
	return x.textModel(s, c, args)
}

func isBuf(t *Term) bool {
	t = t.canon()
	return t.typ != nil && (strings.HasSuffix(t.typ.String(), "bytes.Buffer") || strings.HasSuffix(t.typ.String(), "strings.Builder"))
}

func (x *Exec) bufText(s *State, b *Term) *Term {
	if t := s.getT(bufKey(b.canon())); t != nil {
		return t
	}
	return x.textOf()
}

// readPrim recognises a call that reads exactly so many bytes or fails.
type readPrim struct {
	reader, count *Term
	into          *Term // buffer given by the caller, or the address of a number
	full          bool  // io.EOF means that nothing was read
}

func (x *Exec) readPrim(s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) *readPrim {
	cc := c.Common()
	if x.p.isFunc(callees, "util", "ReadExactBytes") {
		return &readPrim{reader: args[0].canon(), count: args[1]}
	}
	switch libName(cc) {
	case "io.ReadFull":
		return &readPrim{reader: args[0].canon(), count: x.lenOf(s, args[1].canon(), nil), into: args[1], full: true}
	case "io.ReadAtLeast":
		return &readPrim{reader: args[0].canon(), count: args[2], into: args[1], full: true}
	case "io.CopyN":
		return &readPrim{reader: args[1].canon(), count: args[2], full: false, into: args[0]}
	case "encoding/binary.Read":
		a := unbox(args[2])
		if a.typ != nil && isLittle(args[1]) {
			if pt, ok := a.typ.Underlying().(*types.Pointer); ok && is32(pt.Elem()) {
				return &readPrim{reader: args[0].canon(), count: x.tp.intT(4), into: a, full: true}
			}
		}
	}
	return nil
}

// framed follows a reader of a format of a 4 byte length and as many bytes.
type framed struct {
	p    *Prog
	r    *Report
	what string
	// before is called before another header is read
	before func(x *Exec, s *State, at string)
}

func (f *framed) headerOK(x *Exec, s *State) bool { return f.readOK(x, s, "h") }
func (f *framed) bodyOK(x *Exec, s *State) bool   { return f.readOK(x, s, "b") }

func (f *framed) readOK(x *Exec, s *State, k string) bool {
	if e := s.getT(k + "err"); e != nil && x.Nilness(s, e) == 1 {
		return true
	}
	if b, n := s.getT(k+"raw"), s.getT(k+"count"); b != nil && n != nil {
		return x.Truth(s, x.binop(s, token.EQL, x.lenOf(s, b, nil), n, types.Typ[types.Bool])) == 1
	}
	return false
}

// eof: the read is known to have met the end of the data.
func (f *framed) eof(x *Exec, s *State, k string) bool {
	e := s.getT(k + "err")
	return e != nil && x.isErr(s, e, "EOF")
}

// partial: a part of it was read.
func (f *framed) torn(x *Exec, s *State, k string) bool {
	e := s.getT(k + "err")
	if e == nil {
		return false
	}
	if x.isErr(s, e, "ErrUnexpectedEOF") {
		return true
	}
	return x.isErr(s, e, "EOF") && (k == "b" || !f.nothing(x, s))
}

// nothing: not a single byte of the header was there.
func (f *framed) nothing(x *Exec, s *State) bool {
	if !f.eof(x, s, "h") {
		return false
	}
	if s.get("hfull") != "" {
		return true
	}
	b := s.getT("hraw")
	return b != nil && x.Truth(s, x.binop(s, token.EQL, x.lenOf(s, b, nil), x.tp.intT(0), types.Typ[types.Bool])) == 1
}

// isErr: the path knows the error to be the sentinel.
func (x *Exec) isErr(s *State, e *Term, sentinel string) bool {
	is := func(t *Term) bool { return isSentinel(t) && strings.HasSuffix(t.args[0].aux, "."+sentinel) }
	for t, f := range s.facts {
		if f.truth != 1 || len(t.args) != 2 {
			continue
		}
		if t.op == "pure" && strings.HasPrefix(t.aux, "errors.Is") && t.args[0].canon() == e.canon() && is(t.args[1].canon()) {
			return true
		}
		if t.op == "cmp" && t.aux == "==" && (t.args[0].canon() == e.canon() && is(t.args[1].canon()) || t.args[1].canon() == e.canon() && is(t.args[0].canon())) {
			return true
		}
	}
	return false
}

// read is called for each call; it models the ones that read.
func (f *framed) read(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) (CallAction, bool) {
	rp := x.readPrim(s, c, callees, args)
	if rp == nil {
		return CallAction{}, false
	}
	at := f.p.instrPos(c)
	rs := c.Common().Signature().Results()
	k := "h"
	if s.get("ph") == "hdr" {
		k = "b"
	}
	f.r.site("read of "+f.what, at+" "+k)
	if o := s.getT("from"); o != nil && o != rp.reader {
		f.r.failPath(f.what+" reader", at, s.path(), "%s is read from another reader than what came before it: what that one has buffered is lost", f.what)
	}
	s.setT("from", rp.reader)
	if k == "h" {
		if s.get("ph") == "body" && !f.bodyOK(x, s) {
			f.r.failPath(f.what+" after failure", at, s.path(), "reading goes on although the data announced was not read completely")
		}
		if f.before != nil {
			f.before(x, s, at)
		}
		if v, ok := stripConv(rp.count).intVal(); !ok || v != 4 {
			f.r.failPath(f.what+" length", at, s.path(), "the length before %s is not read from exactly 4 bytes", f.what)
		}
		for _, q := range []string{"herr", "hraw", "hcount", "hbytes", "hfull", "berr", "braw", "bcount", "bbytes", "bfull"} {
			s.del(q)
		}
		s.set("ph", "hdr")
	} else {
		if !f.headerOK(x, s) {
			f.r.failPath(f.what+" after bad length", at, s.path(), "%s is read although its length may not have been", f.what)
		}
		want := s.getT("hnum")
		if want == nil {
			want = x.unle32(s.getT("hbytes"))
		}
		if stripConv(rp.count) != stripConv(want) {
			f.r.failPath(f.what+" size", at, s.path(), "not exactly as many bytes are read as the 4 bytes before them announce (little-endian)")
		}
		s.set("ph", "body")
	}
	s.del("hnum")
	s.setT(k+"count", rp.count)
	if rp.full {
		s.set(k+"full", "1")
	}
	res := make([]*Term, rs.Len())
	content := x.fresh(s, "read", "", c, types.NewSlice(types.Typ[types.Uint8]))
	e := x.fresh(s, "readerr", "", c, errType())
	res[len(res)-1] = e
	switch {
	case rp.into == nil:
		res[0] = content
		s.setT(k+"raw", content)
		s.setT(k+"bytes", x.textOf(content))
	case rp.into.typ != nil && x.isText(rp.into.typ):
		x.putBytes(s, rp.into, content)
		s.setT(k+"bytes", x.textOf(content))
	case isBuf(rp.into):
		s.setT(bufKey(rp.into.canon()), x.textOf(x.bufText(s, rp.into), content))
		s.setT(k+"bytes", x.textOf(content))
	case strings.HasPrefix(libName(c.Common()), "encoding/binary"):
		n := x.unle32(x.textOf(content))
		x.writeCell(s, rp.into, n, types.Typ[types.Uint32], c)
		s.setT(k+"bytes", x.textOf(content))
	default: // thrown away
		s.setT(k+"bytes", x.textOf(content))
	}
	s.setT(k+"err", e)
	return CallAction{Kind: actOpaque, Pure: true, Results: res}, true
}

func (p *Prog) ownGlobal(name string) bool {
	i := strings.Index(name, ".")
	if i < 0 {
		return false
	}
	for _, f := range p.Funcs {
		if pkgName(f) == name[:i] {
			return true
		}
	}
	return false
}
