package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C22", "a request is parsed as it was sent", ruleParse)
}

// firstByte finds the character the path knows a token to begin with.
func (x *Exec) firstByte(s *State, tok *Term) string {
	isFirst := func(t *Term) bool {
		t = t.canon()
		if (t.op == "index" || t.op == "load" && t.args[0].op == "elemaddr") && t.op == "index" {
			v, ok := t.args[1].intVal()
			return ok && v == 0 && t.args[0].canon() == tok
		}
		if t.op == "slice" {
			lo, ok1 := t.args[1].intVal()
			hi, ok2 := t.args[2].intVal()
			return ok1 && ok2 && lo == 0 && hi == 1 && t.args[0].canon() == tok
		}
		return false
	}
	str := func(t *Term) (string, bool) {
		if v, ok := t.strVal(); ok {
			return v, true
		}
		if v, ok := t.intVal(); ok {
			return string(rune(v)), true
		}
		return "", false
	}
	for t, f := range s.facts {
		if t.op == "cmp" && t.aux == "==" && f.truth == 1 && len(t.args) == 2 && isFirst(t.args[0]) {
			if v, ok := str(t.args[1]); ok {
				return v
			}
		}
		if t.op == "pure" && strings.HasPrefix(t.aux, "strings.HasPrefix") && f.truth == 1 && t.args[0].canon() == tok {
			if v, ok := t.args[1].strVal(); ok {
				return v
			}
		}
		if f.eq != nil && isFirst(t) {
			if v, ok := str(f.eq); ok {
				return v
			}
		}
	}
	return ""
}

// payload gives the token a text is the middle part of: without the first byte and the CRLF.
func (x *Exec) payload(s *State, t *Term) *Term {
	t = t.canon()
	if t.op == "pure" && strings.HasPrefix(t.aux, "strings.TrimSuffix") {
		if v, ok := t.args[1].strVal(); ok && v == "\r\n" {
			t = t.args[0].canon()
			if t.op == "slice" && t.args[2].isNil() {
				if lo, ok := t.args[1].intVal(); ok && lo == 1 {
					return t.args[0].canon()
				}
			}
		}
		return nil
	}
	lo, hi := int64(0), int64(0)
	for t.op == "slice" {
		l, ok := t.args[1].intVal()
		if !ok {
			return nil
		}
		base := t.args[0].canon()
		k := int64(0)
		if h := t.args[2].canon(); !h.isNil() {
			if h.op != "bin" || h.aux != "-" || h.args[0].canon() != x.lenOf(s, t.args[0], nil).canon() && h.args[0].canon() != x.lenOf(s, base, nil).canon() {
				return nil
			}
			v, ok := h.args[1].intVal()
			if !ok {
				return nil
			}
			k = v
		}
		lo, hi = lo+l, hi+k
		t = base
	}
	if lo == 1 && hi == 2 {
		return t
	}
	return nil
}

// parsedFrom gives the token a number was parsed from.
func (x *Exec) parsedFrom(s *State, n *Term) *Term {
	n = n.canon()
	if n.op == "pure" && n.aux == "parse#0" {
		return x.payload(s, n.args[0])
	}
	return nil
}

func ruleParse(p *Prog, r *Report) {
	r.rule("Parse and ReadObject are followed on every path. Each object they make must be of the kind the first byte of the token read announces; a simple string, an error and an integer are made from exactly the bytes between that byte and the CRLF of the same token; a bulk string from exactly as many bytes as the announced length, of a text of two bytes more that was read after it; an array from every object read for it, each exactly once and in order, when the announced count is reached; null objects only when the announced length is -1. A number is only used if it was parsed without error. An object is only returned without an error when no read failed, and never no object without an error.")
	kinds := map[string]string{"NewSimpleRedisString": "+", "NewBulkRedisString": "$", "NewNullBulkRedisString": "$", "NewRedisError": "-", "NewRedisErrorFromGoError": "-", "NewRedisInteger": ":", "NewRedisArray": "*", "NewNullRedisArray": "*"}
	isMake := func(callees []*ssa.Function) string {
		for n := range kinds {
			if p.isFunc(callees, "protocol", n) {
				return n
			}
		}
		return ""
	}
	roots := p.impls("protocol", "RESPReader", "ReadObject")
	if f := p.fn("protocol", "Parse"); f != nil {
		roots = append(roots, f)
	}
	for _, root := range roots {
		x := NewExec(p)
		x.Depth = 12
		x.Opaque = func(f *ssa.Function) bool {
			return pkgName(f) != "protocol" && pkgName(f) != "util" || kinds[f.Name()] != ""
		}
		label := fname(root)
		where := p.pos(root.Pos())
		isNested := func(c ssa.CallInstruction) bool {
			rs := c.Common().Signature().Results()
			return rs.Len() == 2 && types.Identical(rs.At(1).Type(), errType()) && strings.HasSuffix(rs.At(0).Type().String(), "protocol.RedisObject")
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			name := libName(cc)
			at := p.instrPos(c)
			if n := isMake(callees); n != "" {
				r.site("object made", at)
				bad := func(key, format string, a ...interface{}) {
					r.failPath(n+" "+key, at, s.path(), format, a...)
				}
				kind := func(tok *Term) {
					if tok == nil || x.firstByte(s, tok) != kinds[n] {
						bad("kind", "%s is used for a token that is not known to begin with %q", n, kinds[n])
					}
				}
				num := func(v *Term) *Term {
					e := x.tp.mk("pure", "parse#1", errType(), v.canon().args...)
					if x.Nilness(s, e) != 1 {
						bad("unparsed", "a number is used although it may have failed to parse")
					}
					return x.parsedFrom(s, v)
				}
				if e := s.getT("pending"); e != nil {
					bad("element lost", "an object read for an array is not part of it")
				}
				switch n {
				case "NewSimpleRedisString", "NewRedisError":
					tok := x.payload(s, args[0])
					if tok == nil {
						bad("payload", "%s is not given exactly the bytes between the type byte and the CRLF", n)
						break
					}
					kind(tok)
				case "NewRedisInteger":
					if x.parsedFrom(s, args[0]) == nil {
						bad("payload", "an integer is not parsed from exactly the bytes between the type byte and the CRLF")
						break
					}
					kind(num(args[0]))
				case "NewBulkRedisString":
					a := args[0].canon()
					if a.op != "slice" {
						bad("payload", "a bulk string is not cut to its announced length")
						break
					}
					lo, ok := a.args[1].intVal()
					if !ok || lo != 0 || x.parsedFrom(s, a.args[2]) == nil {
						bad("payload", "a bulk string is not cut to its announced length")
						break
					}
					tok := num(a.args[2])
					kind(tok)
					if a.args[0].canon() == tok {
						bad("source", "a bulk string is cut from the line that announces its length")
					}
					plus := s.getT("count").constants(a.args[2].canon())
					if len(plus) > 0 && !plus[2] {
						bad("count", "not exactly the announced length and a CRLF are read for a bulk string")
					}
				case "NewNullBulkRedisString", "NewNullRedisArray":
					ok := false
					for t, f := range s.facts {
						if t.op == "cmp" && t.aux == "==" && f.truth == 1 {
							if v, isInt := t.args[1].intVal(); isInt && v == -1 && x.parsedFrom(s, t.args[0]) != nil {
								ok = true
								kind(num(t.args[0]))
							}
						}
						if v, isInt := int64(0), f.eq != nil; isInt {
							v, isInt = f.eq.intVal()
							if isInt && v == -1 && x.parsedFrom(s, t) != nil {
								ok = true
								kind(num(t))
							}
						}
						if t.op == "cmp" && t.aux == "==" && f.truth == 1 && x.payload(s, t.args[0]) != nil {
							if v, isS := t.args[1].strVal(); isS && v == "-1" {
								ok = true
								kind(x.payload(s, t.args[0]))
							}
						}
					}
					if !ok {
						bad("null", "%s is used although the announced length is not known to be -1", n)
					}
				case "NewRedisArray":
					switch u := s.getT("arr"); {
					case u != nil:
						if e := x.tp.mk("pure", "parse#1", errType(), u.args...); x.Nilness(s, e) != 1 {
							bad("unparsed", "a number is used although it may have failed to parse")
						}
						kind(x.parsedFrom(s, u))
					case s.get("down") == "":
						bad("count", "an array is made without its announced count being reached")
					}
					if s.get("elems") != "" && !args[0].any(func(u *Term) bool {
						return u.op == "append" || u.op == "appendv" || u.op == "iter" || u.op == "make" || u.op == "join"
					}) {
						bad("elements", "an array is made from something else than the objects read for it")
					}
				}
				rs := cc.Signature().Results()
				t := x.fresh(s, "made", n, c, rs.At(0).Type())
				x.setNil(s, t, 2)
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{t}}
			}
			x.keepsText(s, r, c, name, args)
			switch name {
			case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
				if len(args) == 3 {
					b, ok1 := args[1].intVal()
					w, ok2 := args[2].intVal()
					if !ok1 || !ok2 || b != 10 || w != 64 && w != 0 {
						r.failPath("number format", at, s.path(), "a number is not parsed as a decimal 64 bit integer")
					}
				}
				return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "parse", args[:1])}
			}
			if isNested(c) && len(callees) > 0 && x.onStack(s, callees[0]) {
				if s.getT("pending") != nil {
					r.failPath("element lost", at, s.path(), "an object read for an array is not part of it")
				}
				return CallAction{Kind: actOpaque}
			}
			if name == "builtin.append" && len(args) == 2 {
				if vs, ok := x.variadic(s, args[1]); ok && s.getT("pending") != nil {
					for _, v := range vs {
						if v.canon() == s.getT("pending") {
							s.del("pending")
						}
					}
				}
			}
			if len(callees) > 0 && pkgName(callees[0]) == "protocol" || strings.HasPrefix(name, "io.") || name == "builtin.append" {
				for _, a := range args {
					x.noteCount(s, a)
				}
			}
			return CallAction{}
		}
		x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
			x.noteCount(s, cond)
			for cond.op == "not" {
				cond, truth = cond.args[0], !truth
			}
			if cond.op != "cmp" {
				return
			}
			l, q := cond.args[0].canon(), cond.args[1].canon()
			isNum := func(t *Term) bool { return t.op == "pure" && t.aux == "parse#0" }
			switch {
			case cond.aux == "<" && !truth && isNum(q):
				s.setT("arr", q)
			case cond.aux == "<" && truth && isNum(l):
				s.setT("arr", l)
			case cond.aux == "==" && truth && isNum(q):
				s.setT("arr", q)
			case cond.aux == "==" && truth && isNum(l) && !q.isConst():
				s.setT("arr", l)
			case cond.aux == "<" && !truth && q.op == "iter":
				s.set("down", "1")
			case cond.aux == "==" && truth && l.op == "iter":
				s.set("down", "1")
			}
		}
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if e := s.getT("pending"); e != nil && addr.op == "elemaddr" && val.canon() == e && addr.args[0].op != "alloc" {
				s.del("pending")
			}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if isNested(c) && len(callees) > 0 && x.onStack(s, callees[0]) && len(res) == 2 {
				if s.get("nested"+fmt.Sprint(len(s.frames))) == "" {
					s.setT("pending", res[0].canon())
					s.setT("pendingerr", res[1])
					s.set("elems", "1")
				}
			}
			if n := libName(c.Common()); strings.HasPrefix(n, "(*bufio.Reader).Read") || n == "io.ReadFull" || n == "io.CopyN" || n == "io.ReadAtLeast" || n == "io.ReadAll" {
				r.site("read", p.instrPos(c))
				s.setT("readerr", res[len(res)-1])
				s.setT("readtext", res[0])
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of", label)
			if x.Nilness(s, res[1]) == 2 {
				return
			}
			if e := s.getT("readerr"); e != nil && x.Nilness(s, e) == 2 {
				r.failPath(label+" read error", where, s.path(), "an object is given although a read has failed")
			}
			ok := res[0].canon().any(func(u *Term) bool { return u.op == "made" })
			if !ok && x.Nilness(s, res[1]) == 1 {
				r.failPath(label+" no object", where, s.path(), "no object is given although no error is")
			}
			if !ok && x.Nilness(s, res[1]) == 0 && x.Nilness(s, res[0]) == 1 && !res[1].any(func(u *Term) bool { return u.op == "pure" && u.aux == "parse#1" }) {
				r.failPath(label+" no object", where, s.path(), "no object is given although no error may be")
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	r.min("object made", 7)
	r.min("end of", 2)
	r.min("read", 2)
}

// keepsText checks that what is read and put into a buffer stays in it, unchanged, until the
// text of the buffer is taken.
func (x *Exec) keepsText(s *State, r *Report, c ssa.CallInstruction, name string, args []*Term) {
	at := x.p.instrPos(c)
	i := strings.LastIndex(name, ").")
	if i < 0 || len(args) == 0 {
		return
	}
	m, recv := name[i+2:], name[:i]
	if m == "ReadRune" && (strings.Contains(recv, "bufio.") || strings.Contains(recv, "io.")) {
		r.failPath("runes", at, s.path(), "what is read is taken as UTF-8 characters and not as bytes")
		return
	}
	if recv != "(*bytes.Buffer" && recv != "(*strings.Builder" {
		return
	}
	b := args[0].canon()
	kept := s.getT("filled")
	cc := c.Common()
	switch m {
	case "Write", "WriteString", "WriteByte", "WriteRune":
		if m == "WriteRune" {
			if v, ok := args[1].intVal(); !ok || v < 0 || v > 0x7f {
				r.failPath("runes", at, s.path(), "a byte that is read is kept as a UTF-8 character")
			}
		}
		if cv, ok := cc.Args[1].(*ssa.Convert); ok {
			if t, ok := cv.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
				r.failPath("runes", at, s.path(), "a byte that is read is kept as a UTF-8 character")
			}
		}
		if t := s.getT("readtext"); t != nil && args[1].mentions(t.canon()) {
			r.site("text kept", at)
			if kept != nil && kept != b {
				r.failPath("text lost", at, s.path(), "text that was read before this is left out of what it is put together with")
			}
			s.setT("filled", b)
		}
	case "String", "Bytes":
		if kept == b {
			s.del("filled")
		}
	case "Reset", "Truncate", "Next", "ReadByte", "UnreadByte":
		if kept == b {
			r.failPath("text lost", at, s.path(), "text that was read is dropped before it is used")
		}
	}
}

// noteCount remembers sums of an announced length and a constant the path deals with.
func (x *Exec) noteCount(s *State, t *Term) {
	t.any(func(u *Term) bool {
		if u.op == "bin" && (u.aux == "+" || u.aux == "-") {
			if _, ok := u.args[1].intVal(); ok && u.args[0].canon().op == "pure" && u.args[0].canon().aux == "parse#0" {
				old := s.getT("count")
				if old == nil {
					s.setT("count", x.tp.mk("set", "", nil, u))
				} else if !old.mentions(u) {
					s.setT("count", x.tp.mk("set", "", nil, append(append([]*Term{}, old.args...), u)...))
				}
			}
		}
		return false
	})
}

// constants lists what was added to n.
func (t *Term) constants(n *Term) map[int64]bool {
	out := map[int64]bool{}
	if t == nil {
		return out
	}
	for _, u := range t.args {
		if u.args[0].canon() == n {
			if v, ok := u.args[1].intVal(); ok && u.aux == "+" {
				out[v] = true
			} else if ok {
				out[-v] = true
			}
		}
	}
	return out
}

// ---- C10 ----

func init() {
	register("C10", "input cannot exhaust the parser", ruleParseBound)
}

func ruleParseBound(p *Prog, r *Report) {
	r.rule("Every function of the parser that can call itself, directly or through others, is followed on every path. In every cycle of such calls there must be one before which the path knows that a nesting depth is below a constant, and that depth must have been raised before the call, or be passed on raised; a depth kept in a field is brought back to what it was on every way out. From Parse and ReadObject on, no buffer, slice or channel is made with a size that comes from a number in the input, unless the path knows an upper limit for it.")
	roots := p.impls("protocol", "RESPReader", "ReadObject")
	if f := p.fn("protocol", "Parse"); f != nil {
		roots = append(roots, f)
	}
	// the functions that can call themselves, directly or not
	own := map[*ssa.Function]bool{}
	for f := range p.reach(true, roots...) {
		if pkgName(f) != "protocol" {
			continue
		}
		for _, e := range p.edges(f) {
			if pkgName(e.To) == "protocol" && p.reach(true, e.To)[f] && !own[f] {
				own[f] = true
				r.site("function that calls itself", fname(f))
			}
		}
	}
	entry := map[*ssa.Function]bool{}
	for _, f := range roots {
		entry[f] = true
	}
	for _, f := range sortedFuncs(own) {
		if !entry[f] {
			roots = append(roots, f)
		}
	}
	type freeCall struct {
		at, in string
		path   []string
	}
	free := map[[2]*ssa.Function]freeCall{} // calls among them which no limit stands before
	usesLimit := map[*ssa.Function]bool{}   // takes the depth as a parameter
	for f := range own {
		for _, pa := range f.Params {
			if isIntType(pa.Type()) {
				usesLimit[f] = true
			}
		}
	}
	for _, root := range roots {
		root := root
		x := NewExec(p)
		x.Depth = 12
		x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "protocol" && pkgName(f) != "util" }
		label := fname(root)
		where := p.pos(root.Pos())
		limited := func(s *State, n *Term) bool {
			for t, f := range s.facts {
				if t.op != "cmp" || t.aux != "<" || f.truth == 0 {
					continue
				}
				if _, ok := t.args[1].intVal(); ok && f.truth == 1 && t.args[0].canon() == n.canon() {
					return true
				}
				if _, ok := t.args[0].intVal(); ok && f.truth == 2 && t.args[1].canon() == n.canon() {
					return true
				}
			}
			return false
		}
		sized := func(x *Exec, s *State, n *Term, at string) {
			n.any(func(u *Term) bool {
				if u.op == "pure" && u.aux == "parse#0" && !limited(s, u) && !limited(s, n) {
					r.failPath("size at "+label, at, s.path(), "memory is set aside for a number of elements that only the input announces: a few bytes can exhaust it")
					return true
				}
				return false
			})
		}
		raised := func(t *Term) (*Term, int64) {
			t = t.canon()
			if t.op == "bin" && (t.aux == "+" || t.aux == "-") {
				if v, ok := t.args[1].intVal(); ok && t.aux == "+" {
					return t.args[0].canon(), v
				} else if ok {
					return t.args[0].canon(), -v
				}
			}
			return t, 0
		}
		guarded := func(s *State, args []*Term) bool {
			for t, fa := range s.facts {
				if t.op != "cmp" || t.aux != "<" || fa.truth == 0 {
					continue
				}
				var d *Term
				if _, k := t.args[1].intVal(); k && fa.truth == 1 {
					d, _ = raised(t.args[0])
				} else if _, k := t.args[0].intVal(); k && fa.truth == 2 {
					d, _ = raised(t.args[1])
				} else {
					continue
				}
				if s.get("raised "+d.String()) == "1" {
					return true
				}
				for _, a := range args {
					if b, k := raised(a); b == d && k > 0 {
						return true
					}
				}
			}
			return false
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.MakeSlice:
				r.site("size", p.instrPos(in))
				sized(x, s, x.eval(s, i.Len), p.instrPos(in))
				sized(x, s, x.eval(s, i.Cap), p.instrPos(in))
			case *ssa.MakeMap:
				if i.Reserve != nil {
					sized(x, s, x.eval(s, i.Reserve), p.instrPos(in))
				}
			case *ssa.MakeChan:
				sized(x, s, x.eval(s, i.Size), p.instrPos(in))
			}
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			switch name := libName(cc); name {
			case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
				return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "parse", args[:1])}
			case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "bufio.NewReaderSize", "strings.Repeat", "bytes.Repeat", "(*bufio.Reader).Peek":
				sized(x, s, args[len(args)-1], p.instrPos(c))
			}
			for _, f := range callees {
				if !own[f] {
					continue
				}
				if own[root] {
					r.site("recursion", p.instrPos(c))
					e := [2]*ssa.Function{root, f}
					if !guarded(s, args) {
						if _, ok := free[e]; !ok {
							free[e] = freeCall{p.instrPos(c), fname(c.Parent()), s.path()}
						}
					}
					// a depth that is handed on starts over
					for _, a := range args {
						if v, ok := a.intVal(); ok && isIntType(a.typ) && usesLimit[f] {
							r.failPath("depth at "+fname(c.Parent()), p.instrPos(c), s.path(), fmt.Sprintf("the nesting depth starts again at %d for an element: it limits nothing", v))
						}
					}
				}
				return CallAction{Kind: actOpaque}
			}
			return CallAction{}
		}
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op != "fieldaddr" {
				return
			}
			b, k := raised(val)
			if k == 0 || !isIntType(val.typ) {
				return
			}
			if k > 0 {
				s.set("raised "+b.String(), "1")
			}
			key := "delta " + addr.String()
			s.set(key, fmt.Sprint(atoi(s.get(key))+k))
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			r.site("end of", label)
			if !own[root] {
				return
			}
			for k, v := range s.ts {
				if strings.HasPrefix(k, "delta ") && v.s != "0" {
					r.failPath("depth after "+label, where, s.path(), "the nesting depth is not what it was when an object has been read: after enough requests every array is refused, or none is")
				}
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	// no cycle of calls without a limit
	for e, c := range free {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			if f == e[0] {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for g := range free {
				if g[0] == f && walk(g[1]) {
					return true
				}
			}
			return false
		}
		if walk(e[1]) {
			r.failPath("depth at "+c.in, c.at, c.path, "the parser calls itself without a limit for the nesting: input that is nested deep enough ends the process")
		}
	}
	r.min("end of", 2)
}
