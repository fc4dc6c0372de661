package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C33", "the log is read as it was written", ruleLogFormat)
	register("C29", "a replica gets the records of the database file", ruleTransfer)
}

func isUnmarshal(n string) bool {
	return strings.HasSuffix(n, "proto.Unmarshal") || strings.HasSuffix(n, "proto.UnmarshalOptions).Unmarshal")
}

// ---- C33 ----

func ruleLogFormat(p *Prog, r *Report) {
	r.rule("PackLog is followed on every path: what it returns without an error is, however it is put together, the length of the marshalled record in 4 bytes (little-endian) and the marshalled record, and the marshalling has succeeded. ParseLog is followed on every path: it reads 4 bytes and then exactly as many as they announce, all from one reader, goes on only after a complete read, decodes exactly the bytes read, and appends each record that could be decoded once to the list it returns. It reports success only when the data ends where a record ends; when it ends within a record it reports an incomplete log, together with the records before it. ReadExactBytes is followed too: every byte read is kept once, in order.")
	pack := p.fn("log", "PackLog")
	parse := p.fn("log", "ParseLog")
	if pack == nil || parse == nil {
		fatalf("lost anchor: log.PackLog and log.ParseLog")
	}
	x := NewExec(p)
	x.Depth = 12
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "log" && pkgName(f) != "util" }
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if n := libName(c.Common()); isMarshal(n) {
			r.site("record marshalled", p.instrPos(c))
			v := args[len(args)-1]
			if v.canon() != x.Param(pack.Params[0]).canon() {
				r.failPath("marshalled", p.instrPos(c), s.path(), "something else than the record given is marshalled")
			}
			rs := c.Common().Signature().Results()
			m := x.fresh(s, "message", "", c, rs.At(0).Type())
			e := x.fresh(s, "marshalerr", "", c, errType())
			s.setT("msg", m)
			s.setT("msgerr", e)
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{m, e}}
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", "PackLog")
		if x.Nilness(s, res[1]) == 2 || s.getT("msgerr") != nil && res[1].canon() == s.getT("msgerr").canon() && x.Nilness(s, res[1]) == 0 {
			return
		}
		at := p.pos(pack.Pos())
		m := s.getT("msg")
		if m == nil {
			r.failPath("packed nothing", at, s.path(), "no error is reported although no record was marshalled")
			return
		}
		if x.Nilness(s, s.getT("msgerr")) != 1 {
			r.failPath("packed failure", at, s.path(), "a record is packed although its marshalling may have failed")
		}
		want := x.textOf(x.le32(x.tp.mk("len", "", types.Typ[types.Int], m)), m)
		if got := x.bytesOf(s, res[0]); got != want {
			r.failPath("packed form", at, s.path(), "the packed record is not its length in 4 bytes (little-endian) and the marshalled record: it is %s, not %s", got, want)
		}
	}
	x.Run(pack, nil, nil)
	r.exec(x)

	x = NewExec(p)
	x.Depth = 12
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "log" }
	at := p.pos(parse.Pos())
	lost := func(x *Exec, s *State, at string) {
		if s.getT("rec") != nil && x.Nilness(s, s.getT("recerr")) != 2 {
			r.failPath("record lost", at, s.path(), "a record that was read and decoded is not part of the list")
		}
		if s.get("ph") == "body" && s.get("decoded") == "" && x.Nilness(s, s.getT("berr")) != 2 {
			r.failPath("record undecoded", at, s.path(), "a record that was read completely is not decoded")
		}
		s.del("rec")
		s.del("recerr")
		s.del("decoded")
	}
	fm := &framed{p: p, r: r, what: "a record", before: lost}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if a, ok := fm.read(x, s, c, callees, args); ok {
			return a
		}
		n := libName(c.Common())
		if isUnmarshal(n) {
			r.site("record decoded", p.instrPos(c))
			if s.get("ph") != "body" || !fm.bodyOK(x, s) {
				r.failPath("decoded early", p.instrPos(c), s.path(), "a record is decoded although it may not have been read completely")
			} else if b := s.getT("bbytes"); x.bytesOf(s, args[len(args)-2]) != b {
				r.failPath("decoded other", p.instrPos(c), s.path(), "not exactly the bytes of the record are decoded")
			}
			e := x.fresh(s, "unmarshalerr", "", c, errType())
			s.set("decoded", "1")
			s.setT("rec", args[len(args)-1].canon())
			s.setT("recerr", e)
			return CallAction{Kind: actOpaque, Results: []*Term{e}}
		}
		if n == "builtin.append" && len(args) == 2 {
			if vs, ok := x.variadic(s, args[1]); ok {
				for _, v := range vs {
					if !p.isNamedType(v.typ, "log", "VertexLog") {
						continue
					}
					r.site("record kept", p.instrPos(c))
					switch {
					case s.getT("rec") == nil || s.getT("rec") != v.canon():
						r.failPath("other record", p.instrPos(c), s.path(), "a record is appended that was not just read, or twice")
					case x.Nilness(s, s.getT("recerr")) != 1:
						r.failPath("bad record", p.instrPos(c), s.path(), "a record is appended although it may not have been decoded")
					default:
						s.del("rec")
						s.del("recerr")
					}
					s.set("kept", "1")
				}
			}
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", "ParseLog")
		lost(x, s, at)
		empty := s.get("kept") != "" && res[0].isNil()
		if x.Nilness(s, res[1]) != 2 {
			if s.get("ph") != "hdr" || !fm.nothing(x, s) {
				r.failPath("early end", at, s.path(), "the log is reported to be complete although its end may be within a record, or not reached")
			}
			if empty {
				r.failPath("list", at, s.path(), "the records read are not returned")
			}
			return
		}
		if fm.torn(x, s, map[string]string{"hdr": "h", "body": "b"}[s.get("ph")]) {
			if empty {
				r.failPath("list of an incomplete log", at, s.path(), "the records before an incomplete one are not returned")
			}
			if !res[1].any(func(u *Term) bool { return u.op == "global" && strings.HasSuffix(u.aux, "ErrIncompleteLog") }) {
				r.failPath("incomplete", at, s.path(), "a log that ends within a record is not reported as incomplete")
			}
		}
	}
	x.Run(parse, nil, nil)
	r.exec(x)
	exactBytes(p, r)
	completeSize(p, r)
	r.min("record marshalled", 1)
	r.min("record decoded", 1)
	r.min("record kept", 1)
	r.min("read of a record", 2)
}

// completeSize follows the function that tells how many bytes are complete records.
func completeSize(p *Prog, r *Report) {
	f := p.pkg("log").Func("CompleteSize")
	if f == nil || f.Blocks == nil {
		return
	}
	at := p.pos(f.Pos())
	// the variables the result is made of
	acc := map[*ssa.Phi]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		switch v := v.(type) {
		case *ssa.Phi:
			if !acc[v] {
				acc[v] = true
				for _, e := range v.Edges {
					walk(e)
				}
			}
		case *ssa.BinOp:
			walk(v.X)
			walk(v.Y)
		case *ssa.Convert:
			walk(v.X)
		}
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			walk(ret.Results[0])
		}
	}
	loopHead := func(b *ssa.BasicBlock) bool {
		for _, q := range b.Preds {
			if b.Dominates(q) {
				return true
			}
		}
		return false
	}
	x := NewExec(p)
	x.Depth = 12
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "log" }
	fm := &framed{p: p, r: r, what: "a record of a file", before: func(x *Exec, s *State, at string) { s.del("counted") }}
	ref := func(s *State, phi *ssa.Phi) lin {
		if t := s.getT("ref " + phi.Name()); t != nil {
			return linOf(t)
		}
		return lin{m: map[*Term]int64{}}
	}
	grown := func(s *State) lin {
		if s.get("ph") == "body" && fm.bodyOK(x, s) && s.get("counted") == "" {
			l := linOf(x.unle32(s.getT("hbytes")))
			l.c += 4
			return l
		}
		return lin{m: map[*Term]int64{}}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if a, ok := fm.read(x, s, c, callees, args); ok {
			return a
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	x.H.Phi = func(x *Exec, s *State, phi *ssa.Phi, in *Term) {
		if !acc[phi] || !isInteger(phi.Type()) || !loopHead(phi.Block()) || phi.Parent() != f {
			return
		}
		r.site("size of complete records", p.pos(phi.Pos()))
		want := ref(s, phi).plus(grown(s), 1)
		if d := linOf(in).plus(want, -1); !d.zero() {
			r.failPath("size counted", at, s.path(), "the size of the complete records becomes %s where it has to be %s: it grows exactly by a record that was read completely, its length in 4 bytes included", linOf(in), want)
		}
	}
	x.H.Block = func(x *Exec, s *State, b *ssa.BasicBlock) bool {
		if b.Parent() == f && loopHead(b) {
			for _, in := range b.Instrs {
				if phi, ok := in.(*ssa.Phi); ok && acc[phi] {
					s.setT("ref "+phi.Name(), x.eval(s, phi))
					s.set("counted", "1")
				}
			}
		}
		return true
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", "CompleteSize")
		if x.Nilness(s, res[1]) != 2 {
			k := map[string]string{"hdr": "h", "body": "b"}[s.get("ph")]
			if !fm.eof(x, s, k) && !fm.torn(x, s, k) {
				r.failPath("size early", at, s.path(), "the size of the complete records is given without an error although neither the end of the file nor an incomplete record was met")
			}
		}
		var phi *ssa.Phi
		for q := range acc {
			if loopHead(q.Block()) && s.getT("ref "+q.Name()) != nil {
				if phi != nil {
					phi = nil
					break
				}
				phi = q
			}
		}
		if phi == nil {
			r.site("not decided", "size of complete records")
			return
		}
		want := ref(s, phi).plus(grown(s), 1)
		if d := linOf(res[0]).plus(want, -1); x.Nilness(s, res[1]) != 2 && !d.zero() {
			r.failPath("size given", at, s.path(), "the size given is %s, that of the complete records is %s", linOf(res[0]), want)
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

// exactBytes follows ReadExactBytes.
func exactBytes(p *Prog, r *Report) {
	f := p.fn("util", "ReadExactBytes")
	if f == nil {
		return
	}
	x := NewExec(p)
	x.Depth = 12
	at := p.pos(f.Pos())
	count := x.Param(f.Params[1])
	lost := func(x *Exec, s *State, at string) {
		if b := s.getT("byte"); b != nil && x.Nilness(s, s.getT("berr")) != 2 {
			r.failPath("byte lost", at, s.path(), "a byte that was read is not kept")
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		n := libName(c.Common())
		switch {
		case strings.HasSuffix(n, ".ReadByte"):
			lost(x, s, p.instrPos(c))
			r.site("byte read", p.instrPos(c))
			b := x.fresh(s, "byte", "", c, types.Typ[types.Uint8])
			e := x.fresh(s, "byteerr", "", c, errType())
			s.setT("byte", b)
			s.setT("berr", e)
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{b, e}}
		case n == "builtin.append" && len(args) == 2:
			if vs, ok := x.variadic(s, args[1]); ok {
				for _, v := range vs {
					if b := s.getT("byte"); b != nil && v.canon() == b {
						if x.Nilness(s, s.getT("berr")) != 1 {
							r.failPath("bad byte", p.instrPos(c), s.path(), "a byte is kept although its read may have failed")
						}
						s.del("byte")
					} else {
						r.failPath("other byte", p.instrPos(c), s.path(), "a byte is kept that was not just read, or twice")
					}
				}
			}
		}
		return CallAction{}
	}
	x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
		if b := s.getT("byte"); b != nil && addr.op == "elemaddr" && addr.args[0].canon().op != "alloc" && val.canon() == b && x.Nilness(s, s.getT("berr")) == 1 {
			s.del("byte")
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		for cond.op == "not" {
			cond, truth = cond.args[0], !truth
		}
		if cond.op == "cmp" && cond.args[0].canon() != cond.args[1].canon() {
			down := func(t *Term) bool { v, ok := t.intVal(); return ok && v == 0 }
			switch {
			case cond.aux == "<" && !truth && (cond.args[1].canon() == count || down(cond.args[0])),
				cond.aux == "==" && truth && (cond.args[1].canon() == count || cond.args[0].canon() == count || down(cond.args[1])):
				s.set("all", "1")
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", "ReadExactBytes")
		if x.Nilness(s, res[1]) == 2 {
			return
		}
		lost(x, s, at)
		if e := s.getT("berr"); e != nil && x.Nilness(s, e) == 2 {
			r.failPath("exact failure", at, s.path(), "no error is reported although a read has failed")
		}
		lib := res[1].any(func(u *Term) bool { return u.op == "call" })
		if s.get("all") == "" && !lib {
			r.failPath("exact count", at, s.path(), "success is reported although the number of bytes asked for may not be reached")
		}
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

// ---- C29 ----

func ruleTransfer(p *Prog, r *Report) {
	r.rule("The goroutine of the master that serves a replica is followed on every path, the database file's methods inlined. What it sends must be the size of one file in 4 bytes (little-endian) and then, only when those were sent, that file from its beginning, or both about the same bytes; nothing else, and nothing after a failed step. The file sent is a copy made by this goroutine of the file whose path the master was given, opened after a flush, and limited to a size that was taken under the lock of the database file after flushing it, or made while holding that lock. Receive of the replica is followed on every path: 4 bytes and exactly as many as they announce are read from one reader, and the records decoded from exactly these bytes are returned; a transfer that is cut off gives an error.")
	roots := p.replicaRoots()
	for _, root := range roots {
		p.sendFile(r, root)
	}
	for _, f := range p.impls("replication", "Replica", "Receive") {
		p.receiveFile(r, f)
	}
	r.min("sent", 1)
	r.min("end of", 2)
	r.min("copy of the database file", 1)
	r.min("read of a transfer", 2)
}

// replicaRoots lists the functions that run in a goroutine and send the database file.
func (p *Prog) replicaRoots() []*ssa.Function {
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if pkgName(f) != "replication" || f.Blocks == nil || !p.isSpawned(f) {
			continue
		}
		sends := false
		for g := range p.reach(false, f) {
			if pkgName(g) != "replication" {
				continue
			}
			for _, c := range callsOf(g) {
				if n := libName(c.Common()); n == "io.Copy" || n == "io.CopyN" || n == "(net.Conn).Write" || n == "encoding/binary.Write" {
					sends = true
				}
			}
		}
		if sends {
			roots = append(roots, f)
		}
	}
	if len(roots) == 0 {
		fatalf("lost anchor: no goroutine of package replication sends the database file")
	}
	return roots
}

func (p *Prog) sendFile(r *Report, root *ssa.Function) {
	x := NewExec(p)
	x.Depth = 12
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != "replication" && pkgName(f) != "log" }
	label := fname(root)
	isConn := func(t *Term) bool {
		t = t.canon()
		if t.op == "reader" { // a buffered writer
			t = t.args[0].canon()
		}
		return t.typ != nil && isRawConn(t.typ) && t.op != "call"
	}
	fail := func(s *State, c ssa.CallInstruction, key, format string, a ...interface{}) {
		r.failPath(key+" in "+label, p.instrPos(c), s.path(), format, a...)
	}
	pend := func(s *State, e *Term) { s.setT("err "+e.String(), e) }
	steps := func(x *Exec, s *State, c ssa.CallInstruction) {
		for k, v := range s.ts {
			if strings.HasPrefix(k, "err ") && x.Nilness(s, v.t) != 1 {
				fail(s, c, "failed step", "data is sent although a step before may have failed")
				return
			}
		}
	}
	// what a number stands for: "size F", "len D"
	size := func(x *Exec, s *State, n *Term) (file, data *Term) {
		n = stripConv(n)
		switch {
		case n.op == "pure" && n.aux == "filesize":
			if s.get("whole "+n.args[1].String()) != "" {
				return n.args[1], nil
			}
		case n.op == "copied":
			return n.args[0], nil
		case n.op == "len":
			return nil, x.bytesOf(s, n.args[0])
		}
		return nil, nil
	}
	send := func(x *Exec, s *State, c ssa.CallInstruction, content, file, limit *Term, res []*Term) {
		r.site("sent", p.instrPos(c))
		steps(x, s, c)
		switch s.get("sent") {
		case "":
			if content == nil || len(content.args) == 0 || content.args[0].op != "le32" || content.args[0].aux != "" {
				fail(s, c, "length", "the transfer does not begin with a length in 4 bytes (little-endian)")
				s.set("sent", "bad")
				return
			}
			f, d := size(x, s, content.args[0].args[0])
			if f == nil && d == nil {
				fail(s, c, "length", "the length sent is not known to be the size of what is sent after it")
				s.set("sent", "bad")
				return
			}
			if len(content.args) > 1 {
				if d == nil || x.textOf(content.args[1:]...) != d {
					fail(s, c, "length", "the length sent is not the size of what is sent after it")
				}
				s.set("sent", "body")
				return
			}
			if f != nil {
				s.setT("sendfile", f)
			} else {
				s.setT("senddata", d)
			}
			s.set("sent", "len")
		case "len":
			s.set("sent", "body")
			if f := s.getT("sendfile"); f != nil {
				if file == nil || file != f && s.getT("path "+file.String()) == nil || file != f && s.getT("path "+file.String()) != s.getT("path "+f.String()) {
					fail(s, c, "file", "the file sent is not the one whose size was sent before")
				} else if s.get("off "+file.String()) != "0" {
					fail(s, c, "offset", "the file is not sent from its beginning")
				}
				if limit != nil {
					if g, _ := size(x, s, limit); g != f {
						fail(s, c, "limit", "not the whole file is sent")
					}
				}
			} else if d := s.getT("senddata"); content == nil || content != d {
				fail(s, c, "data", "not the bytes whose number was sent before are sent")
			}
		case "body":
			fail(s, c, "more", "more is sent after the announced data")
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		name := libName(cc)
		rs := cc.Signature().Results()
		res := func(ts ...*Term) CallAction { return CallAction{Kind: actOpaque, Pure: true, Results: ts} }
		errT := func() *Term {
			e := x.fresh(s, "steperr", "", c, errType())
			pend(s, e)
			return e
		}
		source := func(t *Term) (content, file, limit *Term) {
			t = t.canon()
			for t.op == "limited" || t.op == "reader" {
				if t.op == "limited" {
					limit = t.args[1]
				}
				t = t.args[0].canon()
			}
			if b := s.getT(bufKey(t)); b != nil {
				return b, nil, limit
			}
			return nil, t, limit
		}
		switch name {
		case "bufio.NewWriter", "bufio.NewWriterSize":
			if isConn(args[0]) {
				t := x.fresh(s, "reader", "", c, rs.At(0).Type(), args[0].canon())
				x.setNil(s, t, 2)
				return res(t)
			}
		case "os.Create", "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile", "os.Open":
			f := x.fresh(s, "osfile", "", c, rs.At(0).Type())
			e := errT()
			s.set("off "+f.String(), "0")
			fresh := name != "os.Open" && name != "os.OpenFile"
			if name == "os.OpenFile" {
				if v, ok := args[1].intVal(); ok && v&0x40 != 0 { // O_CREATE
					fresh = true
				}
			}
			if name != "os.CreateTemp" && name != "io/ioutil.TempFile" {
				s.setT("path "+f.String(), args[0].canon())
			}
			if fresh {
				s.set("own "+f.String(), "1")
				break
			}
			ours := false
			for k := range s.ts {
				if strings.HasPrefix(k, "own ") && s.getT("path "+strings.TrimPrefix(k, "own ")) == args[0].canon() {
					ours = true
				}
			}
			if ours {
				return res(f, e)
			}
			r.site("database file opened", p.instrPos(c))
			if x.fieldBase(args[0]) != "replication.master.filePath" && !strings.HasPrefix(x.fieldBase(args[0]), "replication.") {
				fail(s, c, "source", "another file than the database file is opened for the replica")
			}
			if s.get("flushed") == "" {
				fail(s, c, "flush", "the database file is opened before its buffer was flushed: the newest records are missing")
			}
			return res(f, e)
		case "(*os.File).Stat":
			e := errT()
			f := args[0].canon()
			i := x.fresh(s, "fileinfo", "", c, rs.At(0).Type(), f)
			x.setNil(s, i, 2)
			if s.get("filled "+f.String()) != "" {
				s.set("whole "+f.String(), "1")
			}
			if s.get("lockflushed") != "" {
				s.setT("safeinfo", i)
			}
			return res(i, e)
		case "(io/fs.FileInfo).Size", "(os.FileInfo).Size":
			i := args[0].canon()
			if i.op == "fileinfo" {
				return res(x.tp.mk("pure", "filesize", types.Typ[types.Int64], i, i.args[0]))
			}
		case "(*os.File).Seek":
			e := errT()
			o, ok1 := args[1].intVal()
			w, ok2 := args[2].intVal()
			s.set("off "+args[0].canon().String(), "?")
			if ok1 && ok2 && o == 0 && w == 0 {
				s.set("off "+args[0].canon().String(), "0")
			}
			return res(x.fresh(s, "seeked", "", c, types.Typ[types.Int64]), e)
		case "(*bufio.Writer).Flush":
			if isConn(args[0]) {
				return res(nil)
			}
			s.set("flushed", "1")
			if s.get("locked") != "" {
				s.set("lockflushed", "1")
			}
			return res(errT())
		case "(*sync.RWMutex).Lock":
			if strings.HasPrefix(pkgName(c.Parent()), "log") {
				s.set("locked", "1")
			}
		case "(*sync.RWMutex).Unlock":
			if strings.HasPrefix(pkgName(c.Parent()), "log") {
				s.del("locked")
				s.del("lockflushed")
			}
		case "io.Copy", "io.CopyN", "io.CopyBuffer":
			content, file, limit := source(args[1])
			if name == "io.CopyN" {
				limit = args[2]
			}
			e := errT()
			if isConn(args[0]) {
				s.del("err " + e.String())
				send(x, s, c, content, file, limit, nil)
				pend(s, e)
				return res(x.fresh(s, "sentn", "", c, types.Typ[types.Int64]), e)
			}
			dst := args[0].canon()
			n := x.fresh(s, "copied", "", c, types.Typ[types.Int64], dst)
			r.site("copy of the database file", p.instrPos(c))
			if s.get("own "+dst.String()) == "" && !isBuf(dst) {
				fail(s, c, "copy", "the database file is copied into a file that is not this goroutine's own")
			}
			safe := s.get("lockflushed") != ""
			if l := limit; l != nil {
				l = stripConv(l)
				safe = safe || l.op == "pure" && l.aux == "filesize" && s.getT("safeinfo") == l.args[0]
			}
			if !safe {
				fail(s, c, "torn copy", "the copy is not limited to what was complete in the database file at a moment: the engine can append while it is made")
			}
			s.set("filled "+dst.String(), "1")
			s.set("off "+dst.String(), "end")
			if isBuf(dst) {
				s.setT(bufKey(dst), x.textOf(n))
			}
			return res(n, e)
		case "(net.Conn).Write", "(*net.TCPConn).Write", "(io.Writer).Write", "(*bufio.Writer).Write":
			if isConn(args[0]) {
				send(x, s, c, x.bytesOf(s, args[1]), nil, nil, nil)
				return res(x.fresh(s, "sentn", "", c, types.Typ[types.Int]), errT())
			}
		case "encoding/binary.Write":
			if isConn(args[0]) {
				v := unbox(args[2])
				var content *Term
				if isLittle(args[1]) && v.typ != nil && is32(v.typ) {
					content = x.textOf(x.le32(v))
				}
				send(x, s, c, content, nil, nil, nil)
				return res(errT())
			}
		}
		switch name {
		case "os.Create", "os.CreateTemp", "io/ioutil.TempFile", "os.OpenFile":
			f := x.fresh(s, "osfile", "", c, rs.At(0).Type())
			for k, v := range s.ts {
				if strings.HasPrefix(k, "err ") && v.t.op == "steperr" && v.t.site == ssa.Instruction(c) {
					return res(f, v.t)
				}
			}
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		for cond.op == "not" {
			cond, truth = cond.args[0], !truth
		}
		if cond.op == "cmp" && s.get("sent") == "len" {
			a, b := stripConv(cond.args[0]).op == "sentn", stripConv(cond.args[1]).op == "sentn"
			if cond.aux == "==" && !truth && (a || b) || cond.aux == "<" && truth && a || cond.aux == "<" && !truth && b {
				s.set("short", "1") // not everything of the length was sent
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", label)
		if s.get("sent") == "len" {
			for k, v := range s.ts {
				if strings.HasPrefix(k, "err ") && x.Nilness(s, v.t) == 2 {
					return
				}
			}
			if s.get("short") != "" {
				return
			}
			r.failPath("unfinished in "+label, p.pos(root.Pos()), s.path(), "the length is sent, but not the data")
		}
	}
	x.Run(root, nil, nil)
	r.exec(x)
}

func (p *Prog) receiveFile(r *Report, f *ssa.Function) {
	x := NewExec(p)
	x.Depth = 12
	x.Opaque = func(g *ssa.Function) bool { return pkgName(g) != "replication" }
	label := fname(f)
	at := p.pos(f.Pos())
	fm := &framed{p: p, r: r, what: "a transfer"}
	parse := p.fn("log", "ParseLog")
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if a, ok := fm.read(x, s, c, callees, args); ok {
			return a
		}
		if len(callees) == 1 && callees[0] == parse {
			r.site("transfer decoded", p.instrPos(c))
			in := args[0].canon()
			switch b := s.getT(bufKey(in)); {
			case s.get("ph") != "body" || !fm.bodyOK(x, s):
				r.failPath("decoded early in "+label, p.instrPos(c), s.path(), "the records are decoded although the data may not have been received completely")
			case b == nil || b != s.getT("bbytes"):
				r.failPath("decoded other in "+label, p.instrPos(c), s.path(), "the records are not decoded from exactly the bytes received")
			}
			rs := c.Common().Signature().Results()
			l := x.fresh(s, "logs", "", c, rs.At(0).Type())
			e := x.fresh(s, "logserr", "", c, errType())
			s.setT("logs", l)
			s.setT("logserr", e)
			return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{l, e}}
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", label)
		if x.Nilness(s, res[1]) == 2 {
			return
		}
		if l := s.getT("logs"); l != nil {
			if res[0].canon() != l.canon() {
				r.failPath("list in "+label, at, s.path(), "the records received are not returned")
			}
			if e := s.getT("logserr"); res[1].canon() != e.canon() && x.Nilness(s, e) != 1 {
				r.failPath("error in "+label, at, s.path(), "an error of the decoding is not returned")
			}
			return
		}
		// nothing to receive
		if b := s.getT("hbytes"); s.get("ph") == "hdr" && b != nil && fm.headerOK(x, s) {
			n := x.unle32(b)
			if v := s.getT("hnum"); v != nil {
				n = v
			}
			for t, fa := range s.facts {
				if stripConv(t) == n && fa.eq != nil {
					if v, ok := fa.eq.intVal(); ok && v == 0 {
						return
					}
				}
				if t.op == "cmp" && fa.truth != 0 && (stripConv(t.args[0]) == n || stripConv(t.args[1]) == n) {
					zero := x.Truth(s, x.binop(s, token.LSS, x.tp.intT(0), t.args[0], types.Typ[types.Bool])) == 2
					if v, ok := t.args[1].intVal(); ok && v == 0 && t.aux == "==" && fa.truth == 1 || zero || ok && v == 1 && t.aux == "<" && fa.truth == 1 {
						return
					}
					if v, ok := t.args[0].intVal(); ok && v == 0 && t.aux == "<" && fa.truth == 2 {
						return
					}
				}
			}
		}
		r.failPath("success in "+label, at, s.path(), "success is reported although nothing was received")
	}
	x.Run(f, nil, nil)
	r.exec(x)
}

var _ = fmt.Sprint
