package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C30", "the data is rebuilt before the server serves", ruleRebuild)
}

// fileFlags are the flags os.OpenFile was called with, known only when constant.
const (
	oWRONLY = 0x1
	oRDWR   = 0x2
	oCREATE = 0x40
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func ruleRebuild(p *Prog, r *Report) {
	r.rule("Init of the server is followed on every path, down to the calls of the engine, the log package, the replica and the operating system. Before it reports success the configured database file must have been opened for appending, created if it is missing and never truncated on opening, given with its own path to the engine, parsed from its beginning, and every list of records that is not empty handed once to the engine, also when the log is incomplete; an incomplete tail must have been cut off at exactly the end of the last complete record. If a master is configured it must have been asked after that, and the records it sent without an error handed once to the engine. Only an empty setting, or a failure of the very step, excuses a step. The engine is not started before, the rebuilding is not left to another goroutine, and it cannot reach a write of the database file.")
	init := p.impl("network", "Server", "Init")
	serve := p.impl("network", "Server", "Serve")
	build := p.impl("db", "Engine", "BuildFromLog")
	setFile := p.impl("db", "Engine", "SetFile")
	start := p.impl("db", "Engine", "Start")
	receive := p.impl("replication", "Replica", "Receive")
	parse := p.fn("log", "ParseLog")
	complete := p.fn("log", "CompleteSize")
	if parse == nil {
		fatalf("lost anchor: log.ParseLog")
	}
	anchor := map[*ssa.Function]bool{build: true, setFile: true, receive: true, parse: true, start: true, complete: true}
	follow := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool {
		if _, ok := c.(*ssa.Go); ok {
			return false
		}
		for _, g := range p.callees(c) {
			if anchor[g] {
				return true
			}
		}
		switch libName(c.Common()) {
		case "os.OpenFile", "os.Open", "(*os.File).Truncate", "os.Truncate", "net.Dial", "net.DialTimeout":
			return true
		}
		return false
	})
	x := NewExec(p)
	x.Depth = 12
	x.Opaque = func(f *ssa.Function) bool { return anchor[f] || !follow[f] && pkgName(f) != "network" }
	at := p.pos(init.Pos())
	setting := func(t *Term, name string) bool {
		t = t.canon()
		for t.op == "load" || t.op == "chg" || t.op == "text" && len(t.args) == 1 {
			t = t.args[0].canon()
		}
		return (t.op == "fieldaddr" || t.op == "field") && strings.HasSuffix(t.aux, "Config."+name)
	}
	any := func(t *Term, name string) bool {
		return t.any(func(u *Term) bool {
			return (u.op == "fieldaddr" || u.op == "field") && strings.HasSuffix(u.aux, "Config."+name)
		})
	}
	fail := func(s *State, c ssa.CallInstruction, key, format string, a ...interface{}) {
		r.failPath(key, p.instrPos(c), s.path(), format, a...)
	}
	// source of a reader: an opened file, or the content of one
	source := func(s *State, t *Term) *Term {
		for {
			t = t.canon()
			if b := s.getT(bufKey(t)); b != nil && len(b.args) == 1 {
				t = b.args[0]
				continue
			}
			if t.op == "reader" || t.op == "chg" || t.op == "text" && len(t.args) == 1 || t.op == "mi" {
				t = t.args[0]
				continue
			}
			return t
		}
	}
	isOurs := func(s *State, f *Term) bool { return s.get("dbfile "+f.String()) != "" }
	sameFile := func(s *State, a, b *Term) bool { return a == b || isOurs(s, a) && isOurs(s, b) }
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		rs := c.Common().Signature().Results()
		res := func(ts ...*Term) CallAction { return CallAction{Kind: actOpaque, Pure: true, Results: ts} }
		errT := func(step string) *Term {
			e := x.fresh(s, "steperr", "", c, errType())
			s.setT("err "+step, e)
			return e
		}
		for _, g := range callees {
			if (g == build || g == setFile) && s.get("started") != "" {
				fail(s, c, "started early", "the engine is started before the data is rebuilt")
			}
			switch g {
			case start:
				fail(s, c, "blocked", "Init runs the engine itself: it does not return before a stop")
			case setFile:
				r.site("file given to the engine", p.instrPos(c))
				f, path := args[len(args)-2].canon(), args[len(args)-1]
				if !isOurs(s, f) || x.Nilness(s, s.getT("err open")) != 1 {
					fail(s, c, "other file", "the engine is given another file than the database file, or one that may not have been opened")
				} else if s.get("appends "+f.String()) == "" {
					fail(s, c, "open mode", "the file given to the engine was not opened for reading and appending, created if missing: records could be lost or overwrite each other")
				}
				if !setting(path, "DatabaseFile") {
					fail(s, c, "other path", "the engine is given another path than that of the database file")
				}
				s.set("setfile", "1")
			case build:
				l := args[len(args)-1].canon()
				switch {
				case s.getT("logs") != nil && l == s.getT("logs"):
					r.site("records of the file", p.instrPos(c))
					if s.get("built") != "" {
						fail(s, c, "built twice", "the records of the database file are executed twice")
					}
					if s.get("mbuilt") != "" {
						fail(s, c, "order", "the records of the master are executed before those of the database file")
					}
					s.set("built", "1")
				case s.getT("mlogs") != nil && l == s.getT("mlogs"):
					r.site("records of the master", p.instrPos(c))
					if s.get("mbuilt") != "" {
						fail(s, c, "built twice", "the records of the master are executed twice")
					}
					if x.Nilness(s, s.getT("err receive")) != 1 {
						fail(s, c, "bad transfer", "records of a failed transfer are executed")
					}
					s.set("mbuilt", "1")
				default:
					fail(s, c, "other records", "the engine is given other records than those of the database file or the master")
				}
				return CallAction{Kind: actOpaque}
			case receive:
				r.site("master asked", p.instrPos(c))
				l := x.fresh(s, "mlogs", "", c, rs.At(0).Type())
				s.setT("mlogs", l)
				return res(l, errT("receive"))
			}
		}
		switch {
		case len(callees) == 1 && callees[0] == parse:
			r.site("database file parsed", p.instrPos(c))
			f := source(s, args[0])
			switch {
			case f.op == "content":
				if !isOurs(s, f) {
					fail(s, c, "parsed other", "another file than the database file is parsed")
				}
			case !isOurs(s, f):
				fail(s, c, "parsed other", "another file than the database file is parsed")
			case s.get("off "+f.String()) != "0":
				fail(s, c, "parsed part", "the database file is not parsed from its beginning")
			}
			s.set("off "+f.String(), "?")
			l := x.fresh(s, "logs", "", c, rs.At(0).Type())
			s.setT("logs", l)
			return res(l, errT("parse"))
		case len(callees) == 1 && callees[0] == complete && complete != nil:
			f := source(s, args[0])
			n := x.fresh(s, "complete", "", c, rs.At(0).Type(), f)
			s.set("complete ok "+n.String(), "")
			if f.op == "content" || s.get("off "+f.String()) == "0" {
				s.set("whole "+n.String(), "1")
			}
			s.set("off "+f.String(), "?")
			return res(n, errT("complete"))
		}
		name := libName(c.Common())
		switch name {
		case "os.OpenFile", "os.Open", "os.Create":
			r.site("file opened", p.instrPos(c))
			f := x.fresh(s, "osfile", "", c, rs.At(0).Type())
			s.set("off "+f.String(), "0")
			if !any(args[0], "DatabaseFile") {
				return res(f, x.fresh(s, "openerr", "", c, errType()))
			}
			if !setting(args[0], "DatabaseFile") {
				fail(s, c, "other name", "the file opened is not named by the setting, but by something made of it")
			}
			s.set("dbfile "+f.String(), "1")
			fl := int64(-1)
			if name == "os.OpenFile" {
				if v, ok := args[1].intVal(); ok {
					fl = v
				}
			}
			if name == "os.Create" || fl >= 0 && fl&oTRUNC != 0 {
				fail(s, c, "truncated", "opening the database file truncates it")
			}
			if fl >= 0 && fl&(oCREATE|oAPPEND) == oCREATE|oAPPEND && fl&3 != 0 {
				s.set("appends "+f.String(), "1")
			}
			return res(f, errT("open"))
		case "os.ReadFile", "io/ioutil.ReadFile":
			t := x.fresh(s, "content", "", c, rs.At(0).Type())
			if setting(args[0], "DatabaseFile") {
				s.set("dbfile "+t.String(), "1")
			}
			return res(t, errT("parse"))
		case "io.ReadAll", "io/ioutil.ReadAll":
			f := source(s, args[0])
			t := x.fresh(s, "content", "", c, rs.At(0).Type())
			if isOurs(s, f) && s.get("off "+f.String()) == "0" {
				s.set("dbfile "+t.String(), "1")
			}
			s.set("off "+f.String(), "?")
			return res(t, errT("parse"))
		case "(*os.File).Seek":
			f := args[0].canon()
			o, ok1 := args[1].intVal()
			w, ok2 := args[2].intVal()
			s.set("off "+f.String(), "?")
			if ok1 && ok2 && o == 0 && w == 0 {
				s.set("off "+f.String(), "0")
			}
			return res(x.fresh(s, "seeked", "", c, types.Typ[types.Int64]), errT("seek"))
		case "(*os.File).Truncate", "os.Truncate":
			r.site("tail cut off", p.instrPos(c))
			f, n := args[0].canon(), stripConv(args[1])
			ours := isOurs(s, f) || name == "os.Truncate" && setting(args[0], "DatabaseFile")
			switch {
			case !ours:
				fail(s, c, "other file cut", "another file than the database file is truncated")
			case n.op != "complete" || !sameFile(s, n.args[0], f) && name != "os.Truncate" || s.get("whole "+n.String()) == "":
				fail(s, c, "cut elsewhere", "the database file is not cut off at the end of its last complete record")
			case x.Nilness(s, s.getT("err complete")) != 1:
				fail(s, c, "cut after failure", "the database file is cut off although its complete part may not be known")
			case s.get("torn") == "0":
				fail(s, c, "cut complete", "a complete log is cut off")
			}
			s.set("cut", "1")
			return res(errT("cut"))
		case "os.Remove", "os.RemoveAll", "os.Rename", "os.WriteFile", "io/ioutil.WriteFile":
			for _, a := range args {
				if any(a, "DatabaseFile") {
					fail(s, c, "file replaced", "the database file is removed or replaced")
				}
			}
		case "net.Dial", "net.DialTimeout", "net.DialTCP", "(*net.Dialer).Dial":
			ok := false
			for _, a := range args {
				ok = ok || any(a, "MasterAddress")
			}
			r.site("master called", p.instrPos(c))
			if !ok {
				fail(s, c, "other master", "another address than that of the master is called")
			}
			if s.get("nomaster") != "" {
				fail(s, c, "no master", "a master is called although none is configured")
			}
			s.set("dialed", "1")
			return res(x.fresh(s, "conn", "", c, rs.At(0).Type()), errT("dial"))
		case "net.ResolveTCPAddr":
			return res(x.fresh(s, "addr", "", c, rs.At(0).Type(), args...), errT("dial"))
		}
		a, _ := x.bytesModel(s, c, args)
		return a
	}
	runs := func(callees []*ssa.Function, what *ssa.Function) bool {
		for _, g := range callees {
			if g == what || p.reach(true, g)[what] {
				return true
			}
		}
		return false
	}
	x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
		if runs(callees, start) {
			s.set("started", "1")
		}
		if runs(callees, build) || runs(callees, setFile) {
			fail(s, c, "background", "the data is rebuilt in the background: the server serves before it is complete")
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		for cond.op == "not" {
			cond, truth = cond.args[0], !truth
		}
		if e := s.getT("err parse"); e != nil {
			incomplete := func(t *Term) bool {
				return isSentinel(t.canon()) && strings.HasSuffix(t.canon().args[0].aux, ".ErrIncompleteLog")
			}
			if len(cond.args) == 2 {
				a, b := cond.args[0], cond.args[1]
				is := (cond.op == "pure" && cond.aux == "errors.Is" || cond.op == "cmp" && cond.aux == "==") && (a.canon() == e && incomplete(b) || b.canon() == e && incomplete(a))
				if is && truth {
					s.set("torn", "1")
				} else if is {
					s.set("torn", "0")
				}
				if cond.op == "cmp" && cond.aux == "==" && a.canon() == e && b.isNil() && truth {
					s.set("torn", "0")
				}
			}
		}
		if cond.op != "cmp" {
			return
		}
		for _, st := range []string{"DatabaseFile", "MasterAddress"} {
			for i, a := range cond.args {
				o := cond.args[1-i]
				empty := false
				switch {
				case setting(a, st):
					v, ok := o.strVal()
					empty = ok && v == "" && cond.aux == "==" && truth
				case a.canon().op == "len" && setting(a.canon().args[0], st):
					v, ok := o.intVal()
					empty = ok && (cond.aux == "==" && v == 0 && truth || cond.aux == "<" && (i == 0 && v == 1 && truth || i == 1 && v == 0 && !truth))
				}
				if empty && st == "DatabaseFile" {
					s.set("nofile", "1")
				} else if empty {
					s.set("nomaster", "1")
				}
			}
		}
		for _, k := range []string{"logs", "mlogs"} {
			if l := s.getT(k); l != nil && x.Truth(s, x.binop(s, token.EQL, x.lenOf(s, l, nil), x.tp.intT(0), types.Typ[types.Bool])) == 1 {
				s.set(k+" empty", "1")
			}
			if l := s.getT(k); l != nil && x.Nilness(s, l) == 1 {
				s.set(k+" empty", "1")
			}
		}
		for _, st := range []string{"open", "parse", "seek", "complete", "cut", "dial", "receive"} {
			if e := s.getT("err " + st); e != nil && x.Nilness(s, e) == 2 {
				s.set("failed "+st, "1")
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 {
			return
		}
		r.site("end of", "Init")
		if x.Truth(s, res[0]) == 2 {
			return
		}
		bad := func(key, msg string) { r.failPath(key, at, s.path(), "%s", msg) }
		if s.get("nofile") != "" {
			return
		}
		switch {
		case s.getT("err open") == nil && s.getT("logs") == nil:
			bad("no file", "the server starts without having opened the configured database file")
		case s.get("failed open") != "":
		case s.get("setfile") == "":
			bad("not set", "the engine is not given the database file: no record is written")
		case s.getT("logs") == nil:
			if s.get("failed parse") == "" {
				bad("not parsed", "the database file is not read")
			}
		default:
			if s.get("built") == "" && s.get("logs empty") == "" && (s.get("torn") != "0" || s.get("failed parse") == "") {
				bad("not built", "records of the database file are not executed")
			}
			if s.get("built") == "" && s.get("logs empty") == "" && s.get("torn") == "1" {
				bad("not built", "the records before an incomplete one are not executed")
			}
			if s.get("torn") != "0" && s.get("cut") == "" && s.get("failed seek") == "" && s.get("failed complete") == "" && x.Nilness(s, s.getT("err parse")) != 1 {
				bad("tail kept", "an incomplete record is left at the end of the database file: what is appended cannot be read again")
			}
		}
		if s.get("nomaster") != "" {
			return
		}
		switch {
		case s.get("dialed") == "":
			if s.get("failed dial") == "" && s.get("failed open") == "" {
				bad("no master", "the configured master is not called")
			}
		case s.get("failed dial") != "":
		case s.getT("mlogs") == nil:
			bad("not received", "the records of the master are not read")
		case s.get("failed receive") != "":
		case s.get("mbuilt") == "" && s.get("mlogs empty") == "":
			bad("not built", "records of the master are not executed")
		}
	}
	x.Run(init, nil, nil)
	r.exec(x)

	// Serve starts the engine
	starts := false
	served := p.reach(false, serve, init)
	for _, f := range p.Funcs {
		if !served[f] {
			continue
		}
		for _, c := range callsOf(f) {
			for _, g := range p.callees(c) {
				if g == start {
					starts = true
					r.site("engine started", p.instrPos(c))
				}
			}
		}
	}
	if !starts {
		r.failPath("not started", p.pos(serve.Pos()), nil, "neither Init nor Serve can start the engine")
	}
	// rebuilding writes no records
	for f := range p.reach(false, build) {
		r.site("reached by rebuilding", fname(f))
		if recv := f.Signature.Recv(); recv != nil && p.isNamedType(recv.Type(), "log", "PersistentFile") {
			switch f.Name() {
			case "Write", "WriteByte", "WriteString", "WriteRune":
				r.failPath("rebuild writes", p.pos(f.Pos()), nil, "rebuilding the data can write to the database file: its records would be doubled at every start")
			}
		}
	}
	r.min("file opened", 1)
	r.min("file given to the engine", 1)
	r.min("database file parsed", 1)
	r.min("records of the file", 1)
	r.min("records of the master", 1)
	r.min("master asked", 1)
	r.min("tail cut off", 1)
	r.min("end of", 1)
}
