package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The life of a command, as the engine drives it: NewCommand, Type, ShouldCreate,
// TargetContainerType, Keys, SetAccessObjects, Execute, Result.

type opCall struct {
	recv   string // container interface
	method string
	site   string
	args   []string // provenance of each argument
	mut    bool
}

// Life is one path through the life of a command.
type Life struct {
	name    string
	created bool // NewCommand gave a command without an error
	typ     int64
	create  int8
	kind    int64
	keys    *Term
	ops     []opCall
	res     *Term
	err     *Term
	resNil  int8
	errNil  int8
	path    []string
	argDom  uint64
	end     string // how it ended
}

type lifeHooks struct {
	call func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term)
	ta   func(x *Exec, s *State, v *Term, in *ssa.TypeAssert)
	init func(x *Exec, s *State)
	pan  func(x *Exec, s *State, in *ssa.Panic)
	idx  func(x *Exec, s *State, in ssa.Instruction)
	br   func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If)
}

var lifeStages = []string{"Type", "ShouldCreate", "TargetContainerType", "Keys", "SetAccessObjects", "Execute", "Result"}

// life explores the life of the command with the given name (nil = any name).
func (p *Prog) life(r *Report, name *string, h lifeHooks, done func(x *Exec, s *State, l *Life)) {
	newCmd := p.fn("command", "NewCommand")
	x := NewExec(p)
	x.Budget = 1200000
	x.MaxDepth = 12
	argsT := x.tp.mk("param", "args", newCmd.Params[2].Type())
	var nameT *Term
	if name != nil {
		nameT = x.tp.strT(*name)
	}
	lives := map[*State]*Life{}
	_ = lives
	x.Opaque = p.lifeOpaque
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		if h.call != nil {
			h.call(x, s, c, callees, args)
		}
		if s.dead {
			return CallAction{Stop: true}
		}
		return p.accessorCall(x, s, c, callees, args)
	}
	x.H.TypeAssert = h.ta
	x.H.Panic = h.pan
	x.H.Instr = h.idx
	x.H.Branch = h.br
	stageOf := map[int]string{}
	tag := 0
	x.Chain = func(x *Exec, s *State, fr *Frame, res []*Term) *Frame {
		st := s.get("stage")
		next := 0
		switch st {
		case "":
			// NewCommand has returned
			l := &Life{created: false, end: "rejected"}
			if len(res) != 2 {
				fatalf("anchor lost: NewCommand returns %d values", len(res))
			}
			c, e := res[0], res[1]
			if x.Nilness(s, e) == 2 {
				done(x, s, &Life{err: e, end: "rejected", errNil: 2, path: s.path(), argDom: domOf(x, s, argsT)})
				return nil
			}
			if x.Nilness(s, e) == 0 {
				fatalf("undecided: NewCommand returns an error that is neither nil nor known to be set")
			}
			if c.isNil() {
				done(x, s, &Life{end: "nil command", path: s.path(), argDom: domOf(x, s, argsT)})
				return nil
			}
			_ = l
			s.setT("cmd", c)
		default:
			for i, n := range lifeStages {
				if n == st {
					next = i + 1
				}
			}
			switch st {
			case "Type", "TargetContainerType", "ShouldCreate", "Keys":
				s.setT("r:"+st, res[0])
			case "Result":
				l := &Life{created: true, end: "done"}
				l.res, l.err = res[0], res[1]
				l.resNil, l.errNil = x.Nilness(s, res[0]), x.Nilness(s, res[1])
				l.typ, _ = s.getT("r:Type").intVal()
				l.kind, _ = s.getT("r:TargetContainerType").intVal()
				l.create = x.Truth(s, s.getT("r:ShouldCreate"))
				l.keys = s.getT("r:Keys")
				l.path = s.path()
				l.argDom = domOf(x, s, argsT)
				done(x, s, l)
				return nil
			}
		}
		n := lifeStages[next]
		s.set("stage", n)
		cmd := s.getT("cmd")
		if cmd.op != "mi" {
			fatalf("undecided: NewCommand returns a command of unknown type (%s)", cmd)
		}
		m, self := x.methodOf(s, cmd.args[0], cmd.conc, n, nil)
		if m == nil || m.Blocks == nil {
			fatalf("anchor lost: %s has no method %s", cmd.conc, n)
		}
		tag++
		stageOf[tag] = n
		as := []*Term{self}
		if n == "SetAccessObjects" {
			as = append(as, x.tp.mk("param", "objs", m.Params[1].Type()))
		}
		f := x.NewFrame(m, as, next+1)
		s.note("%s: the engine calls %s", p.pos(m.Pos()), fname(m))
		return f
	}
	if os.Getenv("VXT") != "" {
		t0 := time.Now()
		defer func() { fmt.Println("LIFE", nameT, x.Steps, x.States, time.Since(t0)) }()
	}
	x.Run(newCmd, []*Term{nameT, nil, argsT}, func(s *State) {
		if h.init != nil {
			h.init(x, s)
		}
	})
	r.exec(x)
}

func domOf(x *Exec, s *State, args *Term) uint64 {
	d, _ := x.domain(s, x.tp.mk("len", "", nil, args))
	return d
}

// lifeOpaque keeps the bodies of the containers and the logging out of command rules.
func (p *Prog) lifeOpaque(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch {
	case strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/common"), strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/util"), strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/log"):
		return true
	case strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/container"):
		return true
	}
	return false
}

// accessorCall gives argument-determined names to the calls of plain accessors.
func (p *Prog) accessorCall(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
	cc := c.Common()
	if cc.IsInvoke() && cc.Signature().Params().Len() == 0 && cc.Signature().Results().Len() == 1 {
		switch cc.Method.Name() {
		case "Data", "Type", "Key", "String", "Value", "Len", "Raw", "Error", "ID", "Topic":
			if len(callees) != 1 || cc.Method.Name() != "Type" || true {
				if resolvedOne(args[0]) && len(callees) == 1 && !p.lifeOpaque(callees[0]) {
					break
				}
				if cc.Method.Name() == "Len" && inPkg(callees, "container") {
					break
				}
				if cc.Method.Name() == "Error" || cc.Method.Name() == "ID" {
					break
				}
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.mk("pure", "."+cc.Method.Name(), cc.Signature().Results().At(0).Type(), x.bound(args[:1])...)}}
			}
		}
	}
	if len(callees) == 0 && strings.HasPrefix(libName(cc), "strconv.") && cc.Signature().Results().Len() == 2 {
		rs := cc.Signature().Results()
		if v, ok := args[0].strVal(); ok && isIntType(rs.At(0).Type()) {
			if n, err := strconv.ParseInt(v, 10, 64); err == nil {
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.constant(constInt(n), rs.At(0).Type()), x.tp.nilT()}}
			}
		}
		return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{
			x.tp.mk("pure", libName(cc)+"#0", rs.At(0).Type(), x.bound(args)...),
			x.tp.mk("pure", libName(cc)+"#1", rs.At(1).Type(), x.bound(args)...)}}
	}
	if len(callees) == 1 && pkgName(callees[0]) == "util" && cc.Signature().Results().Len() == 2 && cc.Signature().Params().Len() == 1 {
		// parsers of numbers: determined by their argument
		if v, ok := args[0].strVal(); ok {
			if n, err := strconv.ParseInt(v, 10, 64); err == nil && isIntType(cc.Signature().Results().At(0).Type()) {
				return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{x.tp.constant(constInt(n), cc.Signature().Results().At(0).Type()), x.tp.nilT()}}
			}
		}
		rs := cc.Signature().Results()
		return CallAction{Kind: actOpaque, Pure: true, Results: []*Term{
			x.tp.mk("pure", fname(callees[0])+"#0", rs.At(0).Type(), x.bound(args)...),
			x.tp.mk("pure", fname(callees[0])+"#1", rs.At(1).Type(), x.bound(args)...)}}
	}
	return CallAction{}
}

func resolvedOne(t *Term) bool {
	return t.op == "mi" && t.conc != nil
}

func pkgName(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name()
	}
	if f.Parent() != nil {
		return pkgName(f.Parent())
	}
	return ""
}

func inPkg(fs []*ssa.Function, name string) bool {
	for _, f := range fs {
		if pkgName(f) == name {
			return true
		}
	}
	return false
}

// sources expands a term to the set of positions of an array parameter it is computed
// from: "0", "1", ..., "*" for an unknown position; other leaves are ignored.
func (x *Exec) sources(s *State, t *Term, param string) []string {
	out := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if u.op == "elemaddr" && u.args[0].op == "param" && u.args[0].aux == param {
			if v, ok := u.args[1].intVal(); ok {
				out[fmt.Sprint(v)] = true
			} else {
				out["*"] = true
			}
			return
		}
		if u.op == "param" && u.aux == param {
			out["all"] = true
			return
		}
		if u.op == "len" {
			return
		}
		if u.op == "alloc" || u.op == "make" {
			for a, v := range s.store {
				b := a
				for b.op == "fieldaddr" || b.op == "elemaddr" || b.op == "mapcell" || b.op == "elemsum" {
					b = b.args[0]
				}
				if b == u {
					walk(v)
				}
			}
		}
		for i, a := range u.args {
			if (u.op == "elemaddr" || u.op == "slice") && i >= 1 {
				continue
			}
			walk(a)
		}
	}
	walk(t)
	var ks []string
	for k := range out {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
