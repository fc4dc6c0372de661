package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C08", "what may be absent is not used", ruleAbsent)
}

// nilable: values of the type may be nil and using such a one ends in a panic.
func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature:
		return true
	}
	return false
}

// sized: values of the type may be shorter than expected.
func sized(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// optionalFields gives the fields that the code itself takes for possibly nil: some function compares
// the field with nil, or makes the struct with nil there and only a setter stores anything else.
func (p *Prog) optionalFields() map[string]bool {
	out, nils, made := map[string]bool{}, map[string]bool{}, map[string]bool{}
	key := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = u.X
		}
		if fa, ok := v.(*ssa.FieldAddr); ok {
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			if nilable(fieldVar(st, fa.Field).Type()) {
				return fieldKey(st, fa.Field)
			}
		}
		return ""
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.BinOp:
					if i.Op != token.EQL && i.Op != token.NEQ {
						continue
					}
					for _, v := range [][2]ssa.Value{{i.X, i.Y}, {i.Y, i.X}} {
						if c, ok := v[1].(*ssa.Const); ok && c.IsNil() {
							out[key(v[0])] = true
						}
					}
				case *ssa.Store:
					if c, ok := i.Val.(*ssa.Const); ok && c.IsNil() {
						nils[key(i.Addr)] = true
					} else if _, isP := i.Val.(*ssa.Parameter); !isP {
						made[key(i.Addr)] = true
					}
				}
			}
		}
	}
	for k := range nils {
		if !made[k] {
			out[k] = true
		}
	}
	delete(out, "")
	return out
}

// comparedParams gives the parameters that the function compares with nil.
func (p *Prog) comparedParams(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if i, ok := in.(*ssa.BinOp); ok && (i.Op == token.EQL || i.Op == token.NEQ) {
				for _, v := range [][2]ssa.Value{{i.X, i.Y}, {i.Y, i.X}} {
					if c, isC := v[1].(*ssa.Const); isC && c.IsNil() {
						if pa, isP := v[0].(*ssa.Parameter); isP && nilable(pa.Type()) {
							out[pa.Name()] = true
						}
					}
				}
			}
		}
	}
	return out
}

func ruleAbsent(p *Prog, r *Report) {
	r.rule("Every function of the packages db, network, replication and log that is called from outside its package or runs as a goroutine is followed on every path, with the functions of its package it calls. At each use (field, method, element, plain type assertion, hand-over to a goroutine) the path must know that the value is there: the other result of a call that also gave an error only where that error is known to be nil; what a lookup or a checked type assertion gave only where its ok is known to be true; a field or parameter that the code compares with nil, or sets to nil, only where it is known not to be nil; and the text of an error only where there is one.")
	optional := p.optionalFields()
	in := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		switch pkgName(f) {
		case "db", "network", "replication", "log", "concurrency", "protocol", "util", "common", "types", "main", "internal", "client", "server":
			if !p.generated(f) && f.Synthetic == "" {
				in[f] = true
			}
		}
	}
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if !in[f] || f.Blocks == nil {
			continue
		}
		inside, outside := false, false
		for _, c := range p.callersOf(f) {
			if pkgName(c.Fn) != pkgName(f) {
				outside = true
			} else if _, isGo := c.Instr.(*ssa.Go); !isGo && !spawns(c.Instr) {
				inside = true
			}
		}
		if outside || !inside || p.isSpawned(f) {
			roots = append(roots, f)
		}
	}
	// fields known to be there wherever a function is started as a goroutine
	started := map[*ssa.Function]map[string]bool{}
	spawned := map[*ssa.Function]bool{}
	for _, f := range roots {
		spawned[f] = p.isSpawned(f)
	}
	// goroutines start others: what these may rely on is collected before they are judged
	quiet := newReport(r.ID)
	for pass := 0; pass < 3; pass++ {
		to := r
		if pass == 1 {
			to = quiet
		}
		for _, root := range roots {
			if (pass > 0) == spawned[root] {
				p.absentRoot(to, root, optional, started)
			}
		}
	}
}

func (p *Prog) absentRoot(r *Report, root *ssa.Function, optional map[string]bool, started map[*ssa.Function]map[string]bool) {
	where := fname(root)
	compared := p.comparedParams(root)
	x := NewExec(p)
	x.Depth = 10
	x.Soft = true
	x.Opaque = func(f *ssa.Function) bool { return pkgName(f) != pkgName(root) }
	errOf, okOf := map[*Term]*Term{}, map[*Term]*Term{}
	fieldOfTerm := func(t *Term) string {
		for t.op == "chg" {
			t = t.args[0]
		}
		switch t.op {
		case "load", "reload":
			if len(t.args) > 0 && t.args[0].op == "fieldaddr" {
				return t.args[0].aux
			}
		}
		return ""
	}
	// absent gives why the value may not be there.
	need := int64(1) // elements that the use needs, of a slice
	absent := func(x *Exec, s *State, t *Term) string {
		for t.op == "mi" {
			t = t.args[0]
		}
		if t.isNil() {
			return "it is nil here"
		}
		n := x.Nilness(s, t)
		if n == 2 {
			return ""
		}
		u := t
		for u.op == "chg" {
			u = u.args[0]
		}
		if e := errOf[u]; e != nil && sized(u.typ) && x.lengthKnown(s, u, need) {
			return ""
		}
		if e := errOf[u]; e != nil && x.Nilness(s, e) != 1 {
			return "the call that gave it may have failed, its error is not known to be nil"
		}
		if e := errOf[u]; e != nil {
			return ""
		}
		if k := okOf[u]; k != nil {
			if x.Truth(s, k) != 1 {
				return "the lookup that gave it may have found nothing"
			}
			return ""
		}
		if u.op == "ta" && len(u.args) == 1 {
			if x.Truth(s, x.tp.mk("ok", u.aux, types.Typ[types.Bool], u.args[0])) != 1 && s.get("checked:"+u.aux) != "" {
				return "the type assertion that gave it may have failed"
			}
			return ""
		}
		if u.op == "lookup" && nilable(t.typ) {
			if x.Truth(s, x.tp.mk("ok", "map", types.Typ[types.Bool], u)) != 1 {
				return "the map may not have this entry"
			}
			return ""
		}
		if n == 1 {
			return "it is nil here"
		}
		if k := fieldOfTerm(u); optional[k] && s.get("there:"+k) == "" {
			return k + " may be nil"
		}
		if u.op == "param" && compared[u.aux] {
			return "the parameter " + u.aux + " may be nil"
		}
		return ""
	}
	use := func(x *Exec, s *State, t *Term, at ssa.Instruction, what string) {
		if t == nil || t.typ == nil && !t.isNil() {
			return
		}
		r.site("use of what may be absent", p.instrPos(at))
		if why := absent(x, s, t); why != "" {
			r.failPath("absent in "+fname(at.Parent()), p.instrPos(at), s.path(), "%s %s: %s", what, t, why)
		}
	}
	x.H.Branch = func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If) {
		for t, f := range s.facts {
			if f.nilness == 2 {
				if k := fieldOfTerm(t); k != "" {
					s.set("there:"+k, "y")
				}
			}
		}
	}
	x.H.Deref = func(x *Exec, s *State, base *Term, in ssa.Instruction) {
		if base.op == "alloc" || base.op == "global" || base.op == "fieldaddr" || base.op == "elemaddr" {
			return
		}
		use(x, s, base, in, "use of")
	}
	x.H.TypeAssert = func(x *Exec, s *State, v *Term, in *ssa.TypeAssert) {
		if !in.CommaOk {
			use(x, s, v, in, "plain type assertion of")
		} else {
			s.set("checked:"+in.AssertedType.String(), "y")
		}
	}
	x.H.Go = func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term) {
		for _, f := range callees {
			known := map[string]bool{}
			for t, ft := range s.facts {
				if k := fieldOfTerm(t); ft.nilness == 2 && k != "" {
					known[k] = true
				}
			}
			for k := range optional {
				if s.get("there:"+k) != "" {
					known[k] = true
				}
			}
			if old, ok := started[f]; ok {
				for k := range old {
					if !known[k] {
						delete(old, k)
					}
				}
			} else {
				started[f] = known
			}
		}
		for _, a := range args {
			if a != nil && a.typ != nil && nilable(a.typ) {
				if why := absent(x, s, a); why != "" && (errOf[a] != nil || okOf[a] != nil) {
					r.failPath("absent in "+fname(c.Parent()), p.instrPos(c), s.path(), "a goroutine is given %s: %s", a, why)
				}
			}
		}
	}
	x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
		cc := c.Common()
		switch {
		case cc.IsInvoke():
			if types.Identical(cc.Value.Type(), errType()) {
				r.site("text of an error", p.instrPos(c))
				if n := x.Nilness(s, args[0]); n == 1 || n == 0 && args[0].op != "param" && args[0].op != "free" {
					r.failPath("error in "+fname(c.Parent()), p.instrPos(c), s.path(), "the text of %s is asked for, but it is not known that there is an error", args[0])
				}
			} else {
				use(x, s, args[0], c, "method of")
			}
		case cc.StaticCallee() != nil && cc.Signature().Recv() != nil && len(args) > 0:
			f := cc.StaticCallee()
			if _, isP := cc.Signature().Recv().Type().Underlying().(*types.Pointer); !isP || args[0].op == "fieldaddr" || libName(cc) == "(*os.File).Close" {
				break
			}
			if !p.isRepo(f) || pkgName(f) != pkgName(root) && len(f.Params) > 0 && len(p.comparedParams(f)) == 0 && !p.generated(f) {
				use(x, s, args[0], c, "method of")
			}
		}
		if strings.HasPrefix(libName(cc), "(encoding/binary.") {
			for _, a := range args {
				if a != nil && a.typ != nil && sized(a.typ) {
					need = map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[cc.StaticCallee().Name()]
					use(x, s, a, c, "decoding of")
					need = 1
				}
			}
		}
		if a, ok := errorText(x, c, args); ok {
			return a
		}
		return CallAction{}
	}
	x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
		if len(res) < 2 {
			return
		}
		last := res[len(res)-1]
		for _, v := range res[:len(res)-1] {
			if v == nil || last == nil || v.op != "call" && v.op != "pure" || v.typ == nil || !nilable(v.typ) && !sized(v.typ) {
				continue
			}
			sig := c.Common().Signature().Results()
			lt := sig.At(sig.Len() - 1).Type()
			switch {
			case types.Identical(lt, errType()):
				errOf[v] = last
			case types.Identical(lt.Underlying(), types.Typ[types.Bool]) && libName(c.Common()) != "(*sync.Map).LoadOrStore":
				okOf[v] = last
			}
		}
	}
	x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
		if len(s.frames) > 1 || len(res) != 1 {
			return
		}
		o := stripConv(res[0])

		if o.op != "alloc" {
			return
		}
		for a, v := range s.store {
			for v != nil && v.op == "mi" {
				v = v.args[0]
			}
			if a.op == "fieldaddr" && a.args[0] == o && (errOf[v] != nil || okOf[v] != nil) {
				r.site("kept in a new object", where)
				if why := absent(x, s, v); why != "" {
					r.failPath("kept in "+where, p.pos(root.Pos()), s.path(), "%s gives an object whose %s is %s: %s", where, a.aux, v, why)
				}
			}
		}
	}
	x.Run(root, nil, func(s *State) {
		for k := range started[root] {
			s.set("there:"+k, "y")
		}
	})
	if x.Over {
		r.site("not decided (too many states): "+where, "")
		return
	}
	r.site("function followed", where)
}

func (p *Prog) generated(f *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, ".pb.go")
}

// lengthKnown: the path knows that the slice has the elements needed (as far as it compares the length with constants).
func (x *Exec) lengthKnown(s *State, v *Term, need int64) bool {
	for t, f := range s.facts {
		if f.truth == 0 {
			continue
		}
		var l *Term
		if t.any(func(u *Term) bool {
			if u.op == "len" && len(u.args) == 1 && u.args[0].canon() == v.canon() {
				l = u
				return true
			}
			return false
		}) {
			if !t.any(func(u *Term) bool { return u.isConst() }) {
				return true
			}
			k := x.tp.intT(need)
			if x.Truth(s, x.binop(s, token.LSS, l, k, types.Typ[types.Bool])) == 2 || x.Truth(s, x.binop(s, token.EQL, l, k, types.Typ[types.Bool])) == 1 {
				return true
			}
		}
	}
	return false
}
