package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reachesCall is the set of functions from which a call satisfying pred can be reached
// synchronously.
func (p *Prog) reachesCall(pred func(fn *ssa.Function, c ssa.CallInstruction) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, c := range callsOf(f) {
			if pred(f, c) {
				out[f] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if out[f] {
				continue
			}
			for _, e := range p.edges(f) {
				if !e.Go && out[e.To] {
					out[f] = true
					ch = true
					break
				}
			}
		}
	}
	return out
}

// cmdMethod names the method of the command interface a call invokes, "" otherwise.
func (p *Prog) cmdMethod(c ssa.CallInstruction) string {
	cc := c.Common()
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		name = unwrap(f).Name()
	}
	if !hasMethod(p.iface("command", "Command"), name) {
		return ""
	}
	if p.isMethodCall(cc, "command", "Command", name) {
		return name
	}
	return ""
}

func isWriterCall(name string) bool {
	switch name {
	case "(*bufio.Writer).Write", "(*bufio.Writer).WriteString", "(*os.File).Write", "(*os.File).WriteString", "(io.Writer).Write", "io.WriteString",
		"(*bufio.Writer).ReadFrom", "(*bufio.Writer).WriteByte", "io.Copy", "encoding/binary.Write", "fmt.Fprint", "fmt.Fprintf":
		return true
	}
	return false
}

func isMarshal(name string) bool {
	return strings.HasSuffix(name, "proto.Marshal") || strings.HasSuffix(name, "proto.MarshalOptions).Marshal") || strings.HasSuffix(name, "proto.Buffer).Marshal")
}

func (p *Prog) quiet(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	return strings.HasSuffix(f.Pkg.Pkg.Path(), "/pkg/common")
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

// isNamedType reports whether t is (a pointer to) the named repo type.
func (p *Prog) isNamedType(t types.Type, pkg, name string) bool {
	if t == nil {
		return false
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, isN := types.Unalias(t).(*types.Named); !isN {
			t = pt.Elem()
		}
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/"+pkg)
}

// pureRes names the results of a call by its receiver and arguments.
func (x *Exec) pureRes(c ssa.CallInstruction, name string, args []*Term) []*Term {
	rs := c.Common().Signature().Results()
	var as []*Term
	for _, a := range args {
		as = append(as, a.canon())
	}
	var out []*Term
	for i := 0; i < rs.Len(); i++ {
		n := name
		if rs.Len() > 1 {
			n += "#" + string(rune('0'+i))
		}
		out = append(out, x.tp.mk("pure", n, rs.At(i).Type(), x.bound(as)...))
	}
	return out
}

// engineModel gives the calls on the engine's path their meaning; nil when the call is not
// one of them.
func (p *Prog) engineModel(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) (CallAction, bool) {
	cc := c.Common()
	switch m := p.cmdMethod(c); m {
	case "Type", "ShouldCreate", "TargetContainerType", "Keys", "Name", "Cluster":
		return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "."+m, args[:1])}, true
	case "":
	default:
		return CallAction{Kind: actOpaque}, true
	}
	if p.isMethodCall(cc, "types", "DataMap", "Get") {
		return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, ".Get", args)}, true
	}
	for _, m := range []string{"Set", "Has", "Remove", "Len"} {
		if p.isMethodCall(cc, "types", "DataMap", m) {
			return CallAction{Kind: actOpaque, Pure: true}, true
		}
	}
	for _, m := range []string{"Data", "Error", "ID", "Topic"} {
		if p.isMethodCall(cc, "concurrency", "Event", m) && cc.Signature().Results().Len() == 1 && cc.Signature().Params().Len() == 0 {
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "."+m, args[:1])}, true
		}
	}
	if cc.IsInvoke() && cc.Signature().Params().Len() == 0 && cc.Signature().Results().Len() == 1 && inPkg(callees, "protocol") {
		switch cc.Method.Name() {
		case "Data", "Type", "String", "IsNull", "Byte", "Bytes", "Len":
			return CallAction{Kind: actOpaque, Pure: true, Results: x.pureRes(c, "."+cc.Method.Name(), args[:1])}, true
		}
	}
	return CallAction{}, false
}

// isFunc reports a static call of the exported repo function pkg.name.
func (p *Prog) isFunc(callees []*ssa.Function, pkg, name string) bool {
	return len(callees) == 1 && callees[0] == p.pkg(pkg).Func(name)
}
