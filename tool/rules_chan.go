package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "no channel is closed twice or used for sending afterwards", ruleCloseOnce)
	register("C16", "a wait ends when the other side is gone", ruleWaitEnds)
}

// chanOrigin is where a channel comes from: a field, or one place that makes it.
type chanOrigin struct {
	field *types.Var // the channel is kept in this field
	owner string     // pkg.Struct.field
	site  ssa.Value  // the channel is made here and kept in a local
	other string     // neither
}

func (o chanOrigin) key() string {
	switch {
	case o.field != nil:
		return o.owner
	case o.site != nil:
		return fmt.Sprintf("local %s:%d", fname(o.site.Parent()), o.site.Pos())
	}
	return "other " + o.other
}

// chanOrigins follows a channel value to the fields and places it may come from.
func (p *Prog) chanOrigins(v ssa.Value) []chanOrigin {
	seen := map[ssa.Value]bool{}
	var out []chanOrigin
	var val, cell func(v ssa.Value)
	add := func(o chanOrigin) {
		for _, e := range out {
			if e.key() == o.key() {
				return
			}
		}
		out = append(out, o)
	}
	param := func(fn *ssa.Function, i int, v ssa.Value) {
		cs := p.callersOf(fn)
		n := 0
		for _, c := range cs {
			as := c.Instr.Common().Args
			if c.Instr.Common().IsInvoke() {
				as = append([]ssa.Value{c.Instr.Common().Value}, as...)
			}
			if i < len(as) {
				n++
				val(as[i])
			}
		}
		if n == 0 {
			add(chanOrigin{other: fmt.Sprintf("parameter %s of %s", v.Name(), fname(fn))})
		}
	}
	free := func(fv *ssa.FreeVar) {
		fn := fv.Parent()
		idx := -1
		for i, f := range fn.FreeVars {
			if f == fv {
				idx = i
			}
		}
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					if _, isPtr := fv.Type().Underlying().(*types.Pointer); isPtr {
						cell(mc.Bindings[idx])
					} else {
						val(mc.Bindings[idx])
					}
				}
			}
		}
	}
	cell = func(a ssa.Value) {
		if seen[a] {
			return
		}
		seen[a] = true
		switch y := a.(type) {
		case *ssa.Alloc:
			for _, r := range *y.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == y {
					val(st.Val)
				}
			}
		case *ssa.FreeVar:
			free(y)
		case *ssa.FieldAddr:
			add(chanOrigin{field: fieldVar(y.X.Type(), y.Field), owner: fieldKey(y.X.Type(), y.Field)})
		case *ssa.Global:
			add(chanOrigin{other: "variable " + y.Name()})
		default:
			add(chanOrigin{other: "memory"})
		}
	}
	val = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.MakeChan:
			// kept in a field, or only locally
			add(chanOrigin{site: y})
		case *ssa.ChangeType:
			val(y.X)
		case *ssa.MakeInterface:
			val(y.X)
		case *ssa.Phi:
			for _, e := range y.Edges {
				val(e)
			}
		case *ssa.UnOp:
			cell(y.X)
		case *ssa.Field:
			add(chanOrigin{field: fieldVar(y.X.Type(), y.Field), owner: fieldKey(y.X.Type(), y.Field)})
		case *ssa.Parameter:
			for i, q := range y.Parent().Params {
				if q == y {
					param(y.Parent(), i, y)
				}
			}
		case *ssa.FreeVar:
			free(y)
		case *ssa.Const:
		case *ssa.Call:
			if n := libName(&y.Call); n == "time.After" || n == "time.Tick" {
				add(chanOrigin{other: "timer"})
				return
			}
			if p.makesAnew(y, func(v ssa.Value) bool { _, ok := v.(*ssa.MakeChan); return ok }) {
				add(chanOrigin{site: y})
				return
			}
			for _, f := range p.callees(y) {
				for _, b := range f.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						val(r.Results[0])
					}
				}
			}
		default:
			add(chanOrigin{other: fmt.Sprintf("%T", v)})
		}
	}
	val(v)
	// a channel made and put into a field is that field's
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// makesAnew: every call of what is called here gives an object that the callee has just made and given to nobody else.
func (p *Prog) makesAnew(c *ssa.Call, made func(ssa.Value) bool) bool {
	fs := p.callees(c)
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if len(f.Blocks) == 0 {
			return false
		}
		for _, b := range f.Blocks {
			r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if len(r.Results) != 1 {
				return false
			}
			v := r.Results[0]
			if ct, ok := v.(*ssa.ChangeType); ok && len(*ct.Referrers()) == 1 {
				v = ct.X
			}
			if len(*v.Referrers()) != 1 {
				return false
			}
			if in, ok := v.(*ssa.Call); ok && in.Call.StaticCallee() != f && p.makesAnew(in, made) {
				continue
			}
			if !made(v) {
				return false
			}
		}
	}
	return true
}

func isCloseCall(c ssa.CallInstruction) bool { return libName(c.Common()) == "builtin.close" }

// syncRoots: functions satisfying in that nothing in the repository calls synchronously, or that are started as goroutines.
func (p *Prog) syncRoots(in map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !in[f] || f.Blocks == nil {
			continue
		}
		sync := false
		spawned := false
		for _, c := range p.callersOf(f) {
			if _, ok := c.Instr.(*ssa.Go); ok {
				spawned = true
			} else if spawns(c.Instr) {
				spawned = true
			} else {
				sync = true
			}
		}
		if !sync || spawned {
			out = append(out, f)
		}
	}
	return out
}

var casNames = map[string]bool{
	"sync/atomic.CompareAndSwapInt32": true, "sync/atomic.CompareAndSwapUint32": true, "sync/atomic.CompareAndSwapInt64": true, "sync/atomic.CompareAndSwapUint64": true,
	"(*sync/atomic.Int32).CompareAndSwap": true, "(*sync/atomic.Uint32).CompareAndSwap": true, "(*sync/atomic.Int64).CompareAndSwap": true, "(*sync/atomic.Uint64).CompareAndSwap": true, "(*sync/atomic.Bool).CompareAndSwap": true,
}

// canRepeat: the block can be reached again from itself without passing through the block of m.
func canRepeat(b *ssa.BasicBlock, m *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if c == m || seen[c] {
			continue
		}
		if c == b {
			return true
		}
		seen[c] = true
		st = append(st, c.Succs...)
	}
	return false
}

type closeInfo struct {
	fields map[string]string // closed field -> where
	flags  map[string]string // guarding flag -> where
}

func ruleCloseOnce(p *Prog, r *Report) {
	r.rule("Every close of a channel of the repository is an obligation. A channel kept in a field may only be closed where the path has won a compare-and-swap on a flag of the same object (which nothing ever sets back), or inside a sync.Once that is not local; on no path twice. A channel kept in locals may only be closed at one place, which runs once for each time the channel is made. A channel field that is closed somewhere is never sent on; a local one is never sent on after its close, and a goroutine that sends on it is waited for before.")
	p.closeFlow(r, nil, nil)
	r.min("close", 4)
	r.min("send", 2)
}

// closeFlow checks the closes of all channels. With known flags it also reports paths that win
// the right to close and do not.
func (p *Prog) closeFlow(r *Report, known *closeInfo, won func(flag, pos string, closed map[string]bool, path []string)) *closeInfo {
	closers := p.reachesCallOrField(func(f *ssa.Function) bool {
		for _, c := range callsOf(f) {
			if isCloseCall(c) {
				return true
			}
		}
		return false
	})
	closedFields := map[string]string{}
	type localClose struct {
		c    ssa.CallInstruction
		site ssa.Value
	}
	locals := map[string][]localClose{}
	fieldSites := map[ssa.CallInstruction]bool{}
	globals := map[string][]ssa.CallInstruction{}
	for _, f := range p.Funcs {
		for _, c := range callsOf(f) {
			if !isCloseCall(c) {
				continue
			}
			r.site("close", p.instrPos(c))
			r.funcs(f)
			for _, o := range p.chanOrigins(c.Common().Args[0]) {
				switch {
				case o.field != nil:
					closedFields[o.owner] = p.instrPos(c)
					fieldSites[c] = true
				case o.site != nil:
					locals[o.key()] = append(locals[o.key()], localClose{c, o.site})
				case strings.HasPrefix(o.other, "variable "):
					globals[o.other] = append(globals[o.other], c)
				default:
					r.fail("close of "+o.other, p.instrPos(c), "a channel that comes from %s is closed here: nothing shows that it is closed only once", o.other)
				}
			}
		}
	}
	// fields: path-sensitive
	flags := map[string]string{}
	seenField := map[ssa.CallInstruction]bool{}
	for _, root := range p.syncRoots(closers) {
		x := NewExec(p)
		x.Opaque = func(f *ssa.Function) bool { return !closers[f] && !p.hasCAS(f) }
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			if casNames[libName(c.Common())] && len(args) >= 3 {
				a, b := args[1], args[2]
				if a.isConst() && b.isConst() && a == b {
					r.fail("useless guard "+args[0].aux, p.instrPos(c), "this compare-and-swap does not change the flag: several callers can win it")
				}
				s.setT("casaddr", args[0].canon())
			}
			if !isCloseCall(c) || !fieldSites[c] {
				return CallAction{}
			}
			ch := args[0].canon()
			for (ch.op == "load" || ch.op == "reload") && len(ch.args) > 0 && ch.args[0].op != "fieldaddr" {
				ch = ch.args[0]
			}
			where := p.instrPos(c)
			fa := ch
			if ch.op == "load" || ch.op == "reload" {
				fa = ch.args[0]
			}
			name := ch.String()
			var base *Term
			if fa.op == "fieldaddr" {
				base, name = fa.args[0], fa.aux
			} else if ch.op == "make" || ch.op == "chan" {
				return CallAction{}
			}
			seenField[c] = true
			k := fmt.Sprintf("closed:%d", ch.id)
			if s.get(k) != "" {
				r.failPath("closed twice "+name+" in "+fname(c.Parent()), where, s.path(), "%s is closed a second time on this path", name)
			}
			s.set(k, name)
			for _, fr := range s.frames {
				if fr.call == nil || libName(fr.call.Common()) != "(*sync.Once).Do" {
					continue
				}
				if o := s.getT(fmt.Sprintf("onceobj%d", x.siteID(fr.call))); o == nil || o.op != "alloc" {
					return CallAction{}
				}
			}
			for key, v := range s.ts {
				if !strings.HasPrefix(key, "cas:") || v.t == nil || x.Truth(s, v.t) != 1 || base == nil {
					continue
				}
				if strings.HasSuffix(key, fmt.Sprintf("@%d", base.id)) {
					flags[strings.TrimPrefix(key[:strings.LastIndexByte(key, '@')], "cas:")] = where
					return CallAction{}
				}
			}
			r.failPath("unguarded close of "+name+" in "+fname(c.Parent()), where, s.path(), "%s is closed here although nothing on this path rules out that it was closed before: closing it again panics", name)
			return CallAction{}
		}
		x.H.After = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, res []*Term) {
			if casNames[libName(c.Common())] && len(res) == 1 {
				key, _, _ := lockKey(args[0])
				s.setT("cas:"+key, res[0])
			}
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && libName(&c.Call) == "(*sync.Once).Do" {
				s.setT(fmt.Sprintf("onceobj%d", x.siteID(c)), x.eval(s, c.Call.Args[0]).canon())
			}
		}
		if known != nil {
			x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
				if len(s.frames) > 1 {
					return
				}
				for key, v := range s.ts {
					if !strings.HasPrefix(key, "cas:") || v.t == nil || x.Truth(s, v.t) != 1 {
						continue
					}
					f := strings.TrimPrefix(key[:strings.LastIndexByte(key, '@')], "cas:")
					if known.flags[f] == "" {
						continue
					}
					r.site("right to close won", f+" in "+fname(root))
					did := map[string]bool{}
					for k, v := range s.ts {
						if strings.HasPrefix(k, "closed:") {
							did[v.s] = true
						}
					}
					won(f, p.pos(root.Pos()), did, s.path())
				}
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	for c := range fieldSites {
		if !seenField[c] && len(p.callersOf(c.Parent())) > 0 {
			// closed through a copy of the field: the engine has seen it as a local
			r.site("close not followed", p.instrPos(c))
		}
	}
	p.flagsOneWay(r, flags)
	for g, cs := range globals {
		if len(cs) > 1 {
			r.fail("several closes of "+g, p.instrPos(cs[1]), "%s is closed at %d places", g, len(cs))
		} else if why := p.runsOnce(cs[0], nil); why != "" {
			r.fail("repeated close of "+g, p.instrPos(cs[0]), "%s may be closed more than once: %s", g, why)
		}
	}
	// locals
	for key, ls := range locals {
		if f := p.keptIn(ls[0].site); f != "" {
			// the same channel is also reachable through a field
			closedFields[f] = p.instrPos(ls[0].c)
		}
		if len(ls) > 1 {
			r.fail("several closes of "+key[:strings.LastIndexByte(key, ':')], p.instrPos(ls[1].c), "the channel made in %s is closed at %d places", fname(ls[0].site.Parent()), len(ls))
			continue
		}
		c, site := ls[0].c, ls[0].site
		if why := p.runsOnce(c, site); why != "" {
			r.fail("repeated close in "+fname(c.Parent()), p.instrPos(c), "the channel made in %s may be closed more than once: %s", fname(site.Parent()), why)
		}
	}
	// sends
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var chs []ssa.Value
				switch i := in.(type) {
				case *ssa.Send:
					chs = append(chs, i.Chan)
				case *ssa.Select:
					for _, st := range i.States {
						if st.Dir == types.SendOnly {
							chs = append(chs, st.Chan)
						}
					}
				}
				for _, ch := range chs {
					r.site("send", p.instrPos(in))
					r.funcs(f)
					for _, o := range p.chanOrigins(ch) {
						if o.field != nil && closedFields[o.owner] != "" {
							r.fail("send on closed "+o.owner+" in "+fname(f), p.instrPos(in), "%s is sent on here, but it is closed at %s: a send after that panics", o.owner, closedFields[o.owner])
						}
						if o.site != nil && len(locals[o.key()]) > 0 {
							if why := p.sendBeforeClose(in, locals[o.key()][0].c); why != "" {
								r.fail("send after close in "+fname(f), p.instrPos(in), "the channel sent on here is closed at %s: %s", p.instrPos(locals[o.key()][0].c), why)
							}
						}
					}
				}
			}
		}
	}
	return &closeInfo{closedFields, flags}
}

func (p *Prog) hasCAS(f *ssa.Function) bool {
	for _, c := range callsOf(f) {
		if casNames[libName(c.Common())] {
			return true
		}
	}
	return false
}

// keptIn names a field the made channel is stored into, if any.
func (p *Prog) keptIn(v ssa.Value) string {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) string
	walk = func(v ssa.Value) string {
		if seen[v] || v.Referrers() == nil {
			return ""
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if fa, ok := i.Addr.(*ssa.FieldAddr); ok && i.Val == v {
					return fieldKey(fa.X.Type(), fa.Field)
				}
				if al, ok := i.Addr.(*ssa.Alloc); ok && i.Val == v {
					for _, rr := range *al.Referrers() {
						if l, ok := rr.(*ssa.UnOp); ok {
							if f := walk(l); f != "" {
								return f
							}
						}
					}
				}
			case *ssa.ChangeType:
				if f := walk(i); f != "" {
					return f
				}
			case *ssa.Phi:
				if f := walk(i); f != "" {
					return f
				}
			}
		}
		return ""
	}
	return walk(v)
}

// flagsOneWay: a flag that guards a close is never set back.
func (p *Prog) flagsOneWay(r *Report, flags map[string]string) {
	type swap struct{ from, to string }
	seen := map[string]swap{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if !ok || flags[fieldKey(fa.X.Type(), fa.Field)] == "" {
						continue
					}
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						n := fieldKey(fa.X.Type(), fa.Field)
						r.fail("flag reset "+n+" in "+fname(f), p.instrPos(in), "%s decides who closes a channel at %s, but is overwritten here: a second caller can win it", n, flags[n])
					}
				case ssa.CallInstruction:
					n := libName(i.Common())
					if !strings.Contains(n, "sync/atomic.") || len(i.Common().Args) == 0 || strings.Contains(n, ".Load") || strings.HasSuffix(n, ").Load") {
						continue
					}
					fa, ok := i.Common().Args[0].(*ssa.FieldAddr)
					if !ok || flags[fieldKey(fa.X.Type(), fa.Field)] == "" {
						continue
					}
					k := fieldKey(fa.X.Type(), fa.Field)
					r.site("guard", k)
					if !casNames[n] {
						r.fail("flag reset "+k+" in "+fname(f), p.instrPos(in), "%s decides who closes a channel at %s, but is changed here by other means: a second caller can win it", k, flags[k])
						continue
					}
					sw := swap{valText(i.Common().Args[1]), valText(i.Common().Args[2])}
					if old, ok := seen[k]; ok && old != sw {
						r.fail("flag reset "+k+" in "+fname(f), p.instrPos(in), "%s decides who closes a channel at %s, but is also swapped from %s to %s here", k, flags[k], sw.from, sw.to)
					}
					seen[k] = sw
				}
			}
		}
	}
}

// runsOnce: the close runs at most once for each time the channel is made; "" if so.
func (p *Prog) runsOnce(c ssa.CallInstruction, site ssa.Value) string {
	f := c.Parent()
	var home *ssa.Function
	if site != nil {
		home = site.Parent()
	}
	blk, in := c.Block(), ssa.Instruction(c)
	_ = in
	for depth := 0; depth < 8; depth++ {
		if f == home {
			if canRepeat(blk, site.(ssa.Instruction).Block()) {
				return "it is in a loop that does not make the channel"
			}
			return ""
		}
		if canRepeat(blk, nil) {
			return "it is in a loop of " + fname(f)
		}
		cs := p.callersOf(f)
		if len(cs) == 0 && home == nil {
			return ""
		}
		if len(cs) != 1 {
			return fmt.Sprintf("%s is called from %d places", fname(f), len(cs))
		}
		n := libName(cs[0].Instr.Common())
		if strings.HasSuffix(n, ").Range") {
			return fname(f) + " is called for every entry"
		}
		f, blk = cs[0].Fn, cs[0].Instr.Block()
	}
	return "it is too far from where the channel is made"
}

// sendBeforeClose: the send cannot come after the close; "" if so.
func (p *Prog) sendBeforeClose(send ssa.Instruction, cl ssa.CallInstruction) string {
	return p.sendBefore(send, cl, 4)
}

func (p *Prog) sendBefore(send ssa.Instruction, cl ssa.CallInstruction, depth int) string {
	sf, cf := send.Parent(), cl.Parent()
	if sf == cf {
		if _, isDefer := cl.(*ssa.Defer); isDefer {
			return ""
		}
		if cl.Block() == send.Block() {
			for _, in := range cl.Block().Instrs {
				if in == send {
					return ""
				}
				if in == ssa.Instruction(cl) {
					break
				}
			}
		}
		seen := map[*ssa.BasicBlock]bool{}
		st := append([]*ssa.BasicBlock{}, cl.Block().Succs...)
		for len(st) > 0 {
			b := st[len(st)-1]
			st = st[:len(st)-1]
			if b == send.Block() {
				return "the send can be reached after the close"
			}
			if !seen[b] {
				seen[b] = true
				st = append(st, b.Succs...)
			}
		}
		if cl.Block() == send.Block() {
			return "the send comes after the close"
		}
		return ""
	}
	// the close waits for the goroutine that sends
	waits := 0
	for _, c := range callsOf(cf) {
		if p.performs(c, 3, true, "(*sync.WaitGroup).Wait", "(*golang.org/x/sync/errgroup.Group).Wait") {
			if _, isDef := c.(*ssa.Defer); isDef {
				continue
			}
			if c.Block() == cl.Block() && before(c, cl) || c.Block() != cl.Block() && c.Block().Dominates(cl.Block()) {
				waits++
			}
		}
	}
	if waits == 0 {
		why := "nothing waits for the goroutine of the send before the close"
		cs := p.callersOf(cf)
		if len(cs) == 0 || depth == 0 {
			return why
		}
		for _, c := range cs {
			if _, isGo := c.Instr.(*ssa.Go); isGo || spawns(c.Instr) || p.sendBefore(send, c.Instr, depth-1) != "" {
				return why
			}
		}
		return ""
	}
	// in the sender, Done only comes after the send
	g, at := sf, send
	for i := 0; i < 5; i++ {
		done := 0
		for _, c := range callsOf(g) {
			if !p.performs(c, 3, false, "(*sync.WaitGroup).Done") {
				continue
			}
			if ssa.Instruction(c) == at {
				continue // the send is inside, too
			}
			done++
			if _, isDef := c.(*ssa.Defer); isDef {
				continue
			}
			if c.Block() == at.Block() && before(c, at) || c.Block() != at.Block() && reachesBlock(c.Block(), at.Block()) {
				return "the goroutine reports that it is done before it sends"
			}
		}
		if done > 0 {
			// announced before it is started
			for _, cs := range p.callersOf(g) {
				if _, isGo := cs.Instr.(*ssa.Go); isGo && !p.announced(cs, 3) {
					return "the goroutine of the send is started before the wait group is told about it"
				}
			}
			return ""
		}
		cs := p.callersOf(g)
		if len(cs) != 1 {
			break
		}
		if libName(cs[0].Instr.Common()) == "(*sync.WaitGroup).Go" {
			return ""
		}
		if _, isGo := cs[0].Instr.(*ssa.Go); isGo {
			break
		}
		g, at = cs[0].Fn, cs[0].Instr
		if g == cf {
			return p.sendBefore(at, cl, 0)
		}
	}
	return "the goroutine of the send never tells the wait group that it is done"
}

// announced: the wait group is told about the goroutine before it is started.
func (p *Prog) announced(cs CallSite, depth int) bool {
	for _, c := range callsOf(cs.Fn) {
		if p.performs(c, 3, true, "(*sync.WaitGroup).Add") && (c.Block() == cs.Instr.Block() && before(c, cs.Instr) || c.Block() != cs.Instr.Block() && c.Block().Dominates(cs.Instr.Block())) {
			return true
		}
	}
	up := p.callersOf(cs.Fn)
	if depth == 0 || len(up) == 0 {
		return false
	}
	for _, u := range up {
		if _, isGo := u.Instr.(*ssa.Go); isGo || !p.announced(u, depth-1) {
			return false
		}
	}
	return true
}

// performs: the call is one of a library function, or of a function of the repository that makes
// one (on every way through it, when must is set).
func (p *Prog) performs(c ssa.CallInstruction, depth int, must bool, names ...string) bool {
	hit := func(in ssa.Instruction) bool {
		if c, ok := in.(ssa.CallInstruction); ok {
			n := libName(c.Common())
			for _, x := range names {
				if n == x {
					return true
				}
			}
		}
		return false
	}
	if hit(c) {
		return true
	}
	if must {
		return p.always(c, depth, hit)
	}
	f := c.Common().StaticCallee()
	if _, isGo := c.(*ssa.Go); isGo || depth == 0 || f == nil {
		return false
	}
	for _, d := range callsOf(f) {
		if p.performs(d, depth-1, false, names...) {
			return true
		}
	}
	return false
}

// always: every way through the function called here comes to an instruction of the kind.
func (p *Prog) always(c ssa.CallInstruction, depth int, hit func(ssa.Instruction) bool) bool {
	f := c.Common().StaticCallee()
	if _, isGo := c.(*ssa.Go); isGo || depth == 0 || f == nil || f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ok := hit(in)
			if d, isCall := in.(ssa.CallInstruction); isCall && !ok {
				ok = p.always(d, depth-1, hit)
			}
			if _, isDef := in.(*ssa.Defer); isDef && b.Index != 0 {
				ok = false
			}
			if !ok {
				continue
			}
			all := true
			for _, e := range f.Blocks {
				if len(e.Instrs) > 0 {
					if _, ret := e.Instrs[len(e.Instrs)-1].(*ssa.Return); ret && !b.Dominates(e) {
						all = false
					}
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(st) > 0 {
		c := st[len(st)-1]
		st = st[:len(st)-1]
		if c == b {
			return true
		}
		if !seen[c] {
			seen[c] = true
			st = append(st, c.Succs...)
		}
	}
	return false
}

// chanAliases groups channel fields that are given the same channel when their objects are made.
func (p *Prog) chanAliases() map[string][]string {
	sites := map[string]map[string]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, isChan := st.Val.Type().Underlying().(*types.Chan); !isChan {
					continue
				}
				k := fieldKey(fa.X.Type(), fa.Field)
				for _, o := range p.chanOrigins(st.Val) {
					if sites[o.key()] == nil {
						sites[o.key()] = map[string]bool{}
					}
					sites[o.key()][k] = true
				}
			}
		}
	}
	out := map[string][]string{}
	for _, m := range sites {
		for a := range m {
			for b := range m {
				if a != b {
					out[a] = append(out[a], b)
				}
			}
		}
	}
	return out
}

func ruleWaitEnds(p *Prog, r *Report) {
	r.rule("Every operation that can block on a channel kept in a field is an obligation: it must be a receive from a channel that is closed when its object is done with, from a signal channel, or a select that also has a default, a timer or a receive from such a closed channel of the same object. Whoever wins the right to close an object must close its channel on every path.")
	dummy := newReport("")
	ci := p.closeFlow(dummy, nil, nil)
	wins := map[string][]map[string]bool{}
	aliases := p.chanAliases()
	p.closeFlow(newReport(""), ci, func(flag, pos string, closed map[string]bool, path []string) {
		if len(closed) == 0 {
			r.failPath("never closed after "+flag, pos, path, "a path wins %s, but does not close the channel others wait on", flag)
			return
		}
		for c := range closed {
			for _, a := range aliases[c] {
				closed[a] = true
			}
		}
		wins[flag] = append(wins[flag], closed)
	})
	// covered: when the object is done with, one of the channels waited on is closed for sure
	covered := func(ws map[string]bool) (string, bool) {
		for flag, sets := range wins {
			hit, miss := false, ""
			for _, set := range sets {
				any := false
				for c := range set {
					any = any || ws[c]
				}
				if any {
					hit = true
				} else {
					for c := range set {
						if miss == "" || c < miss {
							miss = c
						}
					}
				}
			}
			if hit && miss != "" {
				return flag + ": " + miss, false
			}
		}
		return "", true
	}
	closed := map[string]bool{}
	for f := range ci.fields {
		closed[f] = true
		for _, a := range aliases[f] {
			closed[a] = true
		}
	}
	for f := range closed {
		r.site("closing channel", f)
	}
	signals := map[string]bool{}
	for _, f := range p.Funcs {
		for _, c := range callsOf(f) {
			if libName(c.Common()) == "os/signal.Notify" {
				for _, o := range p.chanOrigins(c.Common().Args[0]) {
					signals[o.key()] = true
				}
			}
		}
	}
	fields := func(ch ssa.Value) (fs []chanOrigin) {
		for _, o := range p.chanOrigins(ch) {
			if o.field != nil {
				fs = append(fs, o)
			}
		}
		return
	}
	ends := func(ch ssa.Value, owner string) bool {
		for _, o := range p.chanOrigins(ch) {
			if o.other == "timer" {
				return true
			}
			if o.field != nil && closed[o.owner] && (owner == "" || fieldOwner(o.owner) == owner) {
				return true
			}
		}
		switch v := ch.(type) {
		case *ssa.Call:
			n := libName(&v.Call)
			return n == "time.After" || strings.HasSuffix(n, "context.Context).Done")
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				if n := derefNamed(fa.X.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				where := p.instrPos(in)
				switch i := in.(type) {
				case *ssa.Send:
					for _, o := range fields(i.Chan) {
						r.site("wait", where)
						r.funcs(f)
						r.fail("send on "+o.owner+" in "+fname(f), where, "the send on %s waits for a receiver only: it never ends once the receiver is gone", o.owner)
					}
				case *ssa.UnOp:
					if i.Op != token.ARROW {
						continue
					}
					for _, o := range fields(i.X) {
						r.site("wait", where)
						r.funcs(f)
						if m, ok := covered(map[string]bool{o.owner: true}); !ok {
							r.fail("receive from "+o.owner+" in "+fname(f), where, "the receive from %s never ends when another channel is closed instead (%s)", o.owner, m)
						}
						if !closed[o.owner] && !signals[o.key()] && !signals[o.owner] {
							r.fail("receive from "+o.owner+" in "+fname(f), where, "the receive from %s never ends when nothing is sent any more: the channel is never closed", o.owner)
						}
					}
				case *ssa.Select:
					if !i.Blocking {
						continue
					}
					owner, n := "", 0
					for _, st := range i.States {
						for _, o := range fields(st.Chan) {
							n++
							owner = fieldOwner(o.owner)
						}
					}
					if n == 0 {
						continue
					}
					r.site("wait", where)
					r.funcs(f)
					ok, timer := false, false
					ws := map[string]bool{}
					for _, st := range i.States {
						if st.Dir == types.RecvOnly && ends(st.Chan, "") {
							ok = true
							if len(fields(st.Chan)) == 0 {
								timer = true
							}
						}
						if st.Dir == types.RecvOnly {
							for _, o := range fields(st.Chan) {
								ws[o.owner] = true
							}
						}
					}
					if m, all := covered(ws); !all && !timer {
						r.fail("partial select in "+fname(f), where, "this select does not end when another channel is closed instead (%s)", m)
					}
					if !ok {
						r.fail("select in "+fname(f), where, "none of the cases of this select becomes ready when the %s is closed: the wait may never end", owner)
						continue
					}
					// a wait which only a timer ends although the object can be closed
					can := false
					for c := range closed {
						if fieldOwner(c) == owner {
							can = true
						}
					}
					done := !can
					for _, st := range i.States {
						if st.Dir == types.RecvOnly && len(fields(st.Chan)) > 0 && ends(st.Chan, owner) {
							done = true
						}
					}
					if !done {
						r.fail("deaf select in "+fname(f), where, "this select does not notice that the %s is closed", owner)
					}
				}
			}
		}
	}
	r.min("wait", 5)
	r.min("closing channel", 3)
}
