package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive property simulation (ESP-style): a disjunctive dataflow over the SSA form
// that carries a rule's typestate, nilness and branch facts, and inlines repo functions.
// The domain is finite (terms are depth-bounded and widened at loop heads), states are merged
// when equal, and the result covers every path of the inlined control-flow graph.

type Fact struct {
	nilness int8 // 0 unknown, 1 nil, 2 not nil
	truth   int8 // 0 unknown, 1 true, 2 false
	eq      *Term
	neq     string
	dom     uint64 // possible small ints, bit v+1 for value v, bit 63 = anything larger
	hasDom  bool
}

type TSVal struct {
	s string
	t *Term
}

type deferred struct {
	in   *ssa.Defer
	args []*Term
	clo  *Term
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	idx     int
	prev    *ssa.BasicBlock
	env     map[ssa.Value]*Term
	defers  []deferred
	ctx     int
	call    ssa.CallInstruction                      // call in the parent frame (nil for the root)
	resume  func(x *Exec, s *State, results []*Term) // after return; nil = bind call value
	running bool                                     // running defers
	args    []*Term
}

type Trace struct {
	prev *Trace
	text string
}

type State struct {
	frames []*Frame
	store  map[*Term]*Term
	facts  map[*Term]Fact
	dirty  map[string]bool
	ts     map[string]TSVal
	trace  *Trace
	dead   bool
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) clone() *State {
	n := &State{trace: s.trace}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.store = make(map[*Term]*Term, len(s.store))
	for k, v := range s.store {
		n.store[k] = v
	}
	n.facts = make(map[*Term]Fact, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.dirty = make(map[string]bool, len(s.dirty))
	for k := range s.dirty {
		n.dirty[k] = true
	}
	n.ts = make(map[string]TSVal, len(s.ts))
	for k, v := range s.ts {
		n.ts[k] = v
	}
	return n
}

func (s *State) get(k string) string    { return s.ts[k].s }
func (s *State) set(k, v string)        { s.ts[k] = TSVal{s: v} }
func (s *State) setT(k string, t *Term) { s.ts[k] = TSVal{t: t} }
func (s *State) getT(k string) *Term    { return s.ts[k].t }
func (s *State) del(k string)           { delete(s.ts, k) }

func (s *State) note(format string, a ...interface{}) {
	s.trace = &Trace{prev: s.trace, text: fmt.Sprintf(format, a...)}
}

func (s *State) path() []string {
	var out []string
	for t := s.trace; t != nil; t = t.prev {
		out = append(out, t.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	// drop consecutive duplicates and keep the report short
	var o2 []string
	for _, l := range out {
		if len(o2) == 0 || o2[len(o2)-1] != l {
			o2 = append(o2, l)
		}
	}
	if len(o2) > 40 {
		o2 = append(append([]string{}, o2[:10]...), append([]string{"..."}, o2[len(o2)-28:]...)...)
	}
	return o2
}

// CallAction tells the engine how to treat a call.
type CallAction struct {
	Kind    int     // actDefault, actInline, actOpaque
	Results []*Term // for actOpaque: known results (nil entries = unknown)
	Pure    bool    // opaque call which changes no cell
	Stop    bool    // abandon the path
}

const (
	actDefault = iota
	actInline
	actOpaque
)

// Hooks are the rule's transfer functions.
type Hooks struct {
	Call       func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction
	Go         func(x *Exec, s *State, c *ssa.Go, callees []*ssa.Function, args []*Term)
	Branch     func(x *Exec, s *State, cond *Term, truth bool, in *ssa.If)
	Deref      func(x *Exec, s *State, base *Term, in ssa.Instruction)
	Write      func(x *Exec, s *State, addr, val *Term, in ssa.Instruction)
	Load       func(x *Exec, s *State, addr, val *Term, in ssa.Instruction)
	Return     func(x *Exec, s *State, fr *Frame, results []*Term) // every frame, before it is popped
	Panic      func(x *Exec, s *State, in *ssa.Panic)
	Instr      func(x *Exec, s *State, in ssa.Instruction)     // any instruction, before it is evaluated
	Block      func(x *Exec, s *State, b *ssa.BasicBlock) bool // at block entry; false stops the path
	TypeAssert func(x *Exec, s *State, v *Term, in *ssa.TypeAssert)
	// Phi runs at block entry with the value that comes in, before it is widened.
	Phi    func(x *Exec, s *State, phi *ssa.Phi, in *Term)
	Recv   func(x *Exec, s *State, ch *Term, in ssa.Instruction)
	Send   func(x *Exec, s *State, ch, v *Term, in ssa.Instruction)
	Select func(x *Exec, s *State, in *ssa.Select, idx *Term)
	// Case makes the engine fork at each select: it runs once per case with the index chosen
	// (-1 is the default case) and the terms of the select's tuple.
	Case func(x *Exec, s *State, in *ssa.Select, k int, res []*Term)
	// After runs when an inlined or opaque call has produced its results.
	After func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args, results []*Term)
}

type Exec struct {
	p        *Prog
	H        Hooks
	tp       *termPool
	ctxs     map[[2]int]int
	siteIDs  map[ssa.Instruction]int
	live     map[*ssa.Function]*liveInfo
	memo     map[string]bool
	work     []*State
	MaxDepth int
	Budget   int
	Steps    int
	States   int
	Inlined  map[*ssa.Function]bool
	Opaque   func(fn *ssa.Function) bool // functions never inlined
	GoInline bool                        // a go statement is interpreted as a call
	Soft     bool                        // an exceeded budget only sets Over
	Over     bool
	Depth    int // terms deeper than this are replaced by their leaves
	modMemo  map[*ssa.Function]map[string]bool
	dumped   int
	// Chain continues after the root function has returned: it may start another function in
	// the same state by returning its frame.
	Chain func(x *Exec, s *State, fr *Frame, results []*Term) *Frame
}

func NewExec(p *Prog) *Exec {
	return &Exec{p: p, tp: newPool(), ctxs: map[[2]int]int{}, siteIDs: map[ssa.Instruction]int{}, live: map[*ssa.Function]*liveInfo{},
		memo: map[string]bool{}, MaxDepth: 14, Depth: 5, Budget: 400000, Inlined: map[*ssa.Function]bool{}, modMemo: map[*ssa.Function]map[string]bool{}}
}

func (x *Exec) siteID(in ssa.Instruction) int {
	if id, ok := x.siteIDs[in]; ok {
		return id
	}
	id := len(x.siteIDs) + 1
	x.siteIDs[in] = id
	return id
}

func (x *Exec) subCtx(ctx int, in ssa.Instruction) int {
	k := [2]int{ctx, x.siteID(in)}
	if id, ok := x.ctxs[k]; ok {
		return id
	}
	id := len(x.ctxs) + 1
	x.ctxs[k] = id
	return id
}

// Param makes the term of a root parameter.
func (x *Exec) Param(v ssa.Value) *Term { return x.tp.mk("param", v.Name(), v.Type()) }

// Run explores fn from its entry. init may prepare the initial state.
func (x *Exec) Run(fn *ssa.Function, args []*Term, init func(s *State)) {
	s := &State{store: map[*Term]*Term{}, facts: map[*Term]Fact{}, dirty: map[string]bool{}, ts: map[string]TSVal{}}
	fr := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]*Term{}}
	for i, pa := range fn.Params {
		if args != nil && i < len(args) && args[i] != nil {
			fr.env[pa] = args[i]
		} else {
			fr.env[pa] = x.Param(pa)
		}
	}
	for _, fv := range fn.FreeVars {
		fr.env[fv] = x.tp.mk("param", "free "+fv.Name(), fv.Type())
		// a captured variable is a valid address
		s.facts[fr.env[fv]] = Fact{nilness: 2}
	}
	if fn.Signature.Recv() != nil && len(fn.Params) > 0 {
		s.facts[fr.env[fn.Params[0]]] = Fact{nilness: 2}
	}
	s.frames = []*Frame{fr}
	if init != nil {
		init(s)
	}
	x.Inlined[fn] = true
	x.memo = map[string]bool{}
	x.push(s)
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.step(st)
		if x.Steps > x.Budget && x.Soft {
			x.Over, x.work = true, nil
			return
		}
		if x.Steps > x.Budget {
			fatalf("undecided: state budget of %d exceeded in %s", x.Budget, fname(fn))
		}
	}
}

func (x *Exec) push(s *State) { x.work = append(x.work, s) }

// ---- liveness ----

type liveInfo struct {
	in, out []map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

func (x *Exec) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := x.live[fn]; ok {
		return l
	}
	n := len(fn.Blocks)
	l := &liveInfo{in: make([]map[ssa.Value]bool, n), out: make([]map[ssa.Value]bool, n)}
	for i := range l.in {
		l.in[i] = map[ssa.Value]bool{}
		l.out[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, sc := range b.Succs {
				for v := range l.in[sc.Index] {
					out[v] = true
				}
				pi := predIndex(sc, b)
				for _, in := range sc.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, phi)
				}
				for _, in := range sc.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					// a block may precede sc on several edges
					for k, pr := range sc.Preds {
						if pr == b && tracked(phi.Edges[k]) {
							out[phi.Edges[k]] = true
						}
					}
				}
				_ = pi
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && tracked(*op) {
						in[*op] = true
					}
				}
			}
			if len(in) != len(l.in[i]) || len(out) != len(l.out[i]) {
				changed = true
			}
			l.in[i], l.out[i] = in, out
		}
	}
	// free variables and parameters used by defers stay live through the defer list's terms
	x.live[fn] = l
	return l
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

// ---- state key ----

func (x *Exec) key(s *State) string {
	reach := map[*Term]bool{}
	sib := map[*Term]bool{} // calls some result of which is still in use
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		if t.op == "call" && t.site != nil {
			sib[x.callBase(t)] = true
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range s.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, t := range f.args {
			mark(t)
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				mark(a)
			}
			mark(d.clo)
		}
	}
	for _, v := range s.ts {
		mark(v.t)
	}
	pmemo := map[*Term]bool{}
	var persistent func(t *Term) bool
	persistent = func(t *Term) bool {
		if v, ok := pmemo[t]; ok {
			return v
		}
		ok := true
		switch {
		case reach[t]:
			pmemo[t] = true
			return true
		case t.site != nil:
			// a value computed at a site that nothing can name any more
			ok = t.op == "call" && sib[x.callBase(t)]
		case len(t.args) == 0:
			switch t.op {
			case "param", "global", "const", "nil", "func":
			default:
				ok = false
			}
		default:
			for _, a := range t.args {
				if !persistent(a) {
					ok = false
					break
				}
			}
		}
		if ok {
			pmemo[t] = true
		}
		return ok
	}
	// cells: keep those whose base is reachable or persistent
	for changed := true; changed; {
		changed = false
		for a, v := range s.store {
			if !reach[a] && persistent(a) {
				mark(a)
				changed = true
			}
			if reach[a] && !reach[v] {
				mark(v)
				changed = true
			}
		}
	}
	for a := range s.store {
		if !reach[a] {
			delete(s.store, a)
		}
	}
	for t := range s.facts {
		if !reach[t] && !persistent(t) {
			// a fact about a compound term stays if its atoms are alive
			delete(s.facts, t)
		}
	}
	var sb strings.Builder
	for _, f := range s.frames {
		fmt.Fprintf(&sb, "F%d:%d:%d:%v:", x.ctxKey(f), f.block.Index, f.idx, f.running)
		if f.idx == 0 && f.prev != nil {
			// phis are already evaluated when the key is taken
		}
		ids := make([]string, 0, len(f.env))
		for v, t := range f.env {
			ids = append(ids, fmt.Sprintf("%s=%d", v.Name(), t.id))
		}
		sort.Strings(ids)
		sb.WriteString(strings.Join(ids, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&sb, ";d%d", x.siteID(d.in))
			for _, a := range d.args {
				fmt.Fprintf(&sb, ".%d", a.id)
			}
			if d.clo != nil {
				fmt.Fprintf(&sb, "c%d", d.clo.id)
			}
		}
		sb.WriteByte('\n')
	}
	ents := make([]string, 0, len(s.store)+len(s.facts)+len(s.ts))
	for a, v := range s.store {
		ents = append(ents, fmt.Sprintf("S%d=%d", a.id, v.id))
	}
	for t, f := range s.facts {
		eq := 0
		if f.eq != nil {
			eq = f.eq.id
		}
		ents = append(ents, fmt.Sprintf("C%d=%d.%d.%d.%s.%x.%v", t.id, f.nilness, f.truth, eq, f.neq, f.dom, f.hasDom))
	}
	for k, v := range s.ts {
		id := 0
		if v.t != nil {
			id = v.t.id
		}
		ents = append(ents, fmt.Sprintf("T%s=%s.%d", k, v.s, id))
	}
	for k := range s.dirty {
		ents = append(ents, "D"+k)
	}
	sort.Strings(ents)
	sb.WriteString(strings.Join(ents, ";"))
	return sb.String()
}

// callBase names the call a result belongs to.
func (x *Exec) callBase(t *Term) *Term {
	a := t.aux
	if i := strings.LastIndexByte(a, '.'); i >= 0 {
		a = a[:i]
	}
	return x.tp.mk("callbase", a, nil, t.args...)
}

func (x *Exec) ctxKey(f *Frame) int { return f.ctx*4096 + int(x.siteID(f.fn.Blocks[0].Instrs[0]))%4096 }

// ---- evaluation ----

func (x *Exec) eval(s *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return x.tp.constant(c.Value, c.Type())
	case *ssa.Function:
		t := x.tp.mk("func", c.String(), c.Type())
		t.fn = c
		return t
	case *ssa.Global:
		return x.tp.mk("global", shortGlobal(c), c.Type())
	case *ssa.Builtin:
		return x.tp.mk("builtin", c.Name(), nil)
	}
	if t, ok := s.top().env[v]; ok {
		return t
	}
	// a value of an enclosing path that was pruned or not tracked
	return x.tp.mk("unknown", fmt.Sprintf("%s#%s", v.Parent().String(), v.Name()), v.Type())
}

func shortGlobal(g *ssa.Global) string {
	return strings.TrimPrefix(strings.TrimPrefix(g.String(), ModPath+"/pkg/"), ModPath+"/")
}

// fresh makes the site-named term for a value computed by in, renaming an older one.
func (x *Exec) fresh(s *State, op, aux string, in ssa.Instruction, typ types.Type, args ...*Term) *Term {
	args = x.bound(args)
	t := x.tp.mk(op, fmt.Sprintf("%d.%d%s", s.top().ctx, x.siteID(in), aux), typ, args...)
	t.site = in
	x.rename(s, t)
	return t
}

// bound keeps terms shallow: arguments that are too deep are replaced by their leaves.
func (x *Exec) bound(args []*Term) []*Term {
	var out []*Term
	for _, a := range args {
		if a.depth > x.Depth {
			out = append(out, x.leafTerm(a))
		} else {
			out = append(out, a)
		}
	}
	return out
}

func (x *Exec) leafTerm(a *Term) *Term {
	ls := a.leaves()
	if len(ls) == 1 && ls[0] == a {
		return a
	}
	return x.tp.mk("mix", "", a.typ, ls...)
}

func (x *Exec) rename(s *State, t *Term) {
	if !x.occurs(s, t) {
		return
	}
	old := x.tp.mk("old", fmt.Sprint(t.id), t.typ)
	hadOld := x.occurs(s, old)
	memo := map[*Term]*Term{}
	sub := func(u *Term) *Term { return x.subst(u, t, old, memo) }
	for _, f := range s.frames {
		for k, v := range f.env {
			f.env[k] = sub(v)
		}
		if len(f.args) > 0 {
			na := make([]*Term, len(f.args))
			for j, a := range f.args {
				na[j] = sub(a)
			}
			f.args = na
		}
		for i := range f.defers {
			na := make([]*Term, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				na[j] = sub(a)
			}
			f.defers[i].args = na
			if f.defers[i].clo != nil {
				f.defers[i].clo = sub(f.defers[i].clo)
			}
		}
	}
	ns := map[*Term]*Term{}
	for _, k := range sortedCells(s.store) {
		nk, nv := sub(k), sub(s.store[k])
		if o, had := ns[nk]; had && o != nv {
			nv = x.join(s, o, nv)
		}
		ns[nk] = nv
	}
	s.store = ns
	nf := map[*Term]Fact{}
	for k, v := range s.facts {
		nk := sub(k)
		if nk != k {
			// facts about replaced values: nilness survives, the rest is dropped
			if o, had := s.facts[nk]; v.nilness != 0 && (!had || o.nilness == v.nilness) && !hadOld {
				nf[nk] = Fact{nilness: v.nilness}
			}
			continue
		}
		if hadOld && k.mentions(old) {
			continue
		}
		nf[k] = v
	}
	s.facts = nf
	for k, v := range s.ts {
		if v.t != nil {
			s.ts[k] = TSVal{v.s, sub(v.t)}
		}
	}
}

func (x *Exec) occurs(s *State, t *Term) bool {
	for _, f := range s.frames {
		for _, v := range f.env {
			if v.mentions(t) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if a.mentions(t) {
					return true
				}
			}
			if d.clo != nil && d.clo.mentions(t) {
				return true
			}
		}
	}
	for k, v := range s.store {
		if k.mentions(t) || v.mentions(t) {
			return true
		}
	}
	for k := range s.facts {
		if k.mentions(t) {
			return true
		}
	}
	for _, v := range s.ts {
		if v.t != nil && v.t.mentions(t) {
			return true
		}
	}
	return false
}

func (x *Exec) subst(u, t, n *Term, memo map[*Term]*Term) *Term {
	if u == t {
		return n
	}
	if !u.mentions(t) {
		return u
	}
	if r, ok := memo[u]; ok {
		return r
	}
	as := make([]*Term, len(u.args))
	for i, a := range u.args {
		as[i] = x.subst(a, t, n, memo)
	}
	r := x.tp.mk(u.op, u.aux, u.typ, as...)
	r.val, r.fn, r.site, r.conc = u.val, u.fn, u.site, u.conc
	memo[u] = r
	return r
}

// ---- facts ----

// Nilness returns 1 (nil), 2 (not nil) or 0.
func (x *Exec) Nilness(s *State, t *Term) int8 {
	for u := t; ; {
		if u.isNil() {
			return 1
		}
		if u.inherentNonNil() {
			return 2
		}
		if f, ok := s.facts[u]; ok && f.nilness != 0 {
			return f.nilness
		}
		switch u.op {
		case "chg":
			u = u.args[0]
			continue
		case "ta":
			// the value of v.(T): nil only if the assertion failed
			if f, ok := s.facts[x.tp.mk("ok", u.aux, nil, u.args[0])]; ok {
				if f.truth == 1 {
					return 2
				}
				if f.truth == 2 {
					return 1
				}
			}
			return 0
		case "load":
			if len(u.args) == 1 && u.args[0].op == "global" && x.p.globalNonNil(u.args[0].aux) {
				return 2
			}
		case "slice":
			return x.Nilness(s, u.args[0])
		case "append":
			return 2
		case "join":
			n := x.Nilness(s, u.args[0])
			for _, a := range u.args[1:] {
				if x.Nilness(s, a) != n {
					return 0
				}
			}
			return n
		}
		return 0
	}
}

func (x *Exec) addFact(s *State, t *Term, f func(*Fact)) {
	v := s.facts[t]
	f(&v)
	s.facts[t] = v
}

const domBig = uint64(1) << 63

func domBit(v int64) uint64 {
	if v < -1 {
		return 0
	}
	if v > 40 {
		return domBig
	}
	return uint64(1) << uint(v+1)
}

// domain of a len or select-index term.
func (x *Exec) domain(s *State, t *Term) (uint64, bool) {
	if f, ok := s.facts[t]; ok && f.hasDom {
		return f.dom, true
	}
	switch t.op {
	case "len":
		d := domBig
		for v := int64(0); v <= 40; v++ {
			d |= domBit(v)
		}
		if x.Nilness(s, t.args[0]) == 1 {
			return domBit(0), true
		}
		return d, true
	case "selidx":
		return t.selDom(), true
	}
	return 0, false
}

func (t *Term) selDom() uint64 {
	var n int64
	var blocking bool
	fmt.Sscanf(t.aux[strings.LastIndexByte(t.aux, '/')+1:], "%d,%t", &n, &blocking)
	var d uint64
	for v := int64(0); v < n; v++ {
		d |= domBit(v)
	}
	if !blocking {
		d |= domBit(-1)
	}
	return d
}

// domLeaf finds the only len/select leaf an integer or boolean term depends on.
func domLeaf(s *State, t *Term) (*Term, bool) {
	if f, ok := s.facts[t]; ok && f.hasDom {
		return t, true
	}
	switch t.op {
	case "len", "selidx":
		return t, true
	case "const":
		return nil, true
	case "cmp", "bin", "not":
		var leaf *Term
		for _, a := range t.args {
			l, ok := domLeaf(s, a)
			if !ok {
				return nil, false
			}
			if l != nil {
				if leaf != nil && leaf != l {
					return nil, false
				}
				leaf = l
			}
		}
		return leaf, true
	}
	return nil, false
}

func evalAt(t, leaf *Term, v constant.Value) constant.Value {
	if t == leaf {
		return v
	}
	switch t.op {
	case "const":
		return t.val
	case "not":
		a := evalAt(t.args[0], leaf, v)
		if a == nil || a.Kind() != constant.Bool {
			return nil
		}
		return constant.MakeBool(!constant.BoolVal(a))
	case "cmp", "bin":
		a, b := evalAt(t.args[0], leaf, v), evalAt(t.args[1], leaf, v)
		if a == nil || b == nil {
			return nil
		}
		op := tokenOf(t.aux)
		if t.op == "cmp" {
			return constant.MakeBool(constant.Compare(a, op, b))
		}
		return foldBin(op, a, b)
	}
	return nil
}

func foldBin(op token.Token, a, b constant.Value) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case token.SHL, token.SHR:
		n, ok := constant.Uint64Val(b)
		if !ok || n > 64 {
			return nil
		}
		return constant.Shift(a, op, uint(n))
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			if constant.Sign(b) == 0 {
				return nil
			}
			op = token.QUO_ASSIGN
		}
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
	}
	return constant.BinaryOp(a, op, b)
}

var tokNames = map[string]token.Token{}

func init() {
	for t := token.ADD; t <= token.TILDE; t++ {
		tokNames[t.String()] = t
	}
}

func tokenOf(s string) token.Token { return tokNames[s] }

// Truth evaluates a boolean term: 1 true, 2 false, 0 unknown.
func (x *Exec) Truth(s *State, t *Term) int8 {
	if b, ok := t.boolVal(); ok {
		if b {
			return 1
		}
		return 2
	}
	if f, ok := s.facts[t]; ok && f.truth != 0 {
		return f.truth
	}
	switch t.op {
	case "not":
		switch x.Truth(s, t.args[0]) {
		case 1:
			return 2
		case 2:
			return 1
		}
		return 0
	case "ok":
		if x.Nilness(s, t.args[0]) == 1 {
			return 2
		}
	case "pure":
		if strings.HasPrefix(t.aux, "errors.Is") && len(t.args) == 2 {
			if t.args[0] == t.args[1] {
				return 1
			}
			if x.Nilness(s, t.args[0]) == 1 && x.Nilness(s, t.args[1]) == 2 {
				return 2
			}
			if isSentinel(t.args[0]) && isSentinel(t.args[1]) {
				return 2
			}
		}
	case "cmp":
		a, b := t.args[0], t.args[1]
		if t.aux == "==" {
			if a == b {
				if a.any(func(u *Term) bool { return u.op == "old" }) {
					return 0
				}
				return 1
			}
			if b.isNil() {
				switch x.Nilness(s, a) {
				case 1:
					return 1
				case 2:
					return 2
				}
				return 0
			}
			if a.isConst() && b.isConst() {
				return 2
			}
			if b.isConst() {
				if f, ok := s.facts[a]; ok {
					if f.eq != nil {
						if f.eq == b {
							return 1
						}
						if f.eq.isConst() {
							return 2
						}
					}
					if strings.Contains(f.neq, fmt.Sprintf(",%d,", b.id)) {
						return 2
					}
				}
			}
			// distinct fresh objects never compare equal
			ca, cb := a.canon(), b.canon()
			if ca != cb && isFreshObj(ca) && isFreshObj(cb) {
				return 2
			}
			na, nb := x.Nilness(s, a), x.Nilness(s, b)
			if na == 1 && nb == 2 || na == 2 && nb == 1 {
				return 2
			}
			if na == 1 && nb == 1 {
				return 1
			}
		}
		if l, k, neg, ok := lessThan(t); ok {
			if r := s.lessByOthers(l, k); r != 0 {
				if neg {
					r = 3 - r
				}
				return r
			}
		}
		if l, ok := domLeaf(s, t); ok && l != nil {
			d, ok := x.domain(s, l)
			if ok {
				sawT, sawF := false, false
				for v := int64(-1); v <= 41; v++ {
					bit := domBit(v)
					if d&bit == 0 {
						continue
					}
					r := evalAt(t, l, constant.MakeInt64(v))
					if r == nil || r.Kind() != constant.Bool {
						return 0
					}
					if constant.BoolVal(r) {
						sawT = true
					} else {
						sawF = true
					}
					if v == 41 { // the class of larger values
						for _, w := range bigSamples(t) {
							r = evalAt(t, l, constant.MakeInt64(w))
							if r != nil && r.Kind() == constant.Bool {
								if constant.BoolVal(r) {
									sawT = true
								} else {
									sawF = true
								}
							}
						}
					}
				}
				if sawT && !sawF {
					return 1
				}
				if sawF && !sawT {
					return 2
				}
			}
		}
	}
	return 0
}

// bigSamples are values above 40 at which a condition on a length can change: both parities,
// everything near a constant of the condition, and values beyond all of them.
func bigSamples(t *Term) []int64 {
	out := []int64{42, 1<<40 + 1, 1 << 41}
	var ks []int64
	t.any(func(u *Term) bool {
		if k, ok := u.intVal(); ok && u.op == "const" {
			ks = append(ks, k)
		}
		return false
	})
	seen := map[int64]bool{}
	var base []int64
	for _, k := range ks {
		if !seen[k] && len(base) < 24 {
			base = append(base, k)
		}
		seen[k] = true
	}
	ks = append([]int64{}, base...)
	for _, k := range base {
		for _, j := range base {
			ks = append(ks, k+j, k-j)
			if k > 0 && j > 0 && k < 1<<30 && j < 1<<30 {
				ks = append(ks, k*j)
			}
		}
	}
	for _, k := range ks {
		for d := int64(-2); d <= 2; d++ {
			if k+d > 40 {
				out = append(out, k+d)
			}
		}
	}
	return out
}

func isFreshObj(t *Term) bool {
	switch t.op {
	case "alloc", "make", "clo":
		return true
	}
	return false
}

func isSentinel(t *Term) bool {
	return t.op == "load" && len(t.args) == 1 && t.args[0].op == "global"
}

// Assume refines the state with cond==truth; false if that is infeasible.
func (x *Exec) Assume(s *State, t *Term, truth bool) bool {
	switch x.Truth(s, t) {
	case 1:
		if !truth {
			return false
		}
	case 2:
		if truth {
			return false
		}
	}
	if t.op == "const" {
		return true
	}
	if t.op == "not" {
		return x.Assume(s, t.args[0], !truth)
	}
	tv := int8(2)
	if truth {
		tv = 1
	}
	x.addFact(s, t, func(f *Fact) { f.truth = tv })
	switch t.op {
	case "ok":
		if truth {
			x.setNil(s, t.args[0], 2)
		}
	case "pure":
		if strings.HasPrefix(t.aux, "errors.Is") && truth && len(t.args) == 2 && x.Nilness(s, t.args[1]) == 2 {
			x.setNil(s, t.args[0], 2)
		}
	case "cmp":
		a, b := t.args[0], t.args[1]
		if t.aux == "==" {
			if b.isNil() {
				if truth {
					x.setNil(s, a, 1)
				} else {
					x.setNil(s, a, 2)
				}
				delete(s.facts, t)
			} else if b.isConst() {
				if truth {
					x.addFact(s, a, func(f *Fact) { f.eq = b })
				} else {
					x.addFact(s, a, func(f *Fact) { f.neq = addNeq(f.neq, b.id) })
				}
			} else if truth {
				na, nb := x.Nilness(s, a), x.Nilness(s, b)
				if na != 0 && nb == 0 {
					x.setNil(s, b, na)
				} else if nb != 0 && na == 0 {
					x.setNil(s, a, nb)
				}
			}
		}
		if l, ok := domLeaf(s, t); ok && l != nil {
			d, ok := x.domain(s, l)
			if ok {
				var nd uint64
				for v := int64(-1); v <= 41; v++ {
					bit := domBit(v)
					if d&bit == 0 {
						continue
					}
					keep := false
					ws := []int64{v}
					if v == 41 {
						ws = append(ws, bigSamples(t)...)
					}
					for _, w := range ws {
						r := evalAt(t, l, constant.MakeInt64(w))
						if r == nil || r.Kind() != constant.Bool || constant.BoolVal(r) == truth {
							keep = true
						}
					}
					if keep {
						nd |= bit
					}
				}
				if nd == 0 {
					return false
				}
				x.addFact(s, l, func(f *Fact) { f.dom, f.hasDom = nd, true })
			}
		}
	}
	return true
}

func addNeq(s string, id int) string {
	k := fmt.Sprintf("%d", id)
	if s == "" {
		s = ","
	}
	if strings.Contains(s, ","+k+",") {
		return s
	}
	parts := strings.Split(strings.Trim(s, ","), ",")
	if parts[0] == "" {
		parts = nil
	}
	parts = append(parts, k)
	sort.Strings(parts)
	return "," + strings.Join(parts, ",") + ","
}

func (x *Exec) setNil(s *State, t *Term, n int8) {
	for {
		if t.isNil() || t.inherentNonNil() {
			return
		}
		x.addFact(s, t, func(f *Fact) { f.nilness = n })
		if t.op == "chg" {
			t = t.args[0]
			continue
		}
		if t.op == "ta" && n == 2 {
			t = t.args[0]
			continue
		}
		return
	}
}

// ---- memory ----

func sortedCells(m map[*Term]*Term) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// join is a value that is one of several.
func (x *Exec) join(s *State, vals ...*Term) *Term {
	m := map[*Term]bool{}
	var typ types.Type
	var add func(v *Term)
	add = func(v *Term) {
		if v.op == "join" {
			for _, a := range v.args {
				add(a)
			}
			return
		}
		if typ == nil {
			typ = v.typ
		}
		m[v] = true
	}
	for _, v := range vals {
		add(v)
	}
	vs := sortedTerms(m)
	if len(vs) == 1 {
		return vs[0]
	}
	deep := len(vs) > 8
	nn := true
	for _, v := range vs {
		if v.depth > x.Depth {
			deep = true
		}
		if x.Nilness(s, v) != 2 {
			nn = false
		}
	}
	if deep {
		l := map[*Term]bool{}
		for _, v := range vs {
			for _, a := range v.leaves() {
				l[a] = true
			}
		}
		op := "mix"
		if nn {
			op = "nonnil"
		}
		return x.tp.mk(op, "", typ, sortedTerms(l)...)
	}
	return x.tp.mk("join", "", typ, vs...)
}

// keepNil records in the value itself that it is not nil here.
func (x *Exec) keepNil(s *State, v *Term) *Term {
	if v.inherentNonNil() || x.Nilness(s, v) != 2 {
		return v
	}
	return x.tp.mk("nonnil", "", v.typ, v)
}

func (x *Exec) sumCell(base *Term) *Term { return x.tp.mk("elemsum", "", nil, base) }

// elements joins what may have been stored in an array or slice made by the program; nil if
// nothing was.
func (x *Exec) elements(s *State, base *Term, constOnly bool) *Term {
	var vals []*Term
	if v, ok := s.store[x.sumCell(base)]; ok {
		vals = append(vals, v)
	}
	if !constOnly {
		for _, a := range sortedCells(s.store) {
			if a.op == "elemaddr" && a.args[0] == base {
				vals = append(vals, s.store[a])
			}
		}
	}
	if len(vals) == 0 {
		return nil
	}
	if s.dirty[fmt.Sprintf("hole%d", base.id)] {
		vals = append(vals, x.tp.nilT())
	}
	return x.join(s, vals...)
}

// elemNil is the nilness all elements of a slice share.
func (x *Exec) elemsNonNil(s *State, t *Term) bool {
	switch t.op {
	case "nil":
		return true
	case "append":
		for _, e := range t.args[1:] {
			if x.Nilness(s, e) != 2 {
				return false
			}
		}
		return x.elemsNonNil(s, t.args[0])
	case "appendv":
		return x.elemsNonNil(s, t.args[0]) && x.elemsNonNil(s, t.args[1])
	case "iter", "mix":
		return strings.HasSuffix(t.aux, "nn")
	case "slice":
		return x.elemsNonNil(s, t.args[0])
	case "make", "alloc":
		v := x.elements(s, t, false)
		return v != nil && x.Nilness(s, v) == 2
	case "join":
		for _, a := range t.args {
			if !x.elemsNonNil(s, a) {
				return false
			}
		}
		return true
	}
	return false
}

// Load reads a cell.
func (x *Exec) load(s *State, addr *Term, in ssa.Instruction, typ types.Type) *Term {
	if v, ok := s.store[addr]; ok {
		return v
	}
	switch addr.op {
	case "alloc":
		return x.tp.zero(typ)
	case "fieldaddr":
		base := addr.args[0]
		for base.op == "fieldaddr" && s.store[base] == nil {
			base = base.args[0]
		}
		if base.op == "alloc" {
			return x.tp.zero(typ)
		}
		if s.dirty[addr.aux] {
			return x.fresh(s, "reload", "", in, typ, x.bound([]*Term{addr})...)
		}
	case "elemaddr":
		base := addr.args[0]
		if base.op == "alloc" || (base.op == "make" && base.typ != nil) {
			_, konst := addr.args[1].intVal()
			v := x.elements(s, base, konst)
			if v == nil {
				return x.tp.zero(typ)
			}
			n := x.Nilness(s, v)
			t := x.fresh(s, "elem", "", in, typ, x.bound([]*Term{v})...)
			if n == 2 {
				x.setNil(s, t, 2)
			}
			return t
		}
		if base.op == "append" || base.op == "appendv" || base.op == "iter" || base.op == "join" {
			nn := x.elemsNonNil(s, base)
			t := x.fresh(s, "elem", "", in, typ, x.bound([]*Term{addr})...)
			if nn {
				x.setNil(s, t, 2)
			}
			s.store[addr] = t
			return t
		}
		if s.dirty["elem"] {
			// what was read stays there until something may write it
			t := x.fresh(s, "elem", "", in, typ, x.bound([]*Term{addr})...)
			s.store[addr] = t
			return t
		}
	case "global":
		if s.dirty["global "+addr.aux] {
			return x.fresh(s, "reload", "", in, typ, addr)
		}
	}
	t := x.tp.mk("load", "", typ, x.bound([]*Term{addr})...)
	t.typ = typ
	return t
}

// storeTo writes a cell with weak updates for possible aliases.
func (x *Exec) storeTo(s *State, addr, val *Term, in ssa.Instruction) {
	switch addr.op {
	case "elemaddr":
		base := addr.args[0]
		_, konst := addr.args[1].intVal()
		if base.op == "alloc" || base.op == "make" {
			if !konst {
				sum := x.sumCell(base)
				vals := []*Term{x.keepNil(s, val)}
				for _, a := range sortedCells(s.store) {
					if a == sum || a.op == "elemaddr" && a.args[0] == base {
						vals = append(vals, x.keepNil(s, s.store[a]))
						delete(s.store, a)
					}
				}
				s.store[sum] = x.join(s, vals...)
			} else {
				for _, a := range sortedCells(s.store) {
					if _, k := a.argInt(1); a.op == "elemaddr" && a.args[0] == base && !k {
						delete(s.store, a) // part of the summary
					}
				}
			}
		} else {
			s.dirty["elem"] = true
			for a := range s.store {
				if a.op == "elemaddr" && a != addr && mayAlias(a.args[0], base) {
					delete(s.store, a)
				}
			}
		}
	case "fieldaddr":
		base := addr.args[0]
		for a := range s.store {
			if a != addr && a.op == "fieldaddr" && a.aux == addr.aux && mayAlias(a.args[0], base) {
				s.store[a] = x.tp.mk("unknown", fmt.Sprintf("%d.%d.k%d", s.top().ctx, x.siteID(in), a.id), nil)
			}
		}
		if base.op != "alloc" {
			s.dirty[addr.aux] = true
		}
	case "global":
		s.dirty["global "+addr.aux] = true
	}
	s.store[addr] = val
}

func dedupTerms(ts []*Term) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !m[t] {
			m[t] = true
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "alloc" || b.op == "alloc" {
		// a fresh object only aliases terms that may have loaded it
		if a.op == "alloc" && b.op == "alloc" {
			return false
		}
		o := a
		if a.op == "alloc" {
			o = b
		}
		return o.op == "unknown" || o.op == "reload"
	}
	if a.op == "param" && b.op == "param" && a != b {
		return false // distinct receivers/arguments of the rule's entry point
	}
	return true
}

// havoc drops what an opaque repo callee may change.
func (x *Exec) havoc(s *State, callees []*ssa.Function, args []*Term, in ssa.Instruction) {
	for _, f := range callees {
		for fld := range x.p.modFields(f) {
			s.dirty[fld] = true
			for a := range s.store {
				if fld == "elem" && a.op == "elemaddr" && a.args[0].op != "alloc" && a.args[0].op != "make" {
					delete(s.store, a)
					continue
				}
				if (a.op == "fieldaddr" && a.aux == fld && a.args[0].op != "alloc") || (a.op == "global" && "global "+a.aux == fld) {
					delete(s.store, a)
				}
				if a.op == "fieldaddr" && a.aux == fld && a.args[0].op == "alloc" {
					// only if the object was handed out
					for _, g := range args {
						if g.mentions(a.args[0]) || x.cellMentions(s, a.args[0]) {
							s.store[a] = x.tp.mk("unknown", fmt.Sprintf("%d.%d.h%d", s.top().ctx, x.siteID(in), a.id), nil)
							break
						}
					}
				}
			}
		}
	}
}

func (x *Exec) cellMentions(s *State, t *Term) bool {
	for _, v := range s.store {
		if v.mentions(t) {
			return true
		}
	}
	return false
}

// havocArgs drops the cells of local variables whose address is passed to a library call.
func (x *Exec) havocArgs(s *State, args []*Term, in ssa.Instruction) {
	for _, g := range args {
		c := g.canon()
		if c.op != "alloc" {
			continue
		}
		for a := range s.store {
			if a == c || (a.op == "fieldaddr" && a.args[0] == c) {
				s.store[a] = x.tp.mk("unknown", fmt.Sprintf("%d.%d.a%d", s.top().ctx, x.siteID(in), a.id), nil)
			}
		}
		if _, ok := s.store[c]; !ok {
			if pt, ok := c.typ.Underlying().(*types.Pointer); ok {
				if _, isStruct := pt.Elem().Underlying().(*types.Struct); !isStruct {
					s.store[c] = x.tp.mk("unknown", fmt.Sprintf("%d.%d.a%d", s.top().ctx, x.siteID(in), c.id), pt.Elem())
				}
			}
		}
	}
}

// lessByOthers: whether a < k follows from other comparisons of a with constants.
func (s *State) lessByOthers(a *Term, k int64) int8 {
	for t, f := range s.facts {
		if t == a && f.eq != nil {
			if v, ok := f.eq.intVal(); ok {
				if v < k {
					return 1
				}
				return 2
			}
		}
		l, v, neg, ok := lessThan(t)
		if !ok || l != a || f.truth == 0 {
			continue
		}
		less := f.truth == 1 != neg
		if less && v <= k {
			return 1
		}
		if !less && v >= k {
			return 2
		}
	}
	return 0
}

// lessThan: the comparison says a < k, or, negated, k' < a where k = k'+1.
func lessThan(t *Term) (a *Term, k int64, neg, ok bool) {
	if t.op != "cmp" || t.aux != "<" {
		return
	}
	if v, is := t.args[1].intVal(); is {
		return t.args[0], v, false, true
	}
	if v, is := t.args[0].intVal(); is && v < math.MaxInt64 {
		return t.args[1], v + 1, true, isInteger(t.args[1].typ)
	}
	return
}

func isInteger(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
