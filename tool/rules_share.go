package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C03", "what goroutines share is handed over, not raced for", ruleConfine)
}

// A goroutine root is a function that is started as a goroutine, or main.
type goRoot struct {
	fn    *ssa.Function
	main  bool
	prog  *ssa.Function // the main a root belongs to is not known for goroutines
	sites []ssa.CallInstruction
	fns   map[*ssa.Function]bool // what runs on it
	below uint64                 // roots it starts, directly or not
	multi string                 // why more than one of them can run
	makes map[*types.Named]bool  // types of which it makes objects
}

type shareAcc struct {
	key     string // pkg.Type.field or "var pkg.name"
	typ     *types.Named
	write   bool
	started uint64
	pos     string
	fn      *ssa.Function
}

type shareWalk struct {
	p     *Prog
	roots []*goRoot
	idx   map[*ssa.Function]int
	memo  map[string]uint64
	acc   []shareAcc
	seen  map[string]bool
	stop  map[*ssa.Function]bool // started functions that announce their end to a wait group
	once  map[*ssa.Function]bool // functions run by a sync.Once only
}

// ownField: the field of a repository struct an address denotes, unless the object was made in the same function.
func (p *Prog) ownField(v ssa.Value) (string, *types.Named) {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if al, ok := a.X.(*ssa.Alloc); ok && !escapesEarly(al) {
			return "", nil
		}
		if c, ok := a.X.(*ssa.Call); ok && p.givesFresh(c, 3) {
			return "", nil
		}
		n := derefNamed(a.X.Type())
		if n == nil || n.Obj().Pkg() == nil || !p.isRepoPkg(n.Obj().Pkg()) {
			return "", nil
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return "", nil
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + st.Field(a.Field).Name(), n
	case *ssa.Global:
		if a.Pkg != nil && p.isRepoPkg(a.Pkg.Pkg) && !strings.HasPrefix(a.Name(), "init$") {
			return "var " + shortGlobal(a), nil
		}
	case *ssa.IndexAddr:
		// an element of an array or slice kept in a field
		if u, ok := a.X.(*ssa.UnOp); ok && u.Op == token.MUL {
			return p.ownField(u.X)
		}
		return p.ownField(a.X)
	}
	return "", nil
}

// givesFresh: the call gives an object that the callee has just made and that nobody else knows.
func (p *Prog) givesFresh(c *ssa.Call, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || depth == 0 || !p.isRepo(f) {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		if len(r.Results) != 1 {
			return false
		}
		switch v := r.Results[0].(type) {
		case *ssa.Alloc:
			// used for filling it and for the return only
			for _, u := range *v.Referrers() {
				switch u := u.(type) {
				case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef:
				case *ssa.Store:
					if u.Val == v {
						return false
					}
				default:
					return false
				}
			}
		case *ssa.Call:
			if !p.givesFresh(v, depth-1) || len(*v.Referrers()) != 1 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// escapesEarly: objects made here are private to the constructor as long as it runs.
func escapesEarly(a *ssa.Alloc) bool { return false }

func (p *Prog) loadedField(v ssa.Value) (string, *types.Named) {
	for {
		switch u := v.(type) {
		case *ssa.UnOp:
			if u.Op == token.MUL {
				return p.ownField(u.X)
			}
			return "", nil
		case *ssa.ChangeType:
			v = u.X
		case *ssa.Slice:
			v = u.X
		default:
			return "", nil
		}
	}
}

// accesses lists what one instruction reads and changes of the fields and package variables.
func (p *Prog) accesses(in ssa.Instruction, emit func(key string, n *types.Named, write bool)) {
	put := func(k string, n *types.Named, w bool) {
		if k != "" {
			emit(k, n, w)
		}
	}
	switch i := in.(type) {
	case *ssa.Store:
		k, n := p.ownField(i.Addr)
		put(k, n, true)
	case *ssa.UnOp:
		if i.Op == token.MUL {
			k, n := p.ownField(i.X)
			put(k, n, false)
		}
	case *ssa.MapUpdate:
		k, n := p.loadedField(i.Map)
		put(k, n, true)
	case ssa.CallInstruction:
		c := i.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete", "clear", "copy":
				k, n := p.loadedField(c.Args[0])
				put(k, n, true)
			}
			return
		}
		if c.IsInvoke() || c.Signature().Recv() == nil || len(c.Args) == 0 || len(p.callees(i)) > 0 {
			return
		}
		if unsyncContent(c.Args[0].Type()) && !readOnlyMethod(methodName(c)) {
			k, n := p.loadedField(c.Args[0])
			put(k, n, true)
		}
	}
}

func (w *shareWalk) bits(f *ssa.Function) uint64 {
	i, ok := w.idx[f]
	if !ok {
		return 0
	}
	return 1<<uint(i) | w.roots[i].below
}

func (w *shareWalk) started(c ssa.CallInstruction) uint64 {
	var out uint64
	_, isGo := c.(*ssa.Go)
	if isGo {
		for _, g := range w.p.callees(c) {
			out |= w.bits(g)
		}
	}
	if isGo || spawns(c) {
		for _, g := range w.p.funcArgs(c) {
			out |= w.bits(g)
		}
	}
	return out
}

// walk follows a function with the goroutines that may run; it returns those that may run at its end.
func (w *shareWalk) walk(root *goRoot, f *ssa.Function, in uint64) uint64 {
	if f.Blocks == nil {
		return in
	}
	k := fmt.Sprintf("%p %p %x", root, f, in)
	if o, ok := w.memo[k]; ok {
		return o
	}
	w.memo[k] = in
	at := make([]uint64, len(f.Blocks))
	reached := make([]bool, len(f.Blocks))
	at[0], reached[0] = in, true
	out := in
	step := func(b *ssa.BasicBlock, s uint64, rec bool) uint64 {
		for _, i := range b.Instrs {
			if rec {
				w.p.accesses(i, func(key string, n *types.Named, wr bool) {
					if wr && n == nil && w.once[f] {
						return // see onceReaders
					}
					a := shareAcc{key, n, wr, s, w.p.instrPos(i), f}
					kk := fmt.Sprintf("%p %s %v %x %s", root, key, wr, s, a.pos)
					if !w.seen[kk] {
						w.seen[kk] = true
						w.acc = append(w.acc, a)
					}
				})
			}
			switch c := i.(type) {
			case *ssa.Defer:
			case *ssa.RunDefers:
				for bi := len(f.Blocks) - 1; bi >= 0; bi-- {
					ins := f.Blocks[bi].Instrs
					for j := len(ins) - 1; j >= 0; j-- {
						if d, ok := ins[j].(*ssa.Defer); ok {
							for _, g := range append(w.p.callees(d), w.p.funcArgs(d)...) {
								s |= w.walk(root, g, s)
							}
						}
					}
				}
			case ssa.CallInstruction:
				if st := w.started(c); st != 0 {
					s |= st
					continue
				}
				if w.p.performs(c, 3, true, "(*sync.WaitGroup).Wait") {
					for i, r := range w.roots {
						if w.stop[r.fn] {
							s &^= 1 << uint(i)
						}
					}
					continue
				}
				o := uint64(0)
				gs := append(append([]*ssa.Function{}, w.p.callees(c)...), w.p.funcArgs(c)...)
				for _, g := range gs {
					o |= w.walk(root, g, s)
				}
				if len(gs) > 0 {
					s |= o
				}
			}
		}
		return s
	}
	for ch := true; ch; {
		ch = false
		for bi, b := range f.Blocks {
			if !reached[bi] {
				continue
			}
			o := step(b, at[bi], false)
			for _, su := range b.Succs {
				if !reached[su.Index] || at[su.Index]|o != at[su.Index] {
					reached[su.Index] = true
					at[su.Index] |= o
					ch = true
				}
			}
		}
	}
	for bi, b := range f.Blocks {
		if reached[bi] {
			o := step(b, at[bi], true)
			if len(b.Succs) == 0 {
				out |= o
			}
		}
	}
	w.memo[k] = out
	return out
}

func callsDone(f *ssa.Function, p *Prog) bool {
	for g := range p.reach(true, f) {
		for _, c := range callsOf(g) {
			if libName(c.Common()) == "(*sync.WaitGroup).Done" {
				return true
			}
		}
	}
	return false
}

func ruleConfine(p *Prog, r *Report) {
	r.rule("Goroutine roots are main and every function that is started as a goroutine. Each root is followed through the calls it makes with the set of goroutines that may run by then (those it has started, directly or not). A field of a repository object, or a package variable, that one root changes and another one uses is an obligation: it must be guarded by a lock, be set by a sync.Once that every reader passes, or every access of the starting root must come before the other one is started; objects of a type that both make are taken to be their own. What the data containers and the databases hold may only be used by one goroutine that is started once, apart from what main does before. A local variable shared with a goroutine is judged in the same way.")
	w := &shareWalk{p: p, idx: map[*ssa.Function]int{}, memo: map[string]uint64{}, seen: map[string]bool{}, stop: map[*ssa.Function]bool{}, once: map[*ssa.Function]bool{}}
	add := func(f *ssa.Function) *goRoot {
		if i, ok := w.idx[f]; ok {
			return w.roots[i]
		}
		g := &goRoot{fn: f, fns: p.reach(true, f), makes: map[*types.Named]bool{}}
		w.idx[f] = len(w.roots)
		w.roots = append(w.roots, g)
		return g
	}
	live := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Name() == "main" && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" && f.Parent() == nil {
			add(f).main = true
			for g := range p.reach(false, f) {
				live[g] = true
			}
		}
	}
	for _, f := range p.Funcs {
		for _, e := range p.edges(f) {
			if e.Go {
				ro := add(e.To)
				ro.sites = append(ro.sites, e.Site)
				r.site("goroutine", p.instrPos(e.Site)+" "+fname(e.To))
			}
		}
	}
	if len(w.roots) > 64 {
		fatalf("undecided: more than 64 goroutine roots")
	}
	w.once = p.onceOnly()
	for _, ro := range w.roots {
		r.funcs(ro.fn)
		if callsDone(ro.fn, p) {
			w.stop[ro.fn] = true
		}
		for f := range p.reach(false, ro.fn) {
			if i, ok := w.idx[f]; ok && f != ro.fn {
				started := false
				for _, s := range w.roots[i].sites {
					started = started || p.reach(false, ro.fn)[s.Parent()]
				}
				if started {
					ro.below |= 1 << uint(i)
				}
			}
		}
		for f := range ro.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok {
						if n := derefNamed(a.Type()); n != nil {
							ro.makes[n] = true
						}
					}
				}
			}
		}
	}
	// which roots run more than once
	for _, ro := range w.roots {
		if ro.main {
			continue
		}
		if len(ro.sites) > 1 {
			ro.multi = "it is started in several places"
		}
		for _, s := range ro.sites {
			if m := p.runsOnce(s, nil); m != "" {
				ro.multi = m
			}
		}
	}
	byRoot := make([][]shareAcc, len(w.roots))
	for i, ro := range w.roots {
		w.acc = nil
		w.walk(ro, ro.fn, 0)
		byRoot[i] = w.acc
	}
	// what is guarded by locks is the business of the lockset analysis
	locked := map[string]int{}
	lw := p.lockDataflow(r, func(kind, key, pos string, path []string, msg string) {})
	for _, a := range lw.acc {
		k := a.field
		if a.held == "" || a.write && a.held == "r" {
			locked[k] = -1
		} else if locked[k] == 0 {
			locked[k] = 1
		}
	}
	guarded := func(k string) bool { return locked[strings.TrimPrefix(k, "var ")] == 1 }
	if os.Getenv("SHARE") != "" {
		w.dump(byRoot)
	}
	dataMap := p.iface("types", "DataMap")
	handed := func(n *types.Named) bool {
		return n != nil && dataMap != nil && (types.Implements(n, dataMap) || types.Implements(types.NewPointer(n), dataMap))
	}
	isData := func(a shareAcc) bool {
		if a.typ == nil {
			return false
		}
		pk := a.typ.Obj().Pkg().Name()
		return pk == "container" || pk == "db" && p.isDatabase(a.typ)
	}
	// the data: one goroutine, started once, and main before that
	var owner *goRoot
	for i, ro := range w.roots {
		if ro.main {
			continue
		}
		var first *shareAcc
		n := 0
		for j := range byRoot[i] {
			if a := &byRoot[i][j]; isData(*a) {
				if n++; first == nil {
					first = a
				}
			}
		}
		if first == nil {
			continue
		}
		r.site("goroutine that uses the data", fname(ro.fn))
		if ro.multi != "" {
			r.failPath("data several "+fname(ro.fn), p.instrPos(ro.sites[0]), nil, "the data is used by %s (%s), of which more than one can run at a time: %s", fname(ro.fn), first.pos, ro.multi)
		}
		if owner != nil {
			r.failPath("data owners "+fname(ro.fn), p.instrPos(ro.sites[0]), nil, "the data is used by the goroutine %s (%s) while the goroutine %s uses it too", fname(ro.fn), first.pos, fname(owner.fn))
		}
		owner = ro
		for k, m := range w.roots {
			if !m.main {
				continue
			}
			for _, a := range byRoot[k] {
				if isData(a) && a.started&(1<<uint(i)) != 0 {
					r.failPath("data main "+fname(a.fn), a.pos, nil, "the data is used by main here (%s), while the goroutine %s may already use it", a.key, fname(ro.fn))
				}
			}
		}
	}
	r.min("goroutine that uses the data", 1)
	// everything else, by field
	type use struct {
		ro  *goRoot
		i   int
		acc []shareAcc
	}
	fields := map[string][]*use{}
	for i, ro := range w.roots {
		for _, a := range byRoot[i] {
			if isData(a) || handed(a.typ) {
				continue
			}
			us := fields[a.key]
			if len(us) == 0 || us[len(us)-1].i != i {
				us = append(us, &use{ro: ro, i: i})
				fields[a.key] = us
			}
			us[len(us)-1].acc = append(us[len(us)-1].acc, a)
		}
	}
	var keys []string
	for k := range fields {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// the accesses of a that may come while b runs
	during := func(a, b *use) []shareAcc {
		if !a.ro.main && !(a.ro.below&(1<<uint(b.i)) != 0 && p.onlyFrom(a.ro, b.ro)) {
			if b.ro.below&(1<<uint(a.i)) != 0 && p.onlyFrom(b.ro, a.ro) {
				return a.acc // b decides
			}
			return a.acc
		}
		var out []shareAcc
		for _, x := range a.acc {
			if x.started&(1<<uint(b.i)) != 0 {
				out = append(out, x)
			}
		}
		return out
	}
	done := map[string]bool{}
	for _, k := range keys {
		us := fields[k]
		wr := false
		for _, u := range us {
			for _, a := range u.acc {
				wr = wr || a.write
			}
		}
		if !wr {
			continue
		}
		r.site("field that is changed", k)
		if guarded(k) {
			continue
		}
		for x, u := range us {
			// several goroutines of one kind
			if !u.ro.main && u.ro.multi != "" {
				for _, a := range u.acc {
					if a.write && !p.ownObject(u.ro, a.typ) && !done[k] {
						done[k] = true
						r.failPath("race "+k+" in "+fname(a.fn), a.pos, nil, "%s is changed here without a lock by %s, of which several can run at a time (%s)", k, fname(u.ro.fn), u.ro.multi)
					}
				}
			}
			for _, v := range us[x+1:] {
				if u.ro.main && v.ro.main {
					continue
				}
				da, db := during(u, v), during(v, u)
				for _, a := range da {
					for _, b := range db {
						if !a.write && !b.write || done[k] {
							continue
						}
						if a.typ != nil && u.ro.makes[a.typ] && v.ro.makes[a.typ] {
							continue
						}
						if published(a, b) || published(b, a) {
							continue
						}
						done[k] = true
						if !a.write {
							a, b = b, a
							u, v = v, u
						}
						r.failPath("race "+k+" in "+fname(a.fn), a.pos, nil, "%s is changed here on the goroutine %s without a lock, while the goroutine %s may use it at %s", k, fname(u.ro.fn), fname(v.ro.fn), b.pos)
					}
				}
			}
		}
	}
	p.onceReaders(r, w.once)
	p.sharedLocals(r)
	r.min("field that is changed", 10)
	r.min("goroutine", 10)
}

// isDatabase: a struct that holds containers.
func (p *Prog) isDatabase(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if m := derefNamed(st.Field(i).Type()); m != nil && m.Obj().Pkg() != nil && m.Obj().Pkg().Name() == "container" {
			return true
		}
	}
	return false
}

// onlyFrom: b is only started by a or by what a has started.
func (p *Prog) onlyFrom(a, b *goRoot) bool {
	all := p.reach(false, a.fn)
	for _, s := range b.sites {
		if !all[s.Parent()] {
			return false
		}
	}
	for _, c := range p.callersOf(b.fn) {
		if _, ok := c.Instr.(*ssa.Go); !ok && !all[c.Fn] {
			return false
		}
	}
	return true
}

// ownObject: every goroutine of the root works on an object of its own, made where it is started.
func (p *Prog) ownObject(ro *goRoot, n *types.Named) bool {
	if n == nil {
		return false
	}
	if ro.makes[n] {
		return true
	}
	makes := func(f *ssa.Function) bool {
		for g := range p.reach(true, f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && derefNamed(a.Type()) == n {
						return true
					}
				}
			}
		}
		return false
	}
	for _, s := range ro.sites {
		f, blk := s.Parent(), s.Block()
		ok := false
		for d := 0; d < 8; d++ {
			if makes(f) {
				ok = true
				break
			}
			if canRepeat(blk, nil) {
				break
			}
			cs := p.callersOf(f)
			if len(cs) != 1 {
				break
			}
			f, blk = cs[0].Fn, cs[0].Instr.Block()
		}
		if !ok {
			return false
		}
	}
	return len(ro.sites) > 0
}

// published: the change comes before a send or close in its function, the use after a receive in its own.
func published(wr, rd shareAcc) bool {
	if !wr.write {
		return false
	}
	sends, recvs := false, false
	for _, b := range wr.fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Send:
				sends = true
			case ssa.CallInstruction:
				if bu, ok := i.Common().Value.(*ssa.Builtin); ok && bu.Name() == "close" {
					sends = true
				}
			}
		}
	}
	for _, b := range rd.fn.Blocks {
		for _, in := range b.Instrs {
			if receives(in) {
				recvs = true
			}
		}
	}
	return sends && recvs
}

func receives(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.UnOp:
		return i.Op == token.ARROW
	case *ssa.Select:
		for _, st := range i.States {
			if st.Dir == types.RecvOnly {
				return true
			}
		}
	}
	return false
}

// onceOnly: the functions that only run as, or below, what a sync.Once runs.
func (p *Prog) onceOnly() map[*ssa.Function]bool {
	once := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if once[f] {
				continue
			}
			n, all := 0, true
			for _, c := range p.callersOf(f) {
				n++
				if _, isGo := c.Instr.(*ssa.Go); isGo {
					all = false
				}
				if libName(c.Instr.Common()) != "(*sync.Once).Do" && !once[c.Fn] {
					all = false
				}
			}
			if n > 0 && all {
				once[f], ch = true, true
			}
		}
	}
	return once
}

// afterOnce: a sync.Once has been passed on every way to the instruction.
func (p *Prog) afterOnce(at ssa.Instruction, passes map[*ssa.Function]bool, depth int) bool {
	b := at.Block()
	for d := b; d != nil; d = d.Idom() {
		for _, e := range d.Instrs {
			if e == at {
				break
			}
			c, ok := e.(*ssa.Call)
			if !ok {
				continue
			}
			if libName(c.Common()) == "(*sync.Once).Do" {
				return true
			}
			for _, h := range p.callees(c) {
				if passes[h] {
					return true
				}
			}
		}
	}
	cs := p.callersOf(at.Parent())
	if depth == 0 || len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if _, isGo := c.Instr.(*ssa.Go); isGo || !p.afterOnce(c.Instr, passes, depth-1) {
			return false
		}
	}
	return true
}

// onceReaders: what a sync.Once sets is only read after that Once has been passed.
func (p *Prog) onceReaders(r *Report, once map[*ssa.Function]bool) {
	passes := p.reachesCall(func(fn *ssa.Function, c ssa.CallInstruction) bool { return libName(c.Common()) == "(*sync.Once).Do" })
	set := map[*ssa.Global]bool{}
	for f := range once {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						set[g] = true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if once[f] || f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok || !set[g] {
					continue
				}
				r.site("read of what a Once sets", p.instrPos(in))
				good := p.afterOnce(u, passes, 4)
				if !good {
					r.failPath("once "+shortGlobal(g)+" in "+fname(f), p.instrPos(in), nil, "%s is set by a sync.Once, but read here without passing it", shortGlobal(g))
				}
			}
		}
	}
}

// ---- local variables shared with goroutines ----

type localUse struct {
	in     ssa.Instruction
	write  bool
	atomic bool
	unit   *ssa.Function // the goroutine it runs on: a started function, or nil for the one that has the variable
}

func (p *Prog) sharedLocals(r *Report) {
	goes := func(f *ssa.Function) bool { return p.isSpawned(f) }
	for _, home := range p.Funcs {
		for _, b := range home.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || !a.Heap {
					continue
				}
				if n := derefNamed(a.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
					continue
				}
				var uses []localUse
				units := map[*ssa.Function]bool{}
				var visit func(v ssa.Value, f, unit *ssa.Function, depth int)
				visit = func(v ssa.Value, f, unit *ssa.Function, depth int) {
					if v.Referrers() == nil || depth > 6 {
						return
					}
					for _, ref := range *v.Referrers() {
						switch i := ref.(type) {
						case *ssa.Store:
							if i.Addr == v {
								uses = append(uses, localUse{i, true, false, unit})
							}
						case *ssa.UnOp:
							if i.Op == token.MUL {
								uses = append(uses, localUse{i, false, false, unit})
							}
						case *ssa.MakeClosure:
							g := i.Fn.(*ssa.Function)
							for k, bd := range i.Bindings {
								if bd == v && k < len(g.FreeVars) {
									u := unit
									if goes(g) {
										u = g
										units[g] = true
									}
									visit(g.FreeVars[k], g, u, depth+1)
								}
							}
						case ssa.CallInstruction:
							if strings.HasPrefix(libName(i.Common()), "sync/atomic.") {
								uses = append(uses, localUse{i, !strings.Contains(libName(i.Common()), "Load"), true, unit})
							}
						}
					}
				}
				visit(a, home, nil, 0)
				if len(units) == 0 {
					continue
				}
				wr := 0
				for _, u := range uses {
					if u.write {
						wr++
					}
				}
				if wr < 1 {
					continue
				}
				// a variable set once where it is declared
				r.site("local shared with a goroutine", p.instrPos(a)+" "+a.Comment)
				p.judgeLocal(r, home, a, uses, units)
			}
		}
	}
}

func (p *Prog) locksIn(f *ssa.Function) bool {
	for g := range p.reach(true, f) {
		if pkgName(g) != pkgName(f) {
			continue
		}
		for _, c := range callsOf(g) {
			if strings.HasPrefix(lockOp(c.Common()), "+") {
				return true
			}
		}
	}
	return false
}

func (p *Prog) judgeLocal(r *Report, home *ssa.Function, a *ssa.Alloc, uses []localUse, units map[*ssa.Function]bool) {
	name := a.Comment
	key := "race on local " + name + " in " + fname(home)
	var us []*ssa.Function
	for u := range units {
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].Pos() < us[j].Pos() })
	bit := map[*ssa.Function]uint64{}
	for i, u := range us {
		bit[u] = 1 << uint(i%64)
	}
	fail := func(pos, format string, args ...interface{}) {
		r.failPath(key, pos, nil, format, args...)
	}
	clash := func(x, y localUse) bool { return (x.write || y.write) && !(x.atomic && y.atomic) }
	locks := map[*ssa.Function]bool{}
	for _, u := range us {
		locks[u] = p.locksIn(u)
	}
	// the goroutine that has the variable: what runs at each of its uses
	type key2 struct {
		f  *ssa.Function
		in uint64
	}
	memo := map[key2]uint64{}
	at := map[ssa.Instruction]uint64{}
	starts := map[*ssa.Function][]ssa.Instruction{}
	signals := func(u *ssa.Function) bool {
		for g := range p.reach(true, u) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					switch i := in.(type) {
					case *ssa.Send:
						return true
					case ssa.CallInstruction:
						if bu, ok := i.Common().Value.(*ssa.Builtin); ok && bu.Name() == "close" {
							return true
						}
					}
				}
			}
		}
		return false
	}
	family := func(f *ssa.Function) bool {
		for ; f != nil; f = f.Parent() {
			if f == home {
				return true
			}
		}
		return false
	}
	var walk func(f *ssa.Function, in uint64) uint64
	walk = func(f *ssa.Function, in uint64) uint64 {
		k := key2{f, in}
		if o, ok := memo[k]; ok {
			return o
		}
		memo[k] = in
		st := map[int]uint64{0: in}
		out := uint64(0)
		step := func(b *ssa.BasicBlock, s uint64) uint64 {
			for _, i := range b.Instrs {
				at[i] |= s
				if i == ssa.Instruction(a) {
					s = 0
				}
				if receives(i) {
					for _, u := range us {
						if signals(u) {
							s &^= bit[u]
						}
					}
				}
				c, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := c.(*ssa.Defer); ok {
					continue
				}
				_, isGo := c.(*ssa.Go)
				if !isGo && p.always(c, 3, receives) {
					for _, u := range us {
						if signals(u) {
							s &^= bit[u]
						}
					}
				}
				if p.performs(c, 3, true, "(*sync.WaitGroup).Wait", "(*golang.org/x/sync/errgroup.Group).Wait") {
					for _, u := range us {
						if callsDone(u, p) {
							s &^= bit[u]
						}
					}
				}
				for _, g := range append(append([]*ssa.Function{}, p.callees(c)...), p.funcArgs(c)...) {
					if units[g] && (isGo || spawns(c)) {
						s |= bit[g]
						starts[g] = append(starts[g], c)
						for _, u := range us {
							if p.nestedUnit(u, g) {
								s |= bit[u]
							}
						}
					} else if !isGo && family(g) && g != home {
						s |= walk(g, s)
					}
				}
			}
			return s
		}
		for ch := true; ch; {
			ch = false
			for bi, b := range f.Blocks {
				s, ok := st[bi]
				if !ok {
					continue
				}
				o := step(b, s)
				if len(b.Succs) == 0 {
					out |= o
				}
				for _, su := range b.Succs {
					if v, ok := st[su.Index]; !ok || v|o != v {
						st[su.Index] = v | o
						ch = true
					}
				}
			}
		}
		memo[k] = out
		return out
	}
	walk(home, 0)
	// two goroutines are in turn when each start of one finds the other one ended
	together := func(u, v *ssa.Function) bool {
		if len(starts[u]) == 0 || len(starts[v]) == 0 {
			return true
		}
		for _, c := range starts[v] {
			if at[c]&bit[u] != 0 {
				return true
			}
		}
		for _, c := range starts[u] {
			if at[c]&bit[v] != 0 {
				return true
			}
		}
		return false
	}
	for _, u := range us {
		if locks[u] {
			continue
		}
		many := false
		for _, c := range p.callersOf(u) {
			if _, ok := c.Instr.(*ssa.Go); ok || spawns(c.Instr) {
				if p.runsOnce(c.Instr, a) != "" {
					many = true
				}
			}
		}
		for _, x := range uses {
			if x.unit != u {
				continue
			}
			if many && x.write && !x.atomic {
				fail(p.instrPos(x.in), "%s is changed here by several goroutines at a time", name)
				return
			}
			for _, y := range uses {
				if y.unit != nil && y.unit != u && !locks[y.unit] && clash(x, y) && !p.nestedUnit(u, y.unit) && !p.nestedUnit(y.unit, u) && together(u, y.unit) {
					fail(p.instrPos(x.in), "%s is used here by one goroutine and at %s by another, and one of them changes it", name, p.instrPos(y.in))
					return
				}
			}
		}
	}
	for _, x := range uses {
		if x.unit != nil {
			continue
		}
		for _, y := range uses {
			if y.unit == nil || locks[y.unit] || !clash(x, y) || at[x.in]&bit[y.unit] == 0 {
				continue
			}
			fail(p.instrPos(x.in), "%s is used here while the goroutine %s may use it at %s, and one of them changes it", name, fname(y.unit), p.instrPos(y.in))
			return
		}
	}
}

// nestedUnit: a is written inside b, which starts it.
func (p *Prog) nestedUnit(a, b *ssa.Function) bool {
	for f := a.Parent(); f != nil; f = f.Parent() {
		if f == b {
			return true
		}
	}
	return false
}

func (w *shareWalk) dump(byRoot [][]shareAcc) {
	for i, ro := range w.roots {
		fmt.Printf("root %s main=%v multi=%q below=%x sites=%d\n", fname(ro.fn), ro.main, ro.multi, ro.below, len(ro.sites))
		for _, a := range byRoot[i] {
			if a.write && !strings.HasPrefix(a.key, "command.") {
				fmt.Printf("    W %s %s started=%x %s\n", a.key, a.pos, a.started, fname(a.fn))
			}
		}
	}
}
