package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "shared state is only touched under its lock", ruleGuardedBy)
	register("C14", "every lock taken is released, none is taken twice", ruleLockRelease)
}

func isMutexType(t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// lockOp classifies a call on a mutex: acquire w/r, release w/r.
func lockOp(c *ssa.CallCommon) string {
	switch libName(c) {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "+w"
	case "(*sync.RWMutex).RLock":
		return "+r"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "-w"
	case "(*sync.RWMutex).RUnlock":
		return "-r"
	}
	return ""
}

// lockKey names the lock a term denotes: the field of an object, or a package variable.
func lockKey(t *Term) (key string, base *Term, field string) {
	t = t.canon()
	for (t.op == "load" || t.op == "reload") && len(t.args) > 0 {
		t = t.args[0]
	}
	if t.op == "fieldaddr" {
		return fmt.Sprintf("%s@%d", t.aux, t.args[0].id), t.args[0], t.aux
	}
	return fmt.Sprintf("%s@%d", t.String(), t.id), t, ""
}

// lockStructs lists the structs of the repo that hold a mutex.
func (p *Prog) lockStructs() map[string]*types.Named {
	out := map[string]*types.Named{}
	for _, t := range p.concrete {
		n := derefNamed(t)
		if n == nil {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				out[n.Obj().Pkg().Name()+"."+n.Obj().Name()] = n
			}
		}
	}
	return out
}

// contentTypes: containers whose content is not synchronised by themselves.
func unsyncContent(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "bufio.Writer", "bufio.Reader", "bufio.ReadWriter", "bytes.Buffer", "strings.Builder", "container/list.List", "math/rand.Rand":
				return true
			}
		}
	}
	return false
}

func readOnlyMethod(n string) bool {
	switch n {
	case "Available", "Buffered", "Size", "Len", "Cap", "String", "Bytes", "Front", "Back":
		return true
	}
	return false
}

type lockAccess struct {
	field string // pkg.Struct.field, or the name of a package variable
	write bool
	plain bool   // a map, slice or buffer, which does not synchronise itself
	held  string // "", "r", "w": the strongest lock of the same object
	locks string // lock field(s) held in write or read mode
	pos   string
	fn    string
	path  []string
}

type lockWalk struct {
	acc    []lockAccess
	seen   map[string]bool
	roots  []*ssa.Function
	stale  []lockAccess
	events int
}

// lockRoots: the entry points of the packages that declare a struct with a mutex.
func (p *Prog) lockRoots() []*ssa.Function {
	pk := map[*types.Package]bool{}
	for _, n := range p.lockStructs() {
		pk[n.Obj().Pkg()] = true
	}
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		var pkg *types.Package
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg
		}
		if !pk[pkg] || f.Synthetic != "" {
			// globals guarded by package locks are in packages without such structs
			if pkg == nil || !p.usesGlobalLock(pkg) {
				continue
			}
		}
		root := false
		if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
			root = true
		}
		cs := p.callersOf(f)
		if len(cs) == 0 && f.Parent() == nil {
			root = true
		}
		for _, c := range cs {
			if _, ok := c.Instr.(*ssa.Go); ok {
				root = true
			} else if spawns(c.Instr) {
				root = true
			}
		}
		if root {
			out = append(out, f)
		}
	}
	return out
}

func (p *Prog) usesGlobalLock(pk *types.Package) bool {
	for _, n := range pk.Scope().Names() {
		if v, ok := pk.Scope().Lookup(n).(*types.Var); ok && isMutexType(v.Type()) {
			return true
		}
	}
	return false
}

func fieldOwner(aux string) string {
	i := strings.LastIndexByte(aux, '.')
	if i < 0 {
		return ""
	}
	return aux[:i]
}

// heldOn gives the strongest mode in which a lock field of base is held, and which.
func (s *State) heldOn(owner string, base *Term) (mode, which string) {
	var ws []string
	for k, v := range s.ts {
		if !strings.HasPrefix(k, "L:"+owner+".") || !strings.HasSuffix(k, fmt.Sprintf("@%d", base.id)) || v.s == "" {
			continue
		}
		if mode != "w" {
			mode = v.s
		}
		ws = append(ws, strings.TrimPrefix(k[:strings.LastIndexByte(k, '@')], "L:"))
	}
	sort.Strings(ws)
	return mode, strings.Join(ws, ",")
}

// heldPkg gives the strongest mode in which a mutex variable of a package is held, and which.
func (s *State) heldPkg(pkg string) (mode, which string) {
	var ws []string
	for k, v := range s.ts {
		if !strings.HasPrefix(k, "L:"+pkg+".") || v.s == "" {
			continue
		}
		n := strings.TrimPrefix(k[:strings.LastIndexByte(k, '@')], "L:")
		if strings.Count(n, ".") != 1 {
			continue
		}
		if mode != "w" {
			mode = v.s
		}
		ws = append(ws, n)
	}
	sort.Strings(ws)
	return mode, strings.Join(ws, ",")
}

// inInit reports whether the path runs inside a package initialiser.
func (x *Exec) inInit(s *State) bool {
	for _, fr := range s.frames {
		if f := fr.fn; f.Pkg != nil && f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			return true
		}
	}
	return false
}

// lockDataflow runs the dataflow from every root and reports lock misuse through bad.
func (p *Prog) lockDataflow(r *Report, bad func(kind, key, pos string, path []string, msg string)) *lockWalk {
	w := &lockWalk{seen: map[string]bool{}}
	structs := p.lockStructs()
	guardPkgs := map[string]bool{}
	for _, sp := range p.Pkgs {
		if p.usesGlobalLock(sp.Pkg) {
			guardPkgs[sp.Pkg.Name()] = true
		}
	}
	touches := p.reachesCallOrField(func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && lockOp(c.Common()) != "" {
					return true
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && guardPkgs[g.Pkg.Pkg.Name()] && f.Name() != "init" {
						return true
					}
				}
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if n := derefNamed(fa.X.Type()); n != nil && structs[n.Obj().Pkg().Name()+"."+n.Obj().Name()] != nil {
						return true
					}
				}
			}
		}
		return false
	})
	rec := func(x *Exec, s *State, addr *Term, write bool, in ssa.Instruction) {
		for addr.op == "elemaddr" && len(addr.args) > 0 {
			addr = addr.args[0]
			for (addr.op == "load" || addr.op == "reload") && len(addr.args) > 0 {
				addr = addr.args[0]
			}
		}
		if addr.op == "global" {
			// what an initialiser does comes before everything else
			if x.inInit(s) {
				return
			}
			pk, _, _ := strings.Cut(addr.aux, ".")
			mode, which := s.heldPkg(pk)
			k := fmt.Sprintf("%s %v %s %s %s", addr.aux, write, mode, which, p.instrPos(in))
			if !w.seen[k] && guardPkgs[pk] {
				w.seen[k] = true
				w.acc = append(w.acc, lockAccess{addr.aux, write, true, mode, which, p.instrPos(in), fname(in.Parent()), s.path()})
			}
			return
		}
		if addr.op != "fieldaddr" {
			return
		}
		owner := fieldOwner(addr.aux)
		n := structs[owner]
		if n == nil {
			return
		}
		base := addr.args[0]
		if isFreshBase(s, base) {
			return
		}
		mode, which := s.heldOn(owner, base)
		k := fmt.Sprintf("%s %v %s %s %s", addr.aux, write, mode, which, p.instrPos(in))
		if w.seen[k] {
			return
		}
		w.seen[k] = true
		plain := false
		if pt, ok := addr.typ.(*types.Pointer); ok && addr.typ != nil {
			plain = unsyncContent(pt.Elem())
		}
		w.acc = append(w.acc, lockAccess{addr.aux, write, plain, mode, which, p.instrPos(in), fname(in.Parent()), s.path()})
	}
	content := func(t *Term) *Term {
		t = t.canon()
		if (t.op == "load" || t.op == "reload") && len(t.args) > 0 && (t.args[0].op == "fieldaddr" || t.args[0].op == "global") && t.typ != nil && unsyncContent(t.typ) {
			return t.args[0]
		}
		return nil
	}
	for _, root := range p.lockRoots() {
		if !touches[root] {
			continue
		}
		w.roots = append(w.roots, root)
		pkg := root.Pkg
		x := NewExec(p)
		x.Opaque = func(f *ssa.Function) bool {
			return !touches[f] || (f.Pkg != nil && f.Pkg != pkg)
		}
		x.H.Call = func(x *Exec, s *State, c ssa.CallInstruction, callees []*ssa.Function, args []*Term) CallAction {
			cc := c.Common()
			if op := lockOp(cc); op != "" && len(args) > 0 {
				key, _, _ := lockKey(args[0])
				k := "L:" + key
				cur := s.get(k)
				where := p.instrPos(c)
				name := key[:strings.LastIndexByte(key, '@')]
				switch op {
				case "+w", "+r":
					r.site("lock taken", where)
					if cur != "" {
						bad("release", "twice "+name+" in "+fname(c.Parent()), where, s.path(), fmt.Sprintf("%s is locked here while this goroutine already holds it: a deadlock", name))
					}
					s.set(k, op[1:])
				default:
					r.site("lock released", where)
					if cur == "" {
						bad("release", "unheld "+name+" in "+fname(c.Parent()), where, s.path(), fmt.Sprintf("%s is unlocked here although it is not held", name))
					} else if cur != op[1:] {
						bad("release", "mode "+name+" in "+fname(c.Parent()), where, s.path(), fmt.Sprintf("%s is held in mode %q but released in mode %q", name, cur, op[1:]))
					}
					s.del(k)
					for kk, v := range s.ts {
						if strings.HasPrefix(kk, "K:") && v.s == key {
							s.set(kk, "past:"+key)
						}
					}
				}
				return CallAction{Kind: actOpaque, Pure: true}
			}
			if len(args) > 0 && len(callees) == 0 && cc.Signature().Recv() != nil || cc.IsInvoke() && len(callees) == 0 {
				if fa := content(args[0]); fa != nil {
					rec(x, s, fa, !readOnlyMethod(methodName(cc)), c)
				}
			}
			return CallAction{}
		}
		x.H.Load = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) { rec(x, s, addr, false, in) }
		x.H.Write = func(x *Exec, s *State, addr, val *Term, in ssa.Instruction) {
			if addr.op == "mapcell" {
				if fa := content(addr.args[0]); fa != nil {
					rec(x, s, fa, true, in)
					// check and act must share a critical section
					k := fmt.Sprintf("K:%d:%d", fa.id, addr.args[1].canon().id)
					if v := s.get(k); strings.HasPrefix(v, "past:") {
						w.stale = append(w.stale, lockAccess{field: fa.aux, pos: p.instrPos(in), fn: fname(in.Parent()), path: s.path()})
					}
				}
				return
			}
			rec(x, s, addr, true, in)
		}
		x.H.Instr = func(x *Exec, s *State, in ssa.Instruction) {
			switch i := in.(type) {
			case *ssa.Lookup:
				m := x.eval(s, i.X)
				if fa := content(m); fa != nil {
					rec(x, s, fa, false, in)
					owner, on := fieldOwner(fa.aux), ""
					if fa.op == "fieldaddr" {
						on = fmt.Sprintf("@%d", fa.args[0].id)
					}
					for k, v := range s.ts {
						if strings.HasPrefix(k, "L:"+owner+".") && strings.HasSuffix(k, on) && v.s != "" {
							s.set(fmt.Sprintf("K:%d:%d", fa.id, x.eval(s, i.Index).canon().id), k[2:])
						}
					}
				}
			case *ssa.Range:
				if fa := content(x.eval(s, i.X)); fa != nil {
					rec(x, s, fa, false, in)
					s.setT(fmt.Sprintf("range%d", x.siteID(in)), fa)
				}
			case *ssa.Next:
				if rg, ok := i.Iter.(*ssa.Range); ok {
					if fa := s.getT(fmt.Sprintf("range%d", x.siteID(rg))); fa != nil {
						rec(x, s, fa, false, in)
					}
				}
			}
		}
		x.H.Return = func(x *Exec, s *State, fr *Frame, res []*Term) {
			if len(s.frames) > 1 {
				return
			}
			for k, v := range s.ts {
				if strings.HasPrefix(k, "L:") && v.s != "" {
					name := k[2:strings.LastIndexByte(k, '@')]
					bad("release", "held "+name+" in "+fname(root), p.pos(root.Pos()), s.path(), fmt.Sprintf("%s can return with %s still locked", fname(root), name))
				}
			}
		}
		x.Run(root, nil, nil)
		r.exec(x)
	}
	return w
}

// reachesCallOrField: functions from which one satisfying pred is reached synchronously.
func (p *Prog) reachesCallOrField(pred func(f *ssa.Function) bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if pred(f) {
			out[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.Funcs {
			if out[f] {
				continue
			}
			for _, e := range p.edges(f) {
				if !e.Go && out[e.To] {
					out[f] = true
					ch = true
					break
				}
			}
		}
	}
	return out
}

// isFreshBase: an object made on this path that nothing else can know yet.
func isFreshBase(s *State, b *Term) bool {
	return b.canon().op == "alloc"
}

func ruleGuardedBy(p *Prog, r *Report) {
	r.rule("For every struct of the repository that holds a mutex, each entry point of its package is followed on every path with the set of locks held. A field (or a package variable next to a mutex variable) is guarded when some path changes it (or the map, slice or buffer it holds) with a lock of the same object held exclusively, outside of construction; a map, slice or buffer also when it is used under the lock anywhere and changed at all after construction. Nothing is changed under a lock held for reading. Every other read of a guarded field, or of the content it holds, needs the lock, every change needs it exclusively, and a change of a map entry that was looked up before must not come in a later critical section than the lookup.")
	w := p.lockDataflow(r, func(kind, key, pos string, path []string, msg string) {})
	guarded := map[string]map[string]bool{}
	for _, a := range w.acc {
		if a.write && a.held == "w" {
			if guarded[a.field] == nil {
				guarded[a.field] = map[string]bool{}
			}
			for _, l := range strings.Split(a.locks, ",") {
				guarded[a.field][l] = true
			}
		}
	}
	// a map, slice or buffer used under a lock and changed after its construction is guarded too,
	// even where no change holds the lock
	changed := map[string]bool{}
	for _, a := range w.acc {
		changed[a.field] = changed[a.field] || a.write
	}
	for _, a := range w.acc {
		if a.plain && changed[a.field] && a.held != "" && guarded[a.field] == nil {
			guarded[a.field] = map[string]bool{}
			for _, b := range w.acc {
				if b.field == a.field && b.held != "" {
					for _, l := range strings.Split(b.locks, ",") {
						guarded[a.field][l] = true
					}
				}
			}
		}
	}
	for f := range guarded {
		r.site("guarded field", f)
	}
	for _, a := range w.acc {
		g := guarded[a.field]
		if g == nil {
			if a.write && a.held == "r" {
				r.failPath("shared lock "+a.field+" in "+a.fn, a.pos, a.path, "%s is changed here while its lock is only held for reading", a.field)
			}
			continue
		}
		r.site("access of a guarded field", a.field+" "+a.pos)
		ok := false
		for _, l := range strings.Split(a.locks, ",") {
			if g[l] {
				ok = true
			}
		}
		what := "read"
		if a.write {
			what = "changed"
		}
		switch {
		case !ok:
			r.failPath("unlocked "+a.field+" in "+a.fn, a.pos, a.path, "%s is %s here without the lock that guards it elsewhere", a.field, what)
		case a.write && a.held != "w":
			r.failPath("shared lock "+a.field+" in "+a.fn, a.pos, a.path, "%s is changed here while its lock is only held for reading", a.field)
		}
	}
	for _, a := range w.stale {
		if guarded[a.field] != nil {
			r.failPath("check then act "+a.field+" in "+a.fn, a.pos, a.path, "an entry of %s is changed here on the strength of a lookup made before the lock was released", a.field)
		}
	}
	r.min("guarded field", 3)
	r.min("access of a guarded field", 8)
}

func ruleLockRelease(p *Prog, r *Report) {
	r.rule("The entry points of every package that uses a mutex are followed on every path with the set of locks held (deferred calls included): no path may return with a lock held, take a lock it holds already, release one it does not hold, or release it in another mode than it was taken.")
	p.lockDataflow(r, func(kind, key, pos string, path []string, msg string) {
		if kind == "release" {
			r.failPath(key, pos, path, "%s", msg)
		}
	})
	r.min("lock taken", 8)
	r.min("lock released", 8)
}
