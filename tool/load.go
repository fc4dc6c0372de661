package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModPath is the module path of the code under analysis.
const ModPath = "github.com/lxdlam/vertex"

// Prog is the loaded, type-checked program in SSA form.
type Prog struct {
	Root  string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package      // repo packages by path
	Src   map[string]*packages.Package // repo packages by path
	Funcs []*ssa.Function              // every function of the repo with a body, closures included
	// concrete named types of the repo (with pointer types), for dynamic dispatch
	concrete []types.Type

	addrTaken         []*ssa.Function
	invokeMemo        map[string][]*ssa.Function
	callers           map[*ssa.Function][]CallSite
	neverNilMemo      map[string]bool
	reachCache        map[string]map[*ssa.Function]bool
	nonNilGlobals     map[string]bool
	modMemo, dmodMemo map[*ssa.Function]map[string]bool
	calleeMemo        map[ssa.CallInstruction][]*ssa.Function
	funcMaps          map[string]map[string]*ssa.Function
	rootMemo          map[string]*rootAn
	simpleMemo        map[*ssa.Function]bool
}

// CallSite is a call, defer or go instruction in a function.
type CallSite struct {
	Fn    *ssa.Function
	Instr ssa.CallInstruction
}

func fatalf(format string, a ...interface{}) {
	panic(checkError(fmt.Sprintf(format, a...)))
}

// checkError is raised when the analysis cannot be carried out; it counts as undecided.
type checkError string

func Load(root string) (p *Prog, err error) {
	tmp, err := os.MkdirTemp("", "vertexcheck")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, n), b, 0644); err != nil {
			return nil, err
		}
	}

	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   root,
		Tests: false,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=0",
			"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod")),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p = &Prog{Root: root, Pkgs: map[string]*ssa.Package{}, Src: map[string]*packages.Package{},
		invokeMemo: map[string][]*ssa.Function{}, neverNilMemo: map[string]bool{}, reachCache: map[string]map[*ssa.Function]bool{},
		modMemo: map[*ssa.Function]map[string]bool{}, dmodMemo: map[*ssa.Function]map[string]bool{}, calleeMemo: map[ssa.CallInstruction][]*ssa.Function{}, funcMaps: map[string]map[string]*ssa.Function{}, rootMemo: map[string]*rootAn{}}
	for _, q := range pkgs {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("type-check failed: %v", e)
		}
		p.Src[q.PkgPath] = q
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", root)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		p.Pkgs[pkgs[i].PkgPath] = sp
	}
	p.collect()
	return p, nil
}

func (p *Prog) isRepoPkg(pk *types.Package) bool {
	return pk != nil && (pk.Path() == ModPath || strings.HasPrefix(pk.Path(), ModPath+"/"))
}

// isRepo reports whether fn has its source in the repository.
func (p *Prog) isRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if fn.Pkg != nil {
		return p.isRepoPkg(fn.Pkg.Pkg)
	}
	if fn.Parent() != nil {
		return p.isRepo(fn.Parent())
	}
	// wrappers and thunks: decide by the object
	if o := fn.Object(); o != nil {
		return p.isRepoPkg(o.Pkg())
	}
	return false
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Blocks != nil {
			p.Funcs = append(p.Funcs, fn)
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for path := range p.Pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := p.Pkgs[path]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				t := m.Type()
				if _, ok := t.Underlying().(*types.Interface); ok {
					continue
				}
				pt := types.NewPointer(t)
				p.concrete = append(p.concrete, t, pt)
				for _, tt := range []types.Type{t, pt} {
					ms := p.SSA.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := p.SSA.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	// address-taken functions: used other than as the callee of a static call
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && !(callee == *op && isCalleeOperand(in, op)) {
						taken[f] = true
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for f := range taken {
		p.addrTaken = append(p.addrTaken, f)
	}
	sort.Slice(p.addrTaken, func(i, j int) bool { return p.addrTaken[i].String() < p.addrTaken[j].String() })
}

func isCalleeOperand(in ssa.Instruction, op *ssa.Value) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	return op == &c.Common().Value
}

// pos renders a position relative to the repository root.
func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.Root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// fall back on a neighbour in the block
	b := in.Block()
	if b != nil {
		idx := -1
		for i, x := range b.Instrs {
			if x == in {
				idx = i
			}
		}
		for i := idx; i >= 0; i-- {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
		for i := idx; i >= 0 && i < len(b.Instrs); i++ {
			if b.Instrs[i].Pos().IsValid() {
				return p.pos(b.Instrs[i].Pos())
			}
		}
	}
	return p.pos(in.Parent().Pos())
}

// fname is a short readable name of a function.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, ModPath+"/pkg/", "")
	s = strings.ReplaceAll(s, ModPath+"/", "")
	return s
}

// ---- lookups by exported API ----

func (p *Prog) pkg(short string) *ssa.Package {
	for _, pre := range []string{"/pkg/", "/"} {
		if q := p.Pkgs[ModPath+pre+short]; q != nil {
			return q
		}
	}
	fatalf("anchor lost: package %s", short)
	return nil
}

// fn finds an exported package-level function.
func (p *Prog) fn(pkg, name string) *ssa.Function {
	f := p.pkg(pkg).Func(name)
	if f == nil || f.Blocks == nil {
		fatalf("anchor lost: function %s.%s", pkg, name)
	}
	return f
}

func (p *Prog) named(pkg, name string) *types.Named {
	o := p.pkg(pkg).Pkg.Scope().Lookup(name)
	if o == nil {
		fatalf("anchor lost: type %s.%s", pkg, name)
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		fatalf("anchor lost: %s.%s is not a named type", pkg, name)
	}
	return n
}

func (p *Prog) iface(pkg, name string) *types.Interface {
	n := p.named(pkg, name)
	i, ok := n.Underlying().(*types.Interface)
	if !ok {
		fatalf("anchor lost: %s.%s is not an interface", pkg, name)
	}
	return i
}

// impls returns the concrete methods implementing iface.method in the repo.
func (p *Prog) impls(pkg, name, method string) []*ssa.Function {
	n := p.named(pkg, name)
	fs := p.dispatch(n, method)
	if len(fs) == 0 {
		fatalf("anchor lost: no implementation of %s.%s.%s", pkg, name, method)
	}
	return fs
}

// impl is impls for an interface with a single implementation.
func (p *Prog) impl(pkg, name, method string) *ssa.Function {
	fs := p.impls(pkg, name, method)
	if len(fs) != 1 {
		fatalf("anchor lost: %d implementations of %s.%s.%s, expected 1", len(fs), pkg, name, method)
	}
	return fs[0]
}

// method finds method m of the named (possibly pointer) type.
func (p *Prog) method(t types.Type, m string) *ssa.Function {
	if nt, ok := t.(*types.Named); ok {
		if _, isI := nt.Underlying().(*types.Interface); !isI {
			t = types.NewPointer(nt)
		}
	}
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return unwrap(p.SSA.MethodValue(ms.At(i)))
		}
	}
	return nil
}

// unwrap maps a synthetic wrapper to the declared method it calls.
func unwrap(f *ssa.Function) *ssa.Function {
	for f != nil && f.Synthetic != "" && f.Object() != nil {
		if f.Prog == nil {
			break
		}
		g := f.Prog.FuncValue(f.Object().(*types.Func))
		if g == nil || g == f {
			break
		}
		f = g
	}
	return f
}

func derefNamed(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, isNamed := t.(*types.Named); !isNamed {
			t = pt.Elem()
		}
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

// implementers returns the repo's concrete types implementing the interface.
func (p *Prog) implementers(i *types.Interface) []types.Type {
	var out []types.Type
	seen := map[*types.Named]bool{}
	for _, t := range p.concrete {
		if types.Implements(t, i) {
			n := derefNamed(t)
			if n != nil && !seen[n] {
				seen[n] = true
				out = append(out, t)
			}
		}
	}
	return out
}

// dispatch resolves a method call on an interface type to repo methods.
func (p *Prog) dispatch(recv types.Type, method string) []*ssa.Function {
	key := recv.String() + "." + method
	if v, ok := p.invokeMemo[key]; ok {
		return v
	}
	var out []*ssa.Function
	i, ok := recv.Underlying().(*types.Interface)
	if ok {
		for _, t := range p.implementers(i) {
			if f := p.methodAny(t, method); f != nil {
				out = append(out, f)
			}
		}
	}
	p.invokeMemo[key] = out
	return out
}

func (p *Prog) methodAny(t types.Type, m string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == m {
			return unwrap(p.SSA.MethodValue(ms.At(i)))
		}
	}
	return nil
}
