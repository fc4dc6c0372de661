package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalNonNil reports globals of the repo that are only assigned non-nil values, in init.
func (p *Prog) globalNonNil(name string) bool {
	if p.nonNilGlobals == nil {
		p.nonNilGlobals = map[string]bool{}
		bad := map[string]bool{}
		set := map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n := shortGlobal(g)
					if !nonNilVal(st.Val) {
						if c, ok := st.Val.(*ssa.Const); ok && c.IsNil() && fn.Name() == "init" {
							continue // explicit zero initialiser
						}
						bad[n] = true
					} else {
						set[n] = true
					}
				}
			}
		}
		for n := range set {
			if !bad[n] {
				p.nonNilGlobals[n] = true
			}
		}
		// library sentinels such as io.EOF
		for _, pk := range p.SSA.AllPackages() {
			if p.isRepoPkg(pk.Pkg) {
				continue
			}
			for _, m := range pk.Members {
				if g, ok := m.(*ssa.Global); ok {
					if pt, ok := g.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), types.Universe.Lookup("error").Type()) {
						p.nonNilGlobals[shortGlobal(g)] = true
					}
				}
			}
		}
	}
	return p.nonNilGlobals[name]
}

func nonNilVal(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.Function, *ssa.MakeInterface, *ssa.Global, *ssa.FieldAddr:
		return true
	case *ssa.Call:
		return nonNilLib[libName(x.Common())]
	case *ssa.ChangeInterface:
		return nonNilVal(x.X)
	case *ssa.ChangeType:
		return nonNilVal(x.X)
	}
	return false
}

// neverNil reports functions whose i-th result is visibly never nil.
func (p *Prog) neverNil(f *ssa.Function, i int) bool {
	k := fmt.Sprintf("%s#%d", f.String(), i)
	if v, ok := p.neverNilMemo[k]; ok {
		return v
	}
	p.neverNilMemo[k] = false
	res, n := true, 0
	var val func(v ssa.Value, d int) bool
	val = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		if nonNilVal(v) {
			return true
		}
		switch x := v.(type) {
		case *ssa.Call:
			fs := p.callees(x)
			if len(fs) == 0 {
				return false
			}
			for _, g := range fs {
				if !p.neverNil(g, 0) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			c, ok := x.Tuple.(*ssa.Call)
			if !ok {
				return false
			}
			fs := p.callees(c)
			for _, g := range fs {
				if !p.neverNil(g, x.Index) {
					return false
				}
			}
			return len(fs) > 0
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !val(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return p.globalNonNil(shortGlobal(g))
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				n++
				if i >= len(r.Results) || !val(r.Results[i], 0) {
					res = false
				}
			}
		}
	}
	res = res && n > 0
	p.neverNilMemo[k] = res
	return res
}

// modFields is the set of fields (by fieldKey), globals ("global x") and "map"/"elem"
// a function may write, transitively; go statements included.
func (p *Prog) modFields(fn *ssa.Function) map[string]bool {
	if m, ok := p.modMemo[fn]; ok {
		return m
	}
	m := map[string]bool{}
	for f := range p.reach(false, fn) {
		for k := range p.directMods(f) {
			m[k] = true
		}
	}
	p.modMemo[fn] = m
	return m
}

func (p *Prog) directMods(f *ssa.Function) map[string]bool {
	if m, ok := p.dmodMemo[f]; ok {
		return m
	}
	m := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					m[fieldKey(a.X.Type(), a.Field)] = true
				case *ssa.Global:
					m["global "+shortGlobal(a)] = true
				case *ssa.IndexAddr:
					m["elem"] = true
				}
				if st, ok := i.Val.Type().Underlying().(*types.Struct); ok {
					for k := 0; k < st.NumFields(); k++ {
						m[fieldKey(i.Val.Type(), k)] = true
					}
				}
			case *ssa.MapUpdate:
				m["map"] = true
			case ssa.CallInstruction:
				switch libName(i.Common()) {
				case "builtin.delete":
					m["map"] = true
				case "builtin.copy":
					m["elem"] = true
				}
			}
		}
	}
	p.dmodMemo[f] = m
	return m
}

// dispatchMulti lists the callees when a call site has several, to separate their contexts.
func (p *Prog) dispatchMulti(c ssa.CallInstruction) []*ssa.Function {
	if fs, ok := p.calleeMemo[c]; ok {
		return fs
	}
	fs := p.callees(c)
	p.calleeMemo[c] = fs
	return fs
}

// funcMap collects the contents of a package-level map from names to functions, when it is
// only filled with constant keys during package initialisation; nil otherwise.
func (p *Prog) funcMap(global string) map[string]*ssa.Function {
	if r, ok := p.funcMaps[global]; ok {
		return r
	}
	reg := map[string]*ssa.Function{}
	okAll := true
	fromGlobal := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok {
				return shortGlobal(g) == global
			}
		case *ssa.MakeMap:
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Val == v {
					if g, ok := st.Addr.(*ssa.Global); ok && shortGlobal(g) == global {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.MapUpdate:
					if !fromGlobal(i.Map) {
						continue
					}
					k, ok := i.Key.(*ssa.Const)
					fs := p.funcValues(i.Value, map[ssa.Value]bool{})
					if !ok || k.Value == nil || len(fs) != 1 {
						okAll = false
						continue
					}
					reg[constStr(k)] = fs[0]
				case ssa.CallInstruction:
					if libName(i.Common()) == "builtin.delete" && fromGlobal(i.Common().Args[0]) {
						okAll = false
					}
				}
			}
		}
	}
	if !okAll || len(reg) == 0 {
		reg = nil
	}
	p.funcMaps[global] = reg
	return reg
}

func constStr(k *ssa.Const) string {
	if k.Value != nil && k.Value.Kind() == constant.String {
		return constant.StringVal(k.Value)
	}
	return k.String()
}
