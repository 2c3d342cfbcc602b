package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- call resolution over the repository (class hierarchy for interfaces, signature match for function values)

func (p *Prog) calleesOf(c ssa.CallInstruction) (fns []*ssa.Function, external bool) {
	com := c.Common()
	if com.IsInvoke() {
		it, ok := com.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return nil, true
		}
		key := com.Method.Id() + "@" + it.String()
		if p.impls == nil {
			p.impls = map[string][]*ssa.Function{}
		}
		im, ok := p.impls[key]
		if !ok {
			im = p.implementations(it, com.Method.Name())
			p.impls[key] = im
		}
		ext := true
		if n, ok := types.Unalias(com.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && p.Repo[relOf(n.Obj().Pkg().Path())] != nil {
			ext = false
		}
		return im, ext
	}
	if f := com.StaticCallee(); f != nil {
		if p.inRepo(f) && len(f.Blocks) > 0 {
			return []*ssa.Function{f}, false
		}
		return nil, true
	}
	if _, ok := com.Value.(*ssa.Builtin); ok {
		return nil, false
	}
	return p.funcsBySig(com.Signature()), false
}

func relOf(path string) string {
	if path == repoModule {
		return ""
	}
	if len(path) > len(repoModule) && path[:len(repoModule)+1] == repoModule+"/" {
		return path[len(repoModule)+1:]
	}
	return "\x00"
}

// funcsBySig: repository functions whose address is taken and whose signature matches.
func (p *Prog) funcsBySig(sig *types.Signature) []*ssa.Function {
	if p.sigs == nil {
		p.sigs = map[string][]*ssa.Function{}
		taken := map[*ssa.Function]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					ops = in.Operands(ops)
					callee := ssa.Value(nil)
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					for i, o := range ops {
						if *o == nil {
							continue
						}
						f, ok := (*o).(*ssa.Function)
						if !ok {
							continue
						}
						if *o == callee && i == 0 {
							continue
						}
						taken[f] = true
					}
				}
			}
		}
		for f := range taken {
			if len(f.Blocks) == 0 || !p.inRepo(f) {
				// bound method wrappers have blocks; externals are ignored
				if len(f.Blocks) == 0 {
					continue
				}
			}
			k := sigKey(f.Signature)
			p.sigs[k] = append(p.sigs[k], f)
		}
		for _, l := range p.sigs {
			sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
		}
	}
	return p.sigs[sigKey(sig)]
}

func sigKey(s *types.Signature) string {
	k := ""
	for i := 0; i < s.Params().Len(); i++ {
		k += types.TypeString(s.Params().At(i).Type(), nil) + ","
	}
	k += ")"
	for i := 0; i < s.Results().Len(); i++ {
		k += types.TypeString(s.Results().At(i).Type(), nil) + ","
	}
	return k
}

// ---- effects: which abstract locations a function may write, transitively

func locKey(addr ssa.Value) string {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := structOf(a.X.Type())
		return fieldKey(deref(a.X.Type()), st, a.Field)
	case *ssa.IndexAddr:
		return "elem:" + deref(a.Type()).String()
	case *ssa.Global:
		return "global:" + a.String()
	}
	return "deref:" + deref(addr.Type()).String()
}

func fieldKey(t types.Type, st *types.Struct, i int) string {
	n := typeName(t)
	if n == "" {
		n = st.String()
	}
	return n + "." + st.Field(i).Name()
}

// rootAlloc strips field/index address steps that stay within one object.
func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
				v = a.X // pointer to array
			} else {
				return v
			}
		default:
			return v
		}
	}
}

func expandStruct(key string, t types.Type, out map[string]bool) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			out[fieldKey(t, st, i)] = true
			expandStruct("", st.Field(i).Type(), out)
		}
	}
	if key != "" {
		out[key] = true
	}
}

func directMods(instrs []ssa.Instruction, out map[string]bool) {
	for _, in := range instrs {
		switch x := in.(type) {
		case *ssa.Store:
			if al, ok := addrRoot(x.Addr).(*ssa.Alloc); ok && al != nil {
				continue // object made by this activation
			}
			expandStruct(locKey(x.Addr), deref(x.Addr.Type()), out)
		case *ssa.MapUpdate:
			if _, ok := x.Map.(*ssa.MakeMap); ok {
				continue
			}
			out["map:"+x.Map.Type().Underlying().String()] = true
		}
	}
}

func (p *Prog) modsOf(fn *ssa.Function) map[string]bool {
	if p.mods == nil {
		p.mods = map[*ssa.Function]map[string]bool{}
		callees := map[*ssa.Function][]*ssa.Function{}
		for _, f := range p.Funcs {
			m := map[string]bool{}
			for _, b := range f.Blocks {
				directMods(b.Instrs, m)
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						fs, _ := p.calleesOf(c)
						callees[f] = append(callees[f], fs...)
						for _, a := range c.Common().Args {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								callees[f] = append(callees[f], mc.Fn.(*ssa.Function))
							}
						}
					}
				}
			}
			p.mods[f] = m
		}
		for changed := true; changed; {
			changed = false
			for _, f := range p.Funcs {
				m := p.mods[f]
				for _, c := range callees[f] {
					for k := range p.mods[c] {
						if !m[k] {
							m[k] = true
							changed = true
						}
					}
				}
			}
		}
	}
	if m, ok := p.mods[fn]; ok {
		return m
	}
	return map[string]bool{}
}

func (p *Prog) callMods(c ssa.CallInstruction, out map[string]bool) {
	fs, _ := p.calleesOf(c)
	for _, f := range fs {
		for k := range p.modsOf(f) {
			out[k] = true
		}
	}
	for _, a := range c.Common().Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			for k := range p.modsOf(mc.Fn.(*ssa.Function)) {
				out[k] = true
			}
		}
	}
}

// unaliased: a variable no pointer leads to as long as the function that has it runs.
func unaliased(al *ssa.Alloc) bool {
	if _, ok := deref(al.Type()).Underlying().(*types.Struct); ok {
		return false
	}
	for _, in := range *al.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Val == ssa.Value(al) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Return:
		default:
			return false
		}
	}
	return true
}

func (p *Prog) loopMods(l *Loop) map[string]bool {
	if l.Mods == nil {
		l.Mods = map[string]bool{}
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if al, ok := s.Addr.(*ssa.Alloc); ok && unaliased(al) {
						l.Mods["alloc:"+al.Name()] = true
						continue
					}
					expandStruct(locKey(s.Addr), deref(s.Addr.Type()), l.Mods)
					if al, ok := addrRoot(s.Addr).(*ssa.Alloc); ok {
						l.Mods["alloc:"+al.Name()] = true
					}
				}
				if m, ok := in.(*ssa.MapUpdate); ok {
					l.Mods["map:"+m.Map.Type().Underlying().String()] = true
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					p.callMods(c, l.Mods)
				}
			}
		}
	}
	return l.Mods
}
