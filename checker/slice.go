package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// origins walks backwards, flow-insensitively and across calls, from a value to where it comes
// from. leaf reports a value at which the walk ends although it could go on.
func (p *Prog) origins(v ssa.Value, leaf func(ssa.Value) bool) []ssa.Value {
	seen := map[ssa.Value]bool{}
	seenRes := map[resKey]bool{}
	var out []ssa.Value
	var walk func(v ssa.Value)
	var results func(f *ssa.Function, i int)
	results = func(f *ssa.Function, i int) {
		k := resKey{f, i}
		if seenRes[k] {
			return
		}
		seenRes[k] = true
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
				walk(ret.Results[i])
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if leaf != nil && leaf(v) {
			out = append(out, v)
			return
		}
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
			return
		case *ssa.Parameter:
			fn := x.Parent()
			idx := -1
			for i, q := range fn.Params {
				if q == x {
					idx = i
				}
			}
			n := 0
			for _, cs := range p.callersOf(fn) {
				com := cs.Common()
				args := com.Args
				if com.IsInvoke() {
					if idx == 0 {
						walk(com.Value)
					} else if idx-1 < len(args) {
						walk(args[idx-1])
					}
					n++
					continue
				}
				if idx < len(args) {
					walk(args[idx])
					n++
				}
			}
			if n == 0 {
				out = append(out, v)
			}
			return
		case *ssa.FreeVar:
			fn := x.Parent()
			idx := -1
			for i, q := range fn.FreeVars {
				if q == x {
					idx = i
				}
			}
			n := 0
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						walk(mc.Bindings[idx])
						n++
					}
				}
			}
			if n == 0 {
				out = append(out, v)
			}
			return
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if cells := p.cellsOf(x.X); cells != nil {
					for _, c := range cells {
						walk(c)
					}
					return
				}
			}
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && p.inRepo(f) && len(f.Blocks) > 0 {
					results(f, x.Index)
					return
				}
			}
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && p.inRepo(f) && len(f.Blocks) > 0 {
				results(f, 0)
				return
			}
		case *ssa.ChangeType:
			walk(x.X)
			return
		case *ssa.ChangeInterface:
			walk(x.X)
			return
		case *ssa.MakeInterface:
			walk(x.X)
			return
		}
		out = append(out, v)
	}
	walk(v)
	return out
}

type resKey struct {
	f *ssa.Function
	i int
}

// cellsOf: the values stored to a local variable, directly or through closures that capture it.
func (p *Prog) cellsOf(addr ssa.Value) []ssa.Value {
	var vars []ssa.Value
	seen := map[ssa.Value]bool{}
	var find func(a ssa.Value) bool
	find = func(a ssa.Value) bool {
		if seen[a] {
			return true
		}
		seen[a] = true
		switch x := a.(type) {
		case *ssa.Alloc:
			if _, isS := deref(x.Type()).Underlying().(*types.Struct); isS {
				// whole-struct loads are fine as well
			}
			vars = append(vars, x)
			return true
		case *ssa.FreeVar:
			vars = append(vars, x)
			fn := x.Parent()
			for i, q := range fn.FreeVars {
				if q != x || fn.Parent() == nil {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
							if !find(mc.Bindings[i]) {
								return false
							}
						}
					}
				}
			}
			return true
		}
		return false
	}
	if !find(addr) {
		return nil
	}
	var out []ssa.Value
	for _, v := range vars {
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			if s, ok := r.(*ssa.Store); ok && s.Addr == v {
				out = append(out, s.Val)
			}
		}
	}
	if len(out) == 0 {
		return nil
	}
	return out
}

// callersOf: call sites that may call fn.
func (p *Prog) callersOf(fn *ssa.Function) []ssa.CallInstruction {
	if p.callers == nil {
		p.callers = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.allBodies() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						fs, _ := p.calleesOf(c)
						for _, g := range fs {
							p.callers[g] = append(p.callers[g], c)
						}
					}
				}
			}
		}
	}
	return p.callers[fn]
}
