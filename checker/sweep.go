package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// A sweep is a loop that visits every element of a collection unless it is left early.

// loopOver is the collection the loop visits from its first element to its last, or nil.
func (x *Exec) loopOver(st *State, l *Loop) *Term {
	h := l.Header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || l.Blocks[h.Succs[0]] == l.Blocks[h.Succs[1]] {
		return nil
	}
	// for k, v := range someMap
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && nx.Block() == h {
			if rg, ok := nx.Iter.(*ssa.Range); ok && !nx.IsString {
				if t, ok := st.env[rg]; ok && t.Op == "range" {
					return t.A[0]
				}
				if t := st.env[nx.Iter]; t != nil && t.Op == "range" {
					return t.A[0]
				}
			}
		}
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	idx, bound := cmp.X, cmp.Y
	switch cmp.Op {
	case token.LSS, token.NEQ:
	case token.GTR:
		idx, bound = bound, idx
	default:
		return nil
	}
	if !l.Blocks[h.Succs[0]] || !inductive(idx, l) {
		return nil
	}
	if c, ok := bound.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if !l.Blocks[c.Block()] {
				if t := st.env[c.Call.Args[0]]; t != nil {
					return t
				}
			} else if t := x.invariant(st, c.Call.Args[0], l, x.P.loopMods(l)); t != nil {
				return t
			}
		}
	}
	n := x.boundTerm(st, bound, l)
	if n == nil {
		return nil
	}
	if n.Op == "len" {
		return n.A[0]
	}
	return n
}

// boundTerm evaluates the bound of a counting loop.
func (x *Exec) boundTerm(st *State, v ssa.Value, l *Loop) *Term {
	if in, ok := v.(ssa.Instruction); !ok || !l.Blocks[in.Block()] {
		return x.val(st, v)
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := x.invariant(st, c.Call.Args[0], l, x.P.loopMods(l)); a != nil {
				return x.lenOf(st, a)
			}
		}
		return nil
	}
	return x.invariant(st, v, l, x.P.loopMods(l))
}

func (x *Exec) sweepKey(l *Loop, st *State) string {
	return "sw" + strconv.Itoa(x.loopID(l)) + "." + strconv.Itoa(st.ctx.id)
}

// carried are the values of a kind that go around the loop.
func (x *Exec) carried(st *State, l *Loop, is func(types.Type) bool) (phis []*ssa.Phi, lvs []*Term) {
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if is(ph.Type()) {
			phis = append(phis, ph)
			lvs = append(lvs, x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx))
		}
	}
	return
}

// listsKeys: a function that returns all keys of the map it is given: a loop over the map that is
// only left at its end and takes the key in every round, or a function that passes such a list on.
func (p *Prog) listsKeys(f *ssa.Function) bool {
	return p.listsKeysN(f, 0)
}

func (p *Prog) listsKeysN(f *ssa.Function, depth int) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || depth > 3 {
		return false
	}
	sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return false
	}
	pt := sig.Params().At(0).Type()
	if ps, ok := pt.(*types.Slice); ok && sig.Variadic() {
		pt = ps.Elem()
	}
	m, ok := deref(pt).Underlying().(*types.Map)
	if !ok || !types.Identical(m.Key(), sl.Elem()) || f.Blocks == nil {
		return false
	}
	for _, l := range analyseFn(f).loops {
		if p.takesKeys(l) {
			return true
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && len(c.Call.Args) == 1 {
				if g := c.Call.StaticCallee(); g != nil && g != f && p.inRepo(g) && p.listsKeysN(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// takesKeys: the loop ranges over a map, is left only at its head, and stores the key in a list in
// every round.
func (p *Prog) takesKeys(l *Loop) bool {
	var key ssa.Value
	for _, in := range l.Header.Instrs {
		if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
			for _, u := range *nx.Referrers() {
				if ex, ok := u.(*ssa.Extract); ok && ex.Index == 1 {
					key = ex
				}
			}
		}
	}
	if key == nil {
		return false
	}
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if b != l.Header && !l.Blocks[s] {
				return false
			}
		}
	}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Val != key {
				continue
			}
			if _, ok := st.Addr.(*ssa.IndexAddr); !ok {
				continue
			}
			every := true
			for _, pr := range l.Header.Preds {
				if l.Blocks[pr] && !b.Dominates(pr) {
					every = false
				}
			}
			if every {
				return true
			}
		}
	}
	return false
}
