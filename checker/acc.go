package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

// loopAcc watches slices that are built up by loops: for every loop-carried slice (a header phi
// or a memory cell) it records what each way around the loop appends.
type loopAcc struct {
	x     *Exec
	iters map[*Term][]accIter // by the loop-carried term
}

type accIter struct {
	added []*Term // one term per append: a list or an opaque slice
	reset bool    // the new value is not an extension of the old one
	st    *State
	loop  *Loop
	val   *Term
}

func newLoopAcc(x *Exec) *loopAcc { return &loopAcc{x: x, iters: map[*Term][]accIter{}} }

// unwind splits append(append(base, a), b) into base and the pieces in order.
func unwind(t *Term) (base *Term, pieces []*Term) {
	for t.Op == "append" {
		pieces = append([]*Term{t.A[1]}, pieces...)
		t = t.A[0]
	}
	return t, pieces
}

func (la *loopAcc) onBack(st *State, fr *frame, l *Loop) {
	x := la.x
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isS := ph.Type().Underlying().(*types.Slice); !isS {
			continue
		}
		lv := x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)
		v := st.env[ph]
		if v == nil {
			continue
		}
		la.record(lv, v, st, l)
	}
	for k, v := range st.heap {
		if t := elemType(k); t != nil {
			if _, isS := t.Underlying().(*types.Slice); isS {
				hv := x.T.mk("havoc", "loop", 0, k.T, l.Header.Instrs[0], st.ctx, k)
				la.record(hv, v, st, l)
			}
		}
	}
}

func (la *loopAcc) record(lv, v *Term, st *State, l *Loop) {
	base, pieces := unwind(v)
	it := accIter{added: pieces, st: st.clone(), loop: l, val: v}
	if base != lv {
		it.reset = true
		it.added = nil
	}
	la.iters[lv] = append(la.iters[lv], it)
}

// coversAll: the slice v was built by one loop over a source slice, with at least one piece per
// iteration all of whose elements are accepted for the loop's element.
func (la *loopAcc) coversAll(v *Term, src func(*Term) bool, accept func(e, el *Term) bool) (bool, string) {
	v = strip(v)
	if src(v) {
		return true, ""
	}
	base, pieces := unwind(v)
	if len(pieces) > 0 {
		// append(nil, src...) copies
		if la.empty(base) && len(pieces) == 1 && src(pieces[0]) {
			return true, ""
		}
	}
	if callTo(v, "slices.Clone") && src(strip(v.A[0])) {
		return true, ""
	}
	its := la.iters[base]
	if len(its) == 0 {
		return false, fmt.Sprintf("it is %s, which is not built from the configured list", v)
	}
	for _, it := range its {
		if it.reset {
			if la.empty(it.val) || it.val.Op == "list" {
				return false, "the list is started anew inside the loop"
			}
			continue
		}
		if len(it.added) == 0 {
			return false, "an iteration adds nothing (" + trailOf(it.st) + ")"
		}
		for _, pc := range it.added {
			if pc.Op != "list" {
				return false, fmt.Sprintf("an iteration adds %s", pc)
			}
			for _, e := range pc.A {
				e = strip(e)
				good := false
				e.any(func(t *Term) bool {
					if c, ok := elemOf(t); ok && src(strip(c)) && accept(e, t) {
						good = true
					}
					return false
				})
				if c, ok := elemOf(e); ok && src(strip(c)) && accept(e, e) {
					good = true
				}
				if !good {
					return false, fmt.Sprintf("an iteration adds %s, which is not derived from its entry", e)
				}
			}
		}
	}
	return true, ""
}

func (la *loopAcc) empty(t *Term) bool {
	return t.isNil() || t.Op == "list" && len(t.A) == 0 || t.Op == "zero" || t.Op == "makeslice" && isZeroC(t.A[0])
}
