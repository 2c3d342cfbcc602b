package main

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Part of C29: a function that rewrites generic JSON goes through all of it.

func genericMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok := m.Key().Underlying().(*types.Basic)
	return ok && k.Kind() == types.String && types.IsInterface(m.Elem())
}

// genericRewriters: functions that take a generic object, call themselves and return one,
// or change it in place and return whether that failed.
func (p *Prog) genericRewriters() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.allBodies() {
		if !p.inRepo(f) || f.Signature.Results().Len() == 0 || !p.recursive(f) {
			continue
		}
		if t := f.Signature.Results().At(0).Type(); !genericMap(t) && !isErrT(t) {
			continue
		}
		for _, q := range f.Params {
			if genericMap(q.Type()) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func rewritesAll(r *R) {
	p := r.p
	fs := p.genericRewriters()
	for _, f := range fs {
		f := f
		r.fn(f)
		errAt := -1
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if isErrT(f.Signature.Results().At(i).Type()) {
				errAt = i
			}
		}
		var x *Exec
		over := func(l *Loop) bool { // goes over a generic object or list
			for b := range l.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Next:
						if rg, ok := in.Iter.(*ssa.Range); ok && genericMap(rg.X.Type()) && b == l.Header {
							return true
						}
					case *ssa.IndexAddr:
						if sl, ok := in.X.Type().Underlying().(*types.Slice); ok && types.IsInterface(sl.Elem()) {
							return true
						}
					}
				}
			}
			return false
		}
		x = newExec(p, Config{
			Fact: func(a *Term) int { return 1 },
			Inline: func(g *ssa.Function) bool {
				return g != f && p.inRepo(g) && recvName(g) == recvName(f) && p.recursive(g)
			},
			OnCall: func(ev *CallEvent) bool {
				if ev.Callee == f {
					for _, a := range ev.Args {
						if a = strip(a); a.Op == "tassert" {
							ev.St.mon["into"+strconv.Itoa(a.A[0].id)] = "1"
						}
					}
					return true
				}
				return false
			},
			OnHead: func(st *State, fr *frame, l *Loop) {
				if over(l) {
					st.mon["within"] = "1"
				}
			},
			OnExit: func(st *State, fr *frame, l *Loop, atHead bool) {
				if over(l) && atHead && !nested(fr, l, over) {
					delete(st.mon, "within")
				}
			},
			OnBack: func(st *State, fr *frame, l *Loop) {
				if !over(l) {
					return
				}
				for a, v := range st.facts {
					if a.Op != "tassertok" || !v {
						continue
					}
					t, ok := a.Aux.(types.Type)
					if !ok || !genericMap(t) {
						continue
					}
					if !x.owned(a.A[0], l, st.ctx) {
						continue
					}
					k := "into" + strconv.Itoa(a.A[0].id)
					if st.mon[k] == "" {
						r.bad("rewrite", shortFn(f), p.posAt(f.Pos()), "%s passes over a nested object without rewriting what is in it (%s)", shortFn(f), trailOf(st))
					} else {
						r.ok("rewrite", shortFn(f)+" into "+trailKey(st))
					}
					delete(st.mon, k)
				}
			},
		})
		outs := x.Root(f, nil)
		r.exec(x, shortFn(f))
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			if o.st.mon["within"] == "" || errAt >= 0 && x.knownNonNil(o.st, o.rets[errAt]) {
				r.ok("rewrite", shortFn(f)+" ends "+trailKey(o.st))
				continue
			}
			r.bad("rewrite", shortFn(f), p.instrPos(o.at), "%s stops without an error before it went through the whole object; what it leaves out depends on the order of the map (%s)", shortFn(f), trailOf(o.st))
		}
	}
	if len(fs) > 0 {
		r.need("rewrite", 3)
	}
}

// nested: the loop lies within another such loop.
func nested(fr *frame, l *Loop, over func(*Loop) bool) bool {
	for _, m := range fr.fi.loops {
		if m != l && m.Blocks[l.Header] && over(m) {
			return true
		}
	}
	return false
}
