package main

import (
	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Latch  []*ssa.BasicBlock
	Mods   map[string]bool
	Induct map[*ssa.Phi]bool

	searched bool
	search   []searchPair
}

type fnInfo struct {
	fn      *ssa.Function
	loops   map[*ssa.BasicBlock]*Loop // by header
	irred   bool
	liveIn  []map[ssa.Value]bool                   // per block
	liveAt  map[ssa.Instruction]map[ssa.Value]bool // live after the instruction (only for calls/stores)
	phiLive []map[ssa.Value]bool
}

func isTracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func analyseFn(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, loops: map[*ssa.BasicBlock]*Loop{}, liveAt: map[ssa.Instruction]map[ssa.Value]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				l.Latch = append(l.Latch, b)
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.Blocks[x] {
						continue
					}
					l.Blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	// irreducible: retreating edge that is not a back edge
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 && !s.Dominates(b) {
				fi.irred = true
			}
			if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	fi.liveness()
	for _, l := range fi.loops {
		l.Induct = map[*ssa.Phi]bool{}
		for _, in := range l.Header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if iff, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If); ok && dependsOn(iff.Cond, ph, 3) {
				l.Induct[ph] = true
			}
		}
	}
	return fi
}

func dependsOn(v ssa.Value, target ssa.Value, d int) bool {
	if v == target {
		return true
	}
	if d == 0 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return dependsOn(x.X, target, d-1) || dependsOn(x.Y, target, d-1)
	case *ssa.UnOp:
		return dependsOn(x.X, target, d-1)
	}
	return false
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, n)
	fi.phiLive = make([]map[ssa.Value]bool, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
	}
	changed := true
	var ops []*ssa.Value
	compute := func(b *ssa.BasicBlock, record bool) map[ssa.Value]bool {
		live := map[ssa.Value]bool{}
		for _, s := range b.Succs {
			for v := range fi.liveIn[s.Index] {
				live[v] = true
			}
			pi := -1
			for i, p := range s.Preds {
				if p == b {
					pi = i
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if isTracked(ph.Edges[pi]) {
							live[ph.Edges[pi]] = true
						}
					}
				}
			}
		}
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if record {
				switch in.(type) {
				case *ssa.Call, *ssa.Store, *ssa.RunDefers, *ssa.Defer:
					cp := make(map[ssa.Value]bool, len(live))
					for v := range live {
						cp[v] = true
					}
					fi.liveAt[in] = cp
				}
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil && isTracked(*o) {
					live[*o] = true
				}
			}
		}
		return live
	}
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			nl := compute(b, false)
			if len(nl) != len(fi.liveIn[i]) {
				fi.liveIn[i] = nl
				changed = true
			}
		}
	}
	for _, b := range fi.fn.Blocks {
		compute(b, true)
	}
}

func (fi *fnInfo) loopsOf(b *ssa.BasicBlock) []*Loop {
	var out []*Loop
	for _, l := range fi.loops {
		if l.Blocks[b] {
			out = append(out, l)
		}
	}
	return out
}
