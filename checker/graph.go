package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callGraph: every repository function with what it may call or whose value it hands on.
func (p *Prog) callGraph() map[*ssa.Function][]*ssa.Function {
	if p.graph != nil {
		return p.graph
	}
	p.graph = map[*ssa.Function][]*ssa.Function{}
	for _, fn := range p.allBodies() {
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if f != nil && !seen[f] {
				seen[f] = true
				p.graph[fn] = append(p.graph[fn], f)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					fs, _ := p.calleesOf(c)
					for _, f := range fs {
						add(f)
					}
				}
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					if f, ok := (*o).(*ssa.Function); ok {
						add(f)
					}
				}
			}
		}
	}
	return p.graph
}

// allBodies: repository functions and the synthetic wrappers they refer to.
func (p *Prog) allBodies() []*ssa.Function {
	if p.bodies != nil {
		return p.bodies
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && (p.inRepo(g) || g.Synthetic != "" && p.inRepoSynth(g)) {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		add(f)
	}
	p.bodies = out
	return out
}

func (p *Prog) inRepoSynth(g *ssa.Function) bool { return p.inRepo(g) }

// reach: functions reachable from the roots; stop cuts the walk at a function (which is not entered).
func (p *Prog) reach(roots []*ssa.Function, stop func(*ssa.Function) bool) map[*ssa.Function]*ssa.Function {
	g := p.callGraph()
	from := map[*ssa.Function]*ssa.Function{}
	var q []*ssa.Function
	for _, r := range roots {
		if r == nil || stop != nil && stop(r) {
			continue
		}
		if _, ok := from[r]; !ok {
			from[r] = nil
			q = append(q, r)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		for _, c := range g[f] {
			if _, ok := from[c]; ok {
				continue
			}
			if stop != nil && stop(c) {
				continue
			}
			from[c] = f
			q = append(q, c)
		}
	}
	return from
}

func (p *Prog) chain(from map[*ssa.Function]*ssa.Function, f *ssa.Function) string {
	var s []string
	for g := f; g != nil; g = from[g] {
		s = append(s, shortFn(g))
		if len(s) > 8 {
			break
		}
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " -> ")
}

func shortFn(f *ssa.Function) string {
	return strings.TrimPrefix(strings.TrimPrefix(f.String(), repoModule), ".")
}

// recursive functions: members of a call cycle.
func (p *Prog) recursive(fn *ssa.Function) bool {
	if p.rec == nil {
		p.rec = map[*ssa.Function]bool{}
		g := p.callGraph()
		// Tarjan
		idx := map[*ssa.Function]int{}
		low := map[*ssa.Function]int{}
		on := map[*ssa.Function]bool{}
		var stack []*ssa.Function
		n := 0
		var strong func(f *ssa.Function)
		strong = func(f *ssa.Function) {
			n++
			idx[f], low[f] = n, n
			stack = append(stack, f)
			on[f] = true
			for _, c := range g[f] {
				if c == f {
					p.rec[f] = true
				}
				if idx[c] == 0 {
					strong(c)
					if low[c] < low[f] {
						low[f] = low[c]
					}
				} else if on[c] && idx[c] < low[f] {
					low[f] = idx[c]
				}
			}
			if low[f] == idx[f] {
				var comp []*ssa.Function
				for {
					t := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[t] = false
					comp = append(comp, t)
					if t == f {
						break
					}
				}
				if len(comp) > 1 {
					for _, t := range comp {
						p.rec[t] = true
					}
				}
			}
		}
		for _, f := range p.allBodies() {
			if idx[f] == 0 {
				strong(f)
			}
		}
	}
	return p.rec[fn]
}

// libRoots: everything a user of the library can call.
func (p *Prog) libRoots() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if !p.isLib(f) || f.Parent() != nil {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			out = append(out, f)
			continue
		}
		if f.Object() != nil && f.Object().Exported() {
			out = append(out, f)
		}
	}
	return out
}

func (p *Prog) iface(rel, name string) *types.Interface {
	n := p.namedType(rel, name)
	if n == nil {
		return nil
	}
	it, _ := n.Underlying().(*types.Interface)
	return it
}

// ifaceWith finds the repository interface that declares the methods.
func (p *Prog) ifaceWith(methods ...string) *types.Interface {
	var rels []string
	for r := range p.Repo {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		sc := p.Repo[r].Pkg.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			all := true
			for _, m := range methods {
				f := false
				for i := 0; i < it.NumMethods(); i++ {
					if it.Method(i).Name() == m {
						f = true
					}
				}
				all = all && f
			}
			if all && it.NumMethods() == len(methods) {
				return it
			}
		}
	}
	return nil
}

// calls visits every call instruction of the repository's functions.
func (p *Prog) calls(visit func(fn *ssa.Function, c ssa.CallInstruction)) {
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(fn, c)
				}
			}
		}
	}
}

// touching: repository functions from which an instruction satisfying pred can be reached without
// passing a function at which stop holds.
func (p *Prog) touching(pred func(ssa.Instruction) bool, stop func(*ssa.Function) bool) map[*ssa.Function]bool {
	g := p.callGraph()
	rev := map[*ssa.Function][]*ssa.Function{}
	out := map[*ssa.Function]bool{}
	var q []*ssa.Function
	for _, f := range p.allBodies() {
		for _, c := range g[f] {
			rev[c] = append(rev[c], f)
		}
		hit := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if !hit && pred(in) {
					hit = true
				}
			}
		}
		if hit {
			out[f] = true
			q = append(q, f)
		}
	}
	for len(q) > 0 {
		f := q[0]
		q = q[1:]
		if stop != nil && stop(f) {
			continue
		}
		for _, c := range rev[f] {
			if !out[c] {
				out[c] = true
				q = append(q, c)
			}
		}
	}
	return out
}

// usesField: the instruction takes the address of or reads one of the fields.
func usesField(in ssa.Instruction, owner string, names ...string) bool {
	var t types.Type
	i := -1
	switch v := in.(type) {
	case *ssa.FieldAddr:
		t, i = v.X.Type(), v.Field
	case *ssa.Field:
		t, i = v.X.Type(), v.Field
	default:
		return false
	}
	if typeName(deref(t)) != owner {
		return false
	}
	n := structOf(t).Field(i).Name()
	for _, w := range names {
		if n == w {
			return true
		}
	}
	return false
}

// callsMethod: an interface call of the named method.
func callsMethod(in ssa.Instruction, names ...string) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || !c.Common().IsInvoke() {
		return false
	}
	for _, w := range names {
		if c.Common().Method.Name() == w {
			return true
		}
	}
	return false
}
