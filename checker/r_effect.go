package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C19", "A points-to analysis (allocation sites, field sensitive) over every function reachable from RootGenerator.Generate and GenerateWithDefaults computes what each store, map update, append, copy, delete and each call of a not read-only library function may write to. Nothing written may be reachable from the generator tree (the receiver), from the options handed in, or from a package level variable; only methods of math/rand may change what they are called on (the random sources). Values that outlive the call may therefore only be fresh ones.",
		"state inside third-party packages (the faker library); changes a user makes to a returned value that shares memory with an enum or const of the schema.", runC19)
	register("C20", "A points-to analysis (allocation sites, field sensitive) over every function reachable from the Parse entry points computes what each store, map update, append, copy, delete and each call of a not read-only library function may write to. Nothing written may be reachable from the parser options or the schema text handed in, or from a package level variable; only methods of math/rand may change what they are called on.",
		"state inside third-party packages (the default HTTP client, the validator library).", runC20)
}

// mutations visits everything the region may write to.
func (a *PTS) mutations(visit func(f *ssa.Function, in ssa.Instruction, what string, locs ptSet)) {
	var fns []*ssa.Function
	for f := range a.region {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.Store:
					visit(f, in, "a store", a.pts(v.Addr))
				case *ssa.MapUpdate:
					visit(f, in, "a map update", a.pts(v.Map))
				case ssa.CallInstruction:
					com := v.Common()
					if bi, ok := com.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							visit(f, in, bi.Name(), a.pts(com.Args[0]))
						}
						continue
					}
					_, ext := a.p.calleesOf(v)
					if !ext {
						continue
					}
					if g := com.StaticCallee(); g != nil {
						pk := fnPkgPath(originOf(g))
						if readOnlyExternal(g) || readOnlyMore(g, pk) {
							continue
						}
						if strings.HasPrefix(pk, "math/rand") {
							continue // advances a random source
						}
						out := ptSet{}
						for i, arg := range com.Args {
							if pk == "encoding/json" && g.Name() == "Unmarshal" && i == 0 {
								continue // the text is only read
							}
							a.gather(arg, out)
						}
						visit(f, in, "a call of "+fullName(originOf(g)), out)
						continue
					}
					if com.IsInvoke() {
						switch com.Method.Name() {
						case "Error", "String", "Unwrap", "Is", "As", "Int63", "Uint64", "Seed", "Name", "Len", "Size", "Mode", "IsDir":
							continue
						}
						out := ptSet{}
						a.gather(com.Value, out)
						for _, arg := range com.Args {
							a.gather(arg, out)
						}
						visit(f, in, "a call of "+com.Method.Name(), out)
						continue
					}
				}
			}
		}
	}
}

// readOnlyMore: library functions that do not write through what they are given.
func readOnlyMore(g *ssa.Function, pk string) bool {
	if pk == "slices" || pk == "maps" {
		switch originOf(g).Name() {
		case "Sorted", "Collect", "Keys", "Values", "All", "Concat", "Repeat", "SortedFunc", "IndexFunc", "ContainsFunc", "EqualFunc", "Max", "Min":
			return true
		}
		return false
	}
	if strings.HasPrefix(pk, "github.com/thoas/go-funk") {
		return g.Name() != "Shuffle" && g.Name() != "ForEach" && g.Name() != "Set" && g.Name() != "MustSet" && g.Name() != "PruneByTag"
	}
	if pk == "sort" {
		return strings.HasSuffix(g.Name(), "AreSorted") || g.Name() == "IsSorted" || strings.HasPrefix(g.Name(), "Search")
	}
	return false
}

// effectRegion: functions reachable from the roots, and methods that libraries call back.
func (p *Prog) effectRegion(roots []*ssa.Function) map[*ssa.Function]bool {
	reg := map[*ssa.Function]bool{}
	for f := range p.reach(roots, nil) {
		if p.inRepo(f) {
			reg[f] = true
		}
	}
	return reg
}

func (p *Prog) jsonMethods(name string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Signature.Recv() != nil && f.Name() == name && p.isLib(f) {
			out = append(out, f)
		}
	}
	return out
}

func runEffects(r *R, roots []*ssa.Function, seed func(a *PTS), forbidden func(label string) string) {
	p := r.p
	reg := p.effectRegion(roots)
	a := newPTS(p, reg)
	seed(a)
	a.run()
	a.mutations(func(f *ssa.Function, in ssa.Instruction, what string, locs ptSet) {
		r.fn(f)
		r.instrs++
		var bad []string
		for l := range locs {
			if l.o.label == "" {
				continue
			}
			if strings.HasSuffix(l.path, ".RngSource") {
				continue // a random source
			}
			if why := forbidden(l.o.label); why != "" {
				bad = append(bad, l.String())
			}
		}
		kind := "write"
		if len(bad) == 0 {
			r.ok(kind, p.instrPos(in)+" "+what)
			return
		}
		sort.Strings(bad)
		r.bad(kind, shortFn(f)+":"+strings.TrimPrefix(what, "a "), p.instrPos(in), "%s may write to %s, which exists outside of the call", what, strings.Join(uniq(bad), ", "))
	})
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
		if len(out) > 6 {
			break
		}
	}
	return out
}

func runC19(r *R) {
	p := r.p
	var roots []*ssa.Function
	for _, f := range p.libRoots() {
		if recvName(f) == "RootGenerator" && strings.HasPrefix(f.Name(), "Generate") {
			roots = append(roots, f)
		}
	}
	if len(roots) < 2 {
		r.missing("RootGenerator.Generate and RootGenerator.GenerateWithDefaults")
		return
	}
	runEffects(r, roots, func(a *PTS) {
		for _, f := range roots {
			for i, pr := range f.Params {
				label := "the options"
				if i == 0 {
					label = "the generator"
				}
				a.seedParam(pr, label)
			}
		}
	}, func(l string) string { return l })
	// the generators proper are part of what was analysed
	for _, f := range p.generateImpls() {
		if r.fns[fullName(f)] || !writes(f) {
			r.ok("generator analysed", shortFn(f))
		}
	}
	r.need("generator analysed", 10)
	r.need("write", 40)
}

func writes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.MapUpdate:
				return true
			}
		}
	}
	return false
}

func runC20(r *R) {
	p := r.p
	roots := p.parseEntries()
	if len(roots) < 4 {
		r.missing("the Parse entry points")
		return
	}
	um := p.jsonMethods("UnmarshalJSON")
	mm := p.jsonMethods("MarshalJSON")
	all := append(append(append([]*ssa.Function{}, roots...), um...), mm...)
	runEffects(r, all, func(a *PTS) {
		for _, f := range roots {
			for _, pr := range f.Params {
				if isRef(pr.Type()) || isAgg(pr.Type()) {
					label := "the parser options"
					if typeName(pr.Type()) != "ParserOptions" {
						label = "the schema text"
					}
					a.seedParam(pr, label)
				}
			}
		}
		for _, f := range um {
			a.seedParam(f.Params[0], "json target")
			a.seedParam(f.Params[1], "the json text")
		}
		for _, f := range mm {
			a.seedParam(f.Params[0], "json source")
		}
	}, func(l string) string {
		if l == "json target" {
			return ""
		}
		return l
	})
	r.need("write", 150)
}
