package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", "Every function of the parser that builds a generator and takes part in recursion is interpreted on all paths (helpers inlined): the calls among them that were not preceded, on that path, by raising the nesting depth and establishing that it does not exceed MaxParseDepth may not form a cycle; a call back into a dispatching function is left out when the parts of the schema that made the dispatcher choose the caller were removed before. While merging, a sub-schema obtained from a reference is only merged further after its key was found absent from the list of references being resolved and was then added to it, and parsing under source schemas adds the key of each of their references first. A document is queued only when it is neither queued nor parsed, it is taken off the queue and marked as parsed before its root is parsed, and no mark is withdrawn. Every loop of the parser must have, on every way round it, a test between a quantity that strictly advances and a fixed bound, or test a new entry against a list of visited ones.",
		"structural recursion over finite schemas; how often a failing document is asked for; the time expansion takes.", runC06)
}

// cycles: the strongly connected groups of the call graph.
func (p *Prog) sameCycle(f, g *ssa.Function) bool {
	if p.cyc == nil {
		p.cyc = map[*ssa.Function]map[*ssa.Function]*ssa.Function{}
	}
	get := func(a *ssa.Function) map[*ssa.Function]*ssa.Function {
		m := p.cyc[a]
		if m == nil {
			m = p.reach(p.callGraph()[a], nil)
			p.cyc[a] = m
		}
		return m
	}
	_, ok := get(f)[g]
	_, ok2 := get(g)[f]
	return ok && ok2
}

func (p *Prog) returnsGenerator(f *ssa.Function) bool {
	it := p.generatorIface()
	rs := f.Signature.Results()
	if it == nil || rs.Len() == 0 || isGenerate(f) {
		return false
	}
	t := rs.At(0).Type()
	if i, ok := t.Underlying().(*types.Interface); ok {
		return types.Identical(i, it)
	}
	return types.Implements(t, it)
}

func runC06(r *R) {
	p := r.p
	side := p.parseSide()
	r.depthGuards(side)
	r.mergeRefs(side)
	r.queueOnce()
	var fns []*ssa.Function
	for _, f := range p.allBodies() {
		if _, ok := side[f]; ok {
			fns = append(fns, f)
		}
	}
	r.checkLoops(fns, "loop", func(fn *ssa.Function, l *Loop) bool {
		return p.visitedLoop(fn, l) || p.depthLoop(fn, l) || p.queueLoop(fn, l) || p.shorter(fn, l)
	})
	r.need("loop", 40)
}

// depthGuards: recursion among the functions that build generators is bounded by the nesting depth.
func (r *R) depthGuards(side map[*ssa.Function]*ssa.Function) {
	p := r.p
	set := map[*ssa.Function]bool{}
	for f := range side {
		if p.inRepo(f) && len(f.Blocks) > 0 && p.recursive(f) && p.returnsGenerator(f) {
			set[f] = true
		}
	}
	if len(set) < 5 {
		r.missing("the recursive functions that build generators")
		return
	}
	touch := p.touching(func(in ssa.Instruction) bool {
		return usesField(in, "parserMetadata", "ParseDepth") || usesField(in, "ParserOptions", "MaxParseDepth")
	}, func(f *ssa.Function) bool { return set[f] })
	// helpers through which a function of the set is reached without passing another one
	via := p.touching(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		fs, _ := p.calleesOf(c)
		for _, g := range fs {
			if set[g] {
				return true
			}
		}
		return false
	}, func(f *ssa.Function) bool { return set[f] })
	type edge struct{ from, to *ssa.Function }
	type call struct {
		pos     string
		trig    map[string]bool // fields present on the path of the caller
		absent  map[string]bool // fields absent in the schema handed on
		trail   string
		hasNode bool
	}
	edges := map[edge][]call{}
	guarded := 0
	for _, root := range sortedFns(set) {
		key := shortFn(root)
		x := newExec(p, Config{
			Inline: func(f *ssa.Function) bool {
				return !set[f] && (touch[f] || via[f]) && !p.recursive(f) || f.Parent() != nil && touch[f] && !set[f]
			},
			Fact: func(a *Term) int {
				rel := a.any(func(t *Term) bool {
					o, n, _, ok := fieldRead(t)
					return ok && (o == "parserMetadata" && n == "ParseDepth" || o == "ParserOptions" && n == "MaxParseDepth" || o == "schemaNode")
				})
				if rel {
					return 1
				}
				return -1
			},
		})
		b := &balance{x: x, r: &R{p: p, seenV: map[string]bool{}, oks: map[string]map[string]bool{}, bads: map[string]map[string]bool{}}, key: key}
		x.cfg.OnInstr = b.instr
		x.cfg.OnCall = func(ev *CallEvent) bool {
			g := ev.Callee
			if g == nil || !set[g] {
				return false
			}
			st := ev.St
			if st.mon[monDepth] != "" && x.depthOK(st) {
				guarded++
				r.ok("depth tested", key+" -> "+shortFn(g))
				return false
			}
			c := call{pos: p.instrPos(ev.In), trig: map[string]bool{}, absent: map[string]bool{}, trail: trailOf(st)}
			for f, v := range st.facts {
				if n, present, ok := x.fieldPresence(f, v); ok && present {
					c.trig[n] = true
				}
			}
			for _, a := range ev.Args {
				if a.T == nil || typeName(a.T) != "schemaNode" {
					continue
				}
				if _, isP := a.T.Underlying().(*types.Pointer); isP {
					continue
				}
				sst, ok := a.T.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				c.hasNode = true
				for i := 0; i < sst.NumFields(); i++ {
					fv := x.field(a, sst, i)
					if x.knownNil(st, fv) || fv.Op == "list" && len(fv.A) == 0 {
						c.absent[sst.Field(i).Name()] = true
					} else if n, ok := x.absentFact(st, fv); ok && n {
						c.absent[sst.Field(i).Name()] = true
					}
				}
			}
			edges[edge{root, g}] = append(edges[edge{root, g}], c)
			return false
		}
		x.Root(root, nil)
		r.exec(x, key)
	}
	if guarded == 0 {
		r.bad("depth tested", "none", "-", "no recursive call of the parser is preceded by a test of the nesting depth against MaxParseDepth")
	}
	// calls back into a dispatcher with the reason for the choice removed
	succ := map[*ssa.Function]map[*ssa.Function]call{}
	for e, cs := range edges {
		for _, c := range cs {
			removed := false
			if back, ok := edges[edge{e.to, e.from}]; ok && c.hasNode {
				removed = true
				for _, d := range back {
					hit := false
					for n := range d.trig {
						if c.absent[n] {
							hit = true
						}
					}
					if !hit {
						removed = false
					}
				}
			}
			if removed {
				r.ok("reason removed", shortFn(e.from)+" -> "+shortFn(e.to))
				continue
			}
			if succ[e.from] == nil {
				succ[e.from] = map[*ssa.Function]call{}
			}
			succ[e.from][e.to] = c
		}
	}
	// the rest has no cycle
	state := map[*ssa.Function]int{}
	var path []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		state[f] = 1
		path = append(path, f)
		var to []*ssa.Function
		for g := range succ[f] {
			to = append(to, g)
		}
		sort.Slice(to, func(i, j int) bool { return to[i].String() < to[j].String() })
		for _, g := range to {
			if state[g] == 1 {
				var s []string
				on := false
				for _, q := range path {
					if q == g {
						on = true
					}
					if on {
						s = append(s, shortFn(q))
					}
				}
				s = append(s, shortFn(g))
				c := succ[f][g]
				r.bad("depth tested", shortFn(f)+" -> "+shortFn(g), c.pos, "the parser can call itself along %s without the nesting depth being raised and tested against MaxParseDepth (%s)", strings.Join(s, " -> "), c.trail)
				continue
			}
			if state[g] == 0 {
				walk(g)
			}
		}
		path = path[:len(path)-1]
		state[f] = 2
	}
	for _, f := range sortedFns(set) {
		if state[f] == 0 {
			walk(f)
		}
	}
	r.need("depth tested", 1)
}

// depthOK: the nesting depth as it is now is known not to exceed the maximum.
func (x *Exec) depthOK(st *State) bool {
	var cur *Term
	for a, v := range st.heap {
		if isDepthAddr(a) {
			cur = v
		}
	}
	if cur == nil {
		return false
	}
	for f := range st.facts {
		var max *Term
		f.any(func(t *Term) bool {
			if o, n, _, ok := fieldRead(t); ok && o == "ParserOptions" && n == "MaxParseDepth" {
				max = t
			}
			return false
		})
		if max == nil {
			continue
		}
		if v, known := x.decide(st, x.bin("<", max, cur, types.Typ[types.Bool])); known && !v {
			return true
		}
	}
	return false
}

// fieldPresence: the fact says that a field of a schema is present (or absent).
func (x *Exec) fieldPresence(f *Term, v bool) (name string, present, ok bool) {
	node := func(t *Term) string {
		if o, n, _, ok := fieldRead(strip(t)); ok && o == "schemaNode" {
			return n
		}
		return ""
	}
	if f.Op != "bin" {
		return
	}
	switch f.Aux {
	case "==":
		for i := range f.A {
			if n := node(f.A[i]); n != "" && f.A[1-i].isNil() {
				return n, !v, true
			}
			if f.A[i].Op == "len" {
				if n := node(f.A[i].A[0]); n != "" && isZeroC(f.A[1-i]) {
					return n, !v, true
				}
			}
		}
	case "<":
		if f.A[1].Op == "len" && isZeroC(f.A[0]) {
			if n := node(f.A[1].A[0]); n != "" {
				return n, v, true
			}
		}
	}
	return
}

// absentFact: the value of a schema's field is known to be empty.
func (x *Exec) absentFact(st *State, v *Term) (bool, bool) {
	if v.T == nil {
		return false, false
	}
	if _, ok := v.T.Underlying().(*types.Slice); ok {
		if gt, known := x.decide(st, x.bin("<", x.T.Int(0), x.lenOf(st, v), types.Typ[types.Bool])); known && !gt {
			return true, true
		}
	}
	return false, false
}

// mergeRefs: a reference is tested and remembered before what it leads to is merged or parsed.
func (r *R) mergeRefs(side map[*ssa.Function]*ssa.Function) {
	p := r.p
	isResolve := func(t *Term) bool {
		f, ok := t.Aux.(*ssa.Function)
		return ok && (t.Op == "call" || t.Op == "pcall") && resolvesNode(f)
	}
	// functions that add to the list of references
	push := p.touching(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && usesField(fa, "referenceResolver", "resolutions")
	}, func(f *ssa.Function) bool { return p.recursive(f) })
	look := p.touching(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && resolvesNode(c.Common().StaticCallee()) || usesField(in, "referenceResolver", "resolutions")
	}, func(f *ssa.Function) bool { return p.recursive(f) })
	for _, root := range sortedFns(keysOf(side)) {
		if !p.inRepo(root) || !p.recursive(root) || !push[root] || len(root.Blocks) == 0 {
			continue
		}
		key := shortFn(root)
		x := newExec(p, Config{
			Inline: func(f *ssa.Function) bool { return look[f] && !p.recursive(f) && !resolvesNode(f) && !resolvesID(f) },
			Fact: func(a *Term) int {
				rel := a.any(func(t *Term) bool {
					return isResolutions(t) || isResolve(t) || t.Op == "call" && isErrT(t.T) || isField(t, "schemaNode", "Ref")
				})
				if rel {
					return 1
				}
				return -1
			},
		})
		b := &balance{x: x, r: &R{p: p, seenV: map[string]bool{}, oks: map[string]map[string]bool{}, bads: map[string]map[string]bool{}}, key: key}
		const monNew = "newrefs"
		// the key that a push adds was resolved from the text of a reference
		resolved := func(e *Term) (ref *Term, ok bool) {
			var ds, ps *Term
			x2 := map[*Term]bool{}
			for _, q := range x.catParts(e) {
				q = strip(q)
				if f, isF := q.Aux.(*ssa.Function); isF && q.Op == "call" && resolvesID(f) {
					if q.N == 0 {
						ds = q
					} else if q.N == 1 {
						ps = q
					}
					x2[q] = true
				}
			}
			if ds == nil || ps == nil || ds.Site != ps.Site || ds.Ctx != ps.Ctx {
				return nil, false
			}
			return ds.A[len(ds.A)-1], true
		}
		x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if ok {
				a := x.val(st, s.Addr)
				if isResolutionsAddr(a) && rootTerm(a).Op != "alloc" {
					v, cur := x.val(st, s.Val), x.load(st, a)
					pos := p.instrPos(in)
					if v.Op == "append" && v.A[0] == cur {
						if l, isL := x.asList(st, v.A[1]); isL {
							for _, e := range l.A {
								e = strip(e)
								if _, ok := resolved(e); !ok {
									r.bad("key", key, pos, "the entry added to the references being resolved, %s, is not the document and path a reference was resolved to", e)
									continue
								}
								tested := false
								for f, v := range st.facts {
									if c, k, ok := membership(f); ok && !v && strip(k) == e && (c == cur || isResolutions(baseList(c))) {
										tested = true
									}
								}
								st.mon["ref"+itoa(e.id)] = map[bool]string{true: "tested", false: "added"}[tested]
								r.ok("key", key+" "+pos)
							}
						}
					}
				}
			}
			b.instr(st, fr, in)
		}
		hasTested := func(st *State) bool {
			for k, v := range st.mon {
				if strings.HasPrefix(k, "ref") && v == "tested" {
					return true
				}
			}
			return false
		}
		x.cfg.OnCall = func(ev *CallEvent) bool {
			g := ev.Callee
			if g == nil || !p.recursive(g) || !p.sameCycle(root, g) {
				return false
			}
			st := ev.St
			for _, a := range ev.Args {
				if !a.any(isResolve) && !a.any(func(t *Term) bool { return x.rewritten(t) }) {
					continue
				}
				if st.mon[monRefs] == "" || !hasTested(st) {
					r.bad("expanded", key+" -> "+shortFn(g), p.instrPos(ev.In), "what a reference leads to is handed on to %s without the reference having been found absent from the references being resolved and added to them (%s)", shortFn(g), trailOf(st))
				} else {
					r.ok("expanded", key+" -> "+shortFn(g))
				}
			}
			return false
		}
		// parsing in a scope: each source with a reference has it added
		if sp := sourcesParam(root); sp != nil {
			x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
				if fr.fn != root || !loopOver(l, sp) {
					return
				}
				at := p.instrPos(l.Header.Instrs[0])
				none, failed := false, false
				for f, v := range st.facts {
					if n, present, ok := x.fieldPresence(f, v); ok && n == "Ref" && !present {
						none = true
					}
					if f.Op == "bin" && f.Aux == "==" && !v {
						for i := range f.A {
							if q := f.A[i]; f.A[1-i].isNil() && q.Op == "call" && isErrT(q.T) {
								if g, ok := q.Aux.(*ssa.Function); ok && resolvesID(g) {
									failed = true
								}
							}
						}
					}
				}
				added := false
				for k := range st.mon {
					if strings.HasPrefix(k, "ref") {
						added = true
						delete(st.mon, k)
					}
				}
				if none || failed || added {
					r.ok("source", key+" "+trailOf(st))
				} else {
					r.bad("source", key, at, "a source schema with a reference is passed over without adding it to the references being resolved (%s)", trailOf(st))
				}
			}
		}
		x.Root(root, nil)
		r.exec(x, key)
	}
	r.need("expanded", 1)
	r.need("key", 2)
	r.need("source", 2)
}

func itoa(n int) string { return strings.TrimSpace(inc("", n)) }

func keysOf(m map[*ssa.Function]*ssa.Function) map[*ssa.Function]bool {
	o := map[*ssa.Function]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// resolvesNode: from a reference to the sub-schema it names.
func resolvesNode(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return recvName(f) == "documentResolver" && rs.Len() == 3 && typeName(rs.At(0).Type()) == "schemaNode" && isStrT(rs.At(1).Type()) && isErrT(rs.At(2).Type())
}

// resolvesID: from a reference to its document and path.
func resolvesID(f *ssa.Function) bool {
	s := f.Signature
	rs := s.Results()
	return recvName(f) == "documentResolver" && s.Params().Len() == 1 && rs.Len() == 3 && isStrT(rs.At(0).Type()) && isStrT(rs.At(1).Type()) && isErrT(rs.At(2).Type())
}

// rewritten: the result of rewriting the references of a schema.
func (x *Exec) rewritten(t *Term) bool {
	f, ok := t.Aux.(*ssa.Function)
	if !ok || t.Op != "call" && t.Op != "pcall" || recvName(f) != "documentResolver" {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() == 2 && typeName(rs.At(0).Type()) == "schemaNode" && isErrT(rs.At(1).Type())
}

func isErrT(t types.Type) bool { return t != nil && types.Identical(t, errT) }

// sourcesParam: the variadic list of schemas a function parses under.
func sourcesParam(f *ssa.Function) *ssa.Parameter {
	if !f.Signature.Variadic() || len(f.Params) == 0 || f.Signature.Results().Len() == 0 {
		return nil
	}
	if typeName(f.Signature.Results().At(0).Type()) == "schemaNode" {
		return nil
	}
	q := f.Params[len(f.Params)-1]
	if s, ok := q.Type().Underlying().(*types.Slice); ok && typeName(s.Elem()) == "schemaNode" {
		return q
	}
	return nil
}

// loopOver: the loop reads elements of v.
func loopOver(l *Loop, v ssa.Value) bool {
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == v {
				return true
			}
		}
	}
	return false
}

// queueOnce: documents are queued and parsed at most once.
func (r *R) queueOnce() {
	p := r.p
	rt := p.resolverType()
	if rt == nil {
		r.missing("the document resolver")
		return
	}
	rn := rt.Obj().Name()
	isStrs := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isStrT(s.Elem())
	}
	isFlags := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		b, ok := m.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Bool
	}
	isDocs := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeName(m.Elem()) == "schemaNode"
	}
	resField := func(t *Term, pred func(types.Type) bool) bool {
		o, _, _, ok := fieldRead(strip(t))
		return ok && o == rn && t.T != nil && pred(t.T)
	}
	rootish := func(f *ssa.Function) bool {
		return f != nil && f.Signature.Results().Len() == 2 && typeName(f.Signature.Results().At(0).Type()) == "RootGenerator" && f.Signature.Recv() == nil
	}
	touch := p.touching(func(in ssa.Instruction) bool {
		switch v := in.(type) {
		case *ssa.MapUpdate:
			return isFlags(v.Map.Type())
		case *ssa.Store:
			fa, ok := v.Addr.(*ssa.FieldAddr)
			return ok && typeName(deref(fa.X.Type())) == rn && isStrs(v.Val.Type())
		case ssa.CallInstruction:
			return rootish(v.Common().StaticCallee())
		}
		return false
	}, p.recursive)
	for _, root := range p.Funcs {
		if recvName(root) != rn || root.Parent() != nil || !touch[root] {
			continue
		}
		key := shortFn(root)
		outside := false
		for _, c := range p.callersOf(root) {
			if recvName(c.Parent()) != rn {
				outside = true
			}
		}
		if !outside {
			continue
		}
		x := newExec(p, Config{Pure: regexGroups, Inline: func(f *ssa.Function) bool {
			return !p.recursive(f) && !takesNode(f) || recvName(f) == rn && !p.recursive(f)
		}})
		x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
			pos := p.instrPos(in)
			switch v := in.(type) {
			case *ssa.MapUpdate:
				m := strip(x.val(st, v.Map))
				if !resField(m, isFlags) {
					return
				}
				k, b := strip(x.val(st, v.Key)), x.val(st, v.Value)
				if b.isConst() && b.cv().ExactString() == "true" {
					if c, ok := elemOf(k); ok && resField(baseList(c), isStrs) {
						st.mon["parsed"] = itoa(k.id)
					}
					return
				}
				// a document that is new
				for f, val := range st.facts {
					if f.Op == "lookupok" && !val && resField(f.A[0], isDocs) && strip(f.A[1]) == k {
						r.ok("mark", key)
						return
					}
					if f.Op == "bin" && f.Aux == "==" && val {
						for i := range f.A {
							if q := strip(f.A[i]); f.A[1-i].isNil() && q.Op == "lookup" && resField(q.A[0], isDocs) && strip(q.A[1]) == k {
								r.ok("mark", key)
								return
							}
						}
					}
				}
				r.bad("mark", key, pos, "a document is marked as not parsed although it might have been (%s)", trailOf(st))
			case *ssa.Store:
				a := x.val(st, v.Addr)
				if a.Op != "faddr" || ownerName(a) != rn || !isStrs(deref(a.T)) || rootTerm(a).Op == "alloc" {
					return
				}
				val, cur := x.val(st, v.Val), x.load(st, a)
				if val.Op == "slice" && val.A[0] == cur {
					if lo, ok := intConst(val.A[1]); ok && lo == 1 && val.A[2] == nil {
						st.mon["taken"] = "1"
					}
					return
				}
				if val.Op != "append" || val.A[0] != cur {
					return
				}
				l, ok := x.asList(st, val.A[1])
				if !ok {
					r.bad("queued once", key, pos, "an unknown number of documents is queued")
					return
				}
				for _, e := range l.A {
					e = strip(e)
					absent, parsed := false, false
					for f, b := range st.facts {
						if c, k, ok := membership(f); ok && !b && strip(k) == e {
							if resField(baseList(c), isStrs) {
								absent = true
							}
							if resField(c, isFlags) && f.Op == "lookupok" {
								parsed = true
							}
						}
						if f.Op == "lookup" && !b && resField(f.A[0], isFlags) && strip(f.A[1]) == e {
							parsed = true
						}
					}
					switch {
					case !absent:
						r.bad("queued once", key+":queued", pos, "%s is queued although it may be in the queue already (%s)", e, trailOf(st))
					case !parsed:
						r.bad("queued once", key+":parsed", pos, "%s is queued although it may have been parsed already (%s)", e, trailOf(st))
					default:
						r.ok("queued once", key)
					}
				}
			}
		}
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if !rootish(ev.Callee) {
				return false
			}
			st := ev.St
			pos := p.instrPos(ev.In)
			if st.mon["taken"] == "" {
				r.bad("parsed once", key+":taken", pos, "the document is parsed while it is still in the queue (%s)", trailOf(st))
				return false
			}
			// the document whose mark is set is the one that is parsed
			good := false
			for _, a := range ev.Args {
				if typeName(a.T) == "schemaNode" && a.any(func(t *Term) bool { return st.mon["parsed"] != "" && itoa(t.id) == st.mon["parsed"] }) {
					good = true
				}
			}
			if good {
				r.ok("parsed once", key)
			} else {
				r.bad("parsed once", key+":mark", pos, "a queued document is parsed before it is marked as parsed, so that its own references queue it again (%s)", trailOf(st))
			}
			return true
		}
		x.Root(root, nil)
		r.exec(x, key)
	}
	r.need("queued once", 1)
	r.need("parsed once", 1)
	r.need("mark", 1)
}

// visitedLoop: every round adds an entry that was not among those visited before.
func (p *Prog) visitedLoop(fn *ssa.Function, l *Loop) bool {
	// entries added to a list that is only appended to in the loop
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		good := true
		for i, pr := range l.Header.Preds {
			if !l.Blocks[pr] {
				continue
			}
			if !p.appendsNew(l, ph.Edges[i], ph, 0) {
				good = false
			}
		}
		if good {
			return true
		}
	}
	// or marks in a map
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !p.fixed(l, mu.Map) {
				continue
			}
			if p.testedAbsent(l, mu.Block(), mu.Map, mu.Key) && everyRound(l, func(q ssa.Instruction) bool { return q == ssa.Instruction(mu) }) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) appendsNew(l *Loop, v ssa.Value, ph *ssa.Phi, d int) bool {
	if d > 6 {
		return false
	}
	switch w := v.(type) {
	case *ssa.Phi:
		if w == ph {
			return false
		}
		for _, e := range w.Edges {
			if !p.appendsNew(l, e, ph, d+1) {
				return false
			}
		}
		return len(w.Edges) > 0
	case *ssa.Call:
		b, ok := w.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(w.Call.Args) != 2 || w.Call.Args[0] != ssa.Value(ph) {
			return false
		}
		for _, e := range singleElem(w.Call.Args[1]) {
			if p.testedAbsent(l, w.Block(), ph, e) {
				return true
			}
		}
	}
	return false
}

// singleElem: the values put into a literal list.
func singleElem(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, ref := range *al.Referrers() {
		if ia, ok := ref.(*ssa.IndexAddr); ok {
			for _, q := range *ia.Referrers() {
				if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

// testedAbsent: block b is only reached in the loop when elem was found not to be in coll.
func (p *Prog) testedAbsent(l *Loop, b *ssa.BasicBlock, coll, elem ssa.Value) bool {
	for t := range l.Blocks {
		iff, ok := t.Instrs[len(t.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond := iff.Cond
		neg := false
		if u, ok := cond.(*ssa.UnOp); ok {
			cond, neg = u.X, true
		}
		isMember := false
		switch c := cond.(type) {
		case *ssa.Call:
			if f := c.Call.StaticCallee(); f != nil {
				switch fullName(originOf(f)) {
				case "github.com/thoas/go-funk.Contains", "github.com/thoas/go-funk.ContainsString", "github.com/thoas/go-funk.InStrings", "slices.Contains":
					isMember = sameVal(c.Call.Args[0], coll) && sameVal(c.Call.Args[1], elem)
				}
			}
		case *ssa.Extract:
			if lk, ok := c.Tuple.(*ssa.Lookup); ok && c.Index == 1 {
				isMember = sameVal(lk.X, coll) && sameVal(lk.Index, elem)
			}
		case *ssa.Lookup:
			isMember = sameVal(c.X, coll) && sameVal(c.Index, elem)
		}
		if !isMember {
			continue
		}
		s := t.Succs[1]
		if neg {
			s = t.Succs[0]
		}
		if s.Dominates(b) && len(s.Preds) == 1 {
			return true
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	strp := func(v ssa.Value) ssa.Value {
		for {
			switch w := v.(type) {
			case *ssa.MakeInterface:
				v = w.X
			case *ssa.ChangeType:
				v = w.X
			case *ssa.ChangeInterface:
				v = w.X
			default:
				return v
			}
		}
	}
	return strp(a) == strp(b)
}

// depthLoop: every round raises the nesting depth, and goes on only when it does not exceed the
// maximum, while the sub-schemas that keep the loop going are unfolded one level.
func (p *Prog) depthLoop(fn *ssa.Function, l *Loop) bool {
	raise := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !usesField(fa, "parserMetadata", "ParseDepth") {
			return false
		}
		b, ok := s.Val.(*ssa.BinOp)
		return ok && b.Op.String() == "+"
	}
	clears := func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || !usesField(fa, "schemaNode", "AllOf") {
			return false
		}
		c, ok := s.Val.(*ssa.Const)
		return ok && c.Value == nil
	}
	tested := false
	for b := range l.Blocks {
		if b == l.Header {
			continue
		}
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if c, ok := iff.Cond.(*ssa.BinOp); ok && (mentionsField(c.X, "ParserOptions", "MaxParseDepth") || mentionsField(c.Y, "ParserOptions", "MaxParseDepth")) {
				tested = true
			}
		}
	}
	return tested && everyRound(l, raise) && everyRound(l, clears)
}

func mentionsField(v ssa.Value, owner, name string) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	in, ok := v.(ssa.Instruction)
	return ok && usesField(in, owner, name)
}

// queueLoop: runs while documents are queued, and every round takes one off (queueOnce bounds what
// is added).
func (p *Prog) queueLoop(fn *ssa.Function, l *Loop) bool {
	rt := p.resolverType()
	if rt == nil {
		return false
	}
	rn := rt.Obj().Name()
	takes := p.touching(func(in ssa.Instruction) bool { return false }, nil)
	for _, f := range p.Funcs {
		if recvName(f) != rn || len(f.Blocks) == 0 {
			continue
		}
		all := true
		found := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if isDequeue(in, rn) && b == f.Blocks[0] {
					found = true
				}
			}
		}
		if found && all {
			takes[f] = true
		}
	}
	return everyRound(l, func(in ssa.Instruction) bool {
		if isDequeue(in, rn) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && takes[c.Common().StaticCallee()]
	})
}

func isDequeue(in ssa.Instruction, rn string) bool {
	s, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok || typeName(deref(fa.X.Type())) != rn {
		return false
	}
	sl, ok := s.Val.(*ssa.Slice)
	if !ok || sl.High != nil {
		return false
	}
	c, ok := sl.Low.(*ssa.Const)
	if !ok || c.Int64() < 1 {
		return false
	}
	ld, ok := sl.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	return sameField(ld.X, fa)
}

// shorter: every round replaces a text by a strictly shorter prefix of it, cut at a place found in it.
func (p *Prog) shorter(fn *ssa.Function, l *Loop) bool {
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if !isStrT(ph.Type()) {
			continue
		}
		good := true
		for i, pr := range l.Header.Preds {
			if !l.Blocks[pr] {
				continue
			}
			sl, ok := ph.Edges[i].(*ssa.Slice)
			if !ok || sl.X != ssa.Value(ph) || sl.Low != nil || sl.High == nil {
				good = false
				break
			}
			c, ok := sl.High.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != ssa.Value(ph) {
				good = false
				break
			}
			switch fullName(c.Call.StaticCallee()) {
			case "strings.LastIndex", "strings.Index", "strings.LastIndexByte", "strings.IndexByte":
				// an index found in a text is smaller than its length (for non-empty texts searched for)
				if k, ok := c.Call.Args[1].(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() == `""` {
					good = false
				}
			default:
				good = false
			}
		}
		if good {
			return true
		}
	}
	return false
}
