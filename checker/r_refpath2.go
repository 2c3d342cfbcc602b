package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scopedParsers: functions that parse a schema under a location appended to the current one.
func (p *Prog) scopedParsers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.allBodies() {
		if f.Parent() != nil || recvName(f) != "referenceHandler" {
			continue
		}
		sig := f.Signature
		if sig.Results().Len() < 1 || typeName(sig.Results().At(0).Type()) != "Generator" {
			continue
		}
		out = append(out, f)
	}
	return out
}

type scopeCheck struct {
	r      *R
	p      *Prog
	x      *Exec
	target map[*ssa.Function]bool
	root   *ssa.Function
	climb  bool
	inline map[*ssa.Function]bool
}

func (r *R) scopes() {
	p := r.p
	target := map[*ssa.Function]bool{}
	for _, f := range p.scopedParsers() {
		target[f] = true
		r.fn(f)
	}
	if len(target) == 0 {
		r.missing("the function that parses a schema under a location")
		return
	}
	level := map[*ssa.Function]bool{}
	callers := func(f *ssa.Function, into map[*ssa.Function]bool) {
		for _, c := range p.callersOf(f) {
			if g := c.Parent(); g != nil && !target[g] && p.inRepo(g) {
				into[g] = true
			}
		}
	}
	for f := range target {
		callers(f, level)
	}
	inline := map[*ssa.Function]bool{}
	for d := 0; d < 3 && len(level) > 0; d++ {
		next, climbed := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
		for _, f := range sortedFns(level) {
			s := &scopeCheck{r: r, p: p, target: target, root: f, inline: inline}
			s.run()
			if !s.climb {
				continue
			}
			up := map[*ssa.Function]bool{}
			callers(f, up)
			for g := range up {
				next[g] = true
			}
			if d == 2 || len(up) == 0 {
				r.bad("location", shortFn(f)+":open", p.pos(f), "the location a schema is parsed under is not known to be the one it is written at")
			}
			climbed[f] = true
		}
		for f := range climbed {
			inline[f] = true
		}
		level = next
	}
	r.need("location", 12)
}

func (s *scopeCheck) run() {
	p := s.p
	reaches := p.touching(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return ok && c.Common().StaticCallee() != nil && s.target[c.Common().StaticCallee()]
	}, func(g *ssa.Function) bool { return s.target[g] })
	mergers := map[*ssa.Function]bool{}
	for _, f := range p.mergers() {
		mergers[f] = true
	}
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			if !p.inRepo(g) || g == s.root || s.target[g] || mergers[g] || isRecorder(g) {
				return false
			}
			if s.inline[g] {
				return true
			}
			if reaches[g] {
				return p.passesPart(g) && (!p.recursive(g) || p.takesPart(g))
			}
			return strings.HasPrefix(fnPkgPath(g), repoModule+"/internal/util") || p.passesPart(g)
		},
		Fact: func(t *Term) int {
			if t.any(func(q *Term) bool {
				o, _, _, ok := fieldRead(q)
				return ok && (o == "schemaNode" || o == "itemsData" || o == "schemaNodeOrFalse") && holdsSchemas(q.typ())
			}) {
				return 1
			}
			return -1
		},
	})
	s.x = x
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee == nil || !s.target[ev.Callee] {
			return false
		}
		s.call(ev)
		return true
	}
	x.Root(s.root, nil)
	s.r.exec(x, shortFn(s.root))
}

// takesPart: the function is handed parts of a schema rather than a schema.
func (p *Prog) takesPart(f *ssa.Function) bool {
	for _, q := range f.Params {
		if holdsSchemas(q.Type()) && !isNodeT(deref(q.Type())) {
			return true
		}
	}
	return false
}

// passesPart: a helper that is handed a schema, or a part of one.
func (p *Prog) passesPart(f *ssa.Function) bool {
	if f.Parent() != nil {
		return true
	}
	for _, q := range f.Params {
		if holdsSchemas(q.Type()) {
			return true
		}
	}
	return false
}

// written: where in a schema a term is read from: the word, and the name or index of the entry.
type written struct {
	word string
	key  *Term
	it   *Term // the iteration an entry comes from
	open bool  // it comes from outside of the function
}

func (s *scopeCheck) origin(st *State, t *Term, d int) []written {
	if t == nil || d > 12 {
		return nil
	}
	t = strip(t)
	var key, it *Term
	for t != nil {
		switch t.Op {
		case "alloc":
			v, ok := s.x.cell(st, t)
			if !ok || v == t {
				return nil
			}
			t = v
			continue
		case "load", "sload", "with", "havoc":
			t = t.A[0]
		case "lookup", "elem", "iaddr":
			if key == nil {
				key = strip(t.A[1])
			}
			t = t.A[0]
		case "next":
			it = t
			if len(t.A) == 0 {
				return nil
			}
			t = t.A[0]
		case "range", "slice":
			t = t.A[0]
		case "param", "free":
			if isNodeT(deref(t.T)) && key == nil && it == nil {
				if d > 0 {
					return nil // one of several schemas that are merged
				}
				return []written{{open: true}}
			}
			return []written{{open: true, key: key, it: it}}
		case "faddr", "field":
			sst, ok := deref(t.A[0].T).Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			owner := typeName(deref(t.A[0].T))
			if owner == "schemaNode" {
				return []written{{word: fieldTag(sst, t.N), key: key, it: it}}
			}
			if isNodePtr(sst.Field(t.N).Type()) && owner != "itemsData" && owner != "schemaNodeOrFalse" {
				return []written{{word: strings.ToLower(sst.Field(t.N).Name()), key: key, it: it}}
			}
			t = t.A[0]
		case "call":
			if f, ok := t.Aux.(*ssa.Function); ok && len(t.A) > 0 && f.Signature.Variadic() {
				last := t.A[len(t.A)-1]
				base, pieces := unwind(last)
				var out []written
				for _, q := range append([]*Term{base}, pieces...) {
					if q.Op == "list" {
						for _, e := range q.A {
							out = append(out, s.origin(st, e, d+1)...)
						}
						continue
					}
					out = append(out, s.origin(st, q, d+1)...)
				}
				return out
			}
			return nil
		default:
			return nil
		}
		t = strip(t)
	}
	return nil
}

func (s *scopeCheck) call(ev *CallEvent) {
	x, st, r := s.x, ev.St, s.r
	at := s.p.instrPos(ev.In.(ssa.Instruction))
	var scope, node *Term
	for i, q := range ev.Callee.Params {
		if i >= len(ev.Args) {
			break
		}
		if isStrT(q.Type()) && scope == nil {
			scope = ev.Args[i]
		}
		if isNodeT(deref(q.Type())) && node == nil {
			node = ev.Args[i]
		}
	}
	if scope == nil || node == nil {
		r.bad("location", at, at, "a schema is parsed without a location")
		return
	}
	prefix := ""
	var keys []*Term
	for _, q := range x.catParts(scope) {
		if c, ok := strConst(q); ok && len(keys) == 0 {
			prefix += c
			continue
		} else if ok && c == "" {
			continue
		}
		keys = append(keys, strip(q))
	}
	ws := s.origin(st, node, 0)
	for _, w := range ws {
		if w.open {
			s.climb = true
			return
		}
	}
	if prefix == "" && len(keys) > 0 && keys[0].Op == "param" {
		s.climb = true
		return
	}
	ps := strings.Split(strings.TrimPrefix(prefix, "/"), "/")
	word := ps[0]
	if word == "allOf" {
		r.ok("location", "allOf")
		return
	}
	if !strings.HasPrefix(prefix, "/") {
		r.bad("location", at+":slash", at, "the location %s that is appended does not start a new step", scope)
		return
	}
	if len(ws) == 0 {
		for _, k := range keys {
			if k.Op == "next" && k.any(func(q *Term) bool { return q.Op == "makemap" }) {
				return // the entries of an empty map
			}
		}
		r.bad("location", word, at, "the schema parsed under %q is not known to be the one written there: it is %s (%s)", prefix, node, trailOf(st))
		return
	}
	why := ""
	for _, w := range ws {
		switch {
		case w.word != word:
			why = "it is read from \"" + w.word + "\""
		case w.key == nil && w.it == nil:
			if len(keys) > 0 || len(ps) > 1 {
				why = "the location names an entry although there is only one schema"
				continue
			}
			r.ok("location", word)
			return
		case len(ps) != 2 || ps[1] != "" || len(keys) != 1:
			why = "the location does not name the entry that is parsed"
		case w.it != nil && keys[0].Op == "next" && len(keys[0].A) > 0 && keys[0].A[0] == w.it.A[0] && keys[0].Aux == "key" && w.it.Aux == "val":
			r.ok("location", word+"/name")
			return
		case w.key != nil && (keys[0] == w.key || len(keys[0].A) == 1 && callTo(keys[0], "itoa%d", "fmt%v", "strconv.Itoa") && strip(keys[0].A[0]) == w.key):
			r.ok("location", word+"/entry")
			return
		default:
			why = "the entry parsed is not the one the location names"
		}
	}
	r.bad("location", word+":"+why, at, "a schema is parsed under %s: %s (%s)", scope, why, trailOf(st))
}

// registers: parsing a schema makes it known under its location.
func (r *R) registers() {
	p := r.p
	isRef := func(t types.Type) bool {
		sst, ok := deref(t).Underlying().(*types.Struct)
		if !ok || typeName(t) == "" {
			return false
		}
		n, g := false, false
		for i := 0; i < sst.NumFields(); i++ {
			n = n || isNodeT(sst.Field(i).Type())
			g = g || typeName(sst.Field(i).Type()) == "Generator"
		}
		return n && g && sst.NumFields() <= 6
	}
	stores := func(in ssa.Instruction) bool {
		mu, ok := in.(*ssa.MapUpdate)
		return ok && isRef(mu.Value.Type())
	}
	var writers []*ssa.Function
	for _, f := range p.allBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if stores(in) {
					writers = append(writers, f)
				}
			}
		}
	}
	if len(writers) == 0 {
		r.missing("the place where parsed schemas are registered")
		return
	}
	// the functions that parse a schema and register it
	roots := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function)
	up = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Signature.Results().Len() > 0 && typeName(f.Signature.Results().At(0).Type()) == "Generator" {
			roots[f] = true
			return
		}
		for _, c := range p.callersOf(f) {
			up(c.Parent())
		}
	}
	for _, f := range writers {
		up(f)
	}
	if len(roots) == 0 {
		r.missing("the function that parses a schema and registers it")
	}
	for _, f := range sortedFns(roots) {
		r.registered(f, isRef)
	}
	r.lookups(isRef)
	r.need("registered", 2)
}

func (r *R) registered(f *ssa.Function, isRef func(types.Type) bool) {
	p := r.p
	node := -1
	for i, q := range f.Params {
		if isNodeT(deref(q.Type())) && node < 0 {
			node = i
		}
	}
	if node < 0 {
		r.bad("registered", shortFn(f), p.pos(f), "what is registered is not the schema that is parsed")
		return
	}
	isGenCall := func(t *Term) bool {
		if t.Op != "call" || t.N != 0 {
			return false
		}
		g, ok := t.Aux.(*ssa.Function)
		return ok && p.recursive(g) && g.Signature.Results().Len() == 2 && typeName(g.Signature.Results().At(0).Type()) == "Generator"
	}
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			return p.inRepo(g) && !p.recursive(g) && g != f && (recvName(g) == "referenceHandler" || recvName(g) == "documentResolver" || g.Parent() != nil || p.passesPart(g))
		},
		Fact: func(t *Term) int {
			if t.any(func(q *Term) bool { return isGenCall(q) || q.Op == "param" }) {
				return 1
			}
			return 0
		},
	})
	isCur := func(t *Term) bool {
		o, n, _, ok := fieldRead(strip(t))
		return ok && o == "referenceHandler" && n == "CurrentPath"
	}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee != nil && p.recursive(ev.Callee) && ev.Callee.Signature.Results().Len() == 2 && typeName(ev.Callee.Signature.Results().At(0).Type()) == "Generator" {
			ev.St.mon["parsed"] = "1"
		}
		return false
	}
	x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isRef(mu.Value.Type()) {
			return
		}
		at := p.instrPos(in)
		k, v, m := x.val(st, mu.Key), x.val(st, mu.Value), x.val(st, mu.Map)
		sst := deref(mu.Value.Type()).Underlying().(*types.Struct)
		if v.Op == "alloc" {
			v = x.load(st, v)
		}
		for i := 0; i < sst.NumFields(); i++ {
			fv := x.field(v, sst, i)
			switch {
			case isNodeT(sst.Field(i).Type()):
				if !(isParam(fv, node)) && !(fv.Op == "load" && isParam(fv.A[0], node)) {
					r.bad("registered", "schema", at, "the schema that is registered is %s and not the one that is parsed", fv)
				} else {
					r.ok("registered", "schema")
				}
			case typeName(sst.Field(i).Type()) == "Generator":
				g := strip(fv)
				null := g.Op == "zero" || g.T != nil && typeName(g.T) == "nullGenerator"
				if !g.any(isGenCall) && !null {
					r.bad("registered", "generator", at, "the generator that is registered is %s and not the one made from the schema (%s)", fv, trailOf(st))
				} else if null && !nilGen(x, st, isGenCall) {
					r.bad("registered", "generator", at, "a null generator is registered although one was made from the schema (%s)", trailOf(st))
				} else {
					r.ok("registered", "generator")
				}
			}
		}
		switch {
		case isCur(k):
			st.mon["reg"] = "1"
			r.ok("registered", "location")
		case func() bool {
			_, n, _, ok := fieldRead(strip(k))
			return ok && n == "Id" || k.any(func(q *Term) bool { _, n, _, ok := fieldRead(q); return ok && n == "Id" })
		}():
			r.ok("registered", "id")
		default:
			r.bad("registered", "location", at, "a schema is registered under %s and not under the current location", k)
		}
		_ = m
	}
	outs := x.Root(f, nil)
	r.exec(x, shortFn(f))
	for _, o := range outs {
		if o.kind != "return" || o.st.mon["parsed"] == "" {
			continue
		}
		if o.st.mon["reg"] == "" {
			r.bad("registered", "always", p.instrPos(o.at), "a schema that was parsed is not registered under its location (%s)", trailOf(o.st))
		} else {
			r.ok("registered", "always "+p.instrPos(o.at))
		}
	}
}

// nilGen: the path knows that nothing was made from the schema.
func nilGen(x *Exec, st *State, is func(*Term) bool) bool {
	for a, v := range st.facts {
		if l, e, ok := eqOperands(a); ok {
			if e.isNil() && is(l) && v {
				return true
			}
			// the parser failed
			if e.isNil() && l.Op == "call" && l.N == 1 && !v {
				return true
			}
		}
	}
	return false
}

// lookups: a reference asks for its own document and location.
func (r *R) lookups(isRef func(types.Type) bool) {
	p := r.p
	outer := map[string]bool{}
	inner := map[string]bool{}
	owner := ""
	for _, f := range p.allBodies() {
		if f.Name() != "Generate" || f.Parent() != nil || f.Signature.Recv() == nil {
			continue
		}
		uses := p.touching(func(in ssa.Instruction) bool {
			l, ok := in.(*ssa.Lookup)
			if !ok {
				return false
			}
			m, ok := l.X.Type().Underlying().(*types.Map)
			return ok && isRef(m.Elem())
		}, nil)
		if !uses[f] {
			continue
		}
		recv := recvName(f)
		x := newExec(p, Config{Inline: func(g *ssa.Function) bool {
			return p.inRepo(g) && !p.recursive(g) && (uses[g] || g.Parent() != nil)
		}})
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Method == nil || ev.Method.Name() != "Generate" || ev.Recv == nil {
				return false
			}
			at := p.instrPos(ev.In.(ssa.Instruction))
			var l *Term
			ev.Recv.any(func(q *Term) bool {
				if q.Op == "lookup" && isRef(q.T) {
					l = q
				}
				return l != nil
			})
			if l == nil {
				return false
			}
			o := strip(l.A[0])
			if o.Op != "lookup" {
				r.bad("looked up", recv, at, "schemas are looked up without their document")
				return false
			}
			o1, n1, _, ok1 := fieldRead(strip(o.A[1]))
			o2, n2, _, ok2 := fieldRead(strip(l.A[1]))
			if !ok1 || !ok2 || o1 != recv || o2 != recv || n1 == n2 {
				r.bad("looked up", recv, at, "the schema looked up is that of document %s and location %s instead of the ones referred to", o.A[1], l.A[1])
				return false
			}
			outer[n1], inner[n2], owner = true, true, recv
			r.ok("looked up", recv)
			return false
		}
		x.Root(f, nil)
		r.exec(x, shortFn(f))
	}
	if owner == "" {
		r.missing("the generator that looks up what a reference leads to")
		return
	}
	// where such generators are made: the results of resolving the reference, in order
	for _, f := range p.allBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || typeName(deref(fa.X.Type())) != owner {
					continue
				}
				n := deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				want := -1
				if outer[n] {
					want = 0
				} else if inner[n] {
					want = 1
				} else {
					continue
				}
				ex, ok := s.Val.(*ssa.Extract)
				at := p.instrPos(in)
				if !ok || ex.Index != want {
					r.bad("looked up", n, at, "%s of a reference is not what resolving it gave", n)
				} else {
					r.ok("looked up", n)
				}
			}
		}
	}
}
