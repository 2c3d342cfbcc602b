package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", "In every entry method of the document resolver (helpers inlined) each call of a fetcher's fetchDocument is made on the fetcher found in the table under the scheme of the very identifier that is fetched, and that identifier is a result of resolveDocumentId whose error was tested, an entry of the queue, or the document of an alias; only such identifiers are queued; a fetched document is stored under the identifier it was fetched for; a resolved path names the document it was looked up in.",
		"equality of identifiers that differ only in spelling; what servers answer.", runC04)
}

// regexGroups: functions from a regular expression and a text to named groups are treated as values.
func regexGroups(f *ssa.Function) bool {
	s := f.Signature
	if s.Recv() != nil || s.Params().Len() != 2 || s.Results().Len() != 1 {
		return false
	}
	if typeName(s.Params().At(0).Type()) != "Regexp" {
		return false
	}
	_, ok := s.Results().At(0).Type().Underlying().(*types.Map)
	return ok
}

// resolverType: the struct that owns the table of fetchers.
func (p *Prog) resolverType() *types.Named {
	it := p.fetcherIface()
	if it == nil {
		return nil
	}
	sc := p.Repo[""].Pkg.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		n, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if isFetcherTable(st.Field(i).Type(), it) {
				return n
			}
		}
	}
	return nil
}

func isFetcherTable(t types.Type, it *types.Interface) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	i, ok := deref(m.Elem()).Underlying().(*types.Interface)
	return ok && types.Identical(i, it)
}

func runC04(r *R) {
	p := r.p
	rt := p.resolverType()
	it := p.fetcherIface()
	if rt == nil {
		r.missing("the document resolver with its table of fetchers")
		return
	}
	rn := rt.Obj().Name()
	isRes := func(f *ssa.Function) bool { return f != nil && recvName(f) == rn }
	// which methods are entered from outside
	var roots []*ssa.Function
	for _, f := range p.Funcs {
		if !isRes(f) || f.Parent() != nil {
			continue
		}
		outside := false
		for _, c := range p.callersOf(f) {
			g := c.Parent()
			for g.Parent() != nil {
				g = g.Parent()
			}
			if !isRes(g) {
				outside = true
			}
		}
		if outside {
			roots = append(roots, f)
		}
	}
	// the queue: []string fields of the resolver; documents: map[string]*schemaNode
	resField := func(t *Term, pred func(types.Type) bool) bool {
		o, _, _, ok := fieldRead(strip(t))
		return ok && o == rn && t.T != nil && pred(t.T)
	}
	isStrs := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && isStrT(s.Elem())
	}
	isDocs := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && typeName(m.Elem()) == "schemaNode"
	}
	isTable := func(t types.Type) bool { return isFetcherTable(t, it) }
	for _, root := range roots {
		x := newExec(p, Config{Pure: regexGroups, Inline: func(f *ssa.Function) bool { return !p.recursive(f) && !takesNode(f) || isRes(f) && !p.recursive(f) }})
		var approved func(st *State, t *Term) bool
		approved = func(st *State, t *Term) bool {
			t = strip(t)
			if callTo(t, "invoke.resolveDocumentId") && t.N == 0 {
				return x.succeeded(st, t, 1)
			}
			if o, n, _, ok := fieldRead(t); ok && o == "idAlias" && n == "documentId" {
				return true
			}
			if c, ok := elemOf(t); ok && resField(c, isStrs) {
				return true
			}
			if t.Op == "lookup" && isStr(t.A[1], "document") {
				if m := strip(t.A[0]); m.Op == "pcall" {
					return approved(st, m.A[len(m.A)-1])
				}
			}
			return false
		}
		noFetchers := func(st *State) bool {
			for f := range st.facts {
				if f.Op != "bin" {
					continue
				}
				for _, a := range f.A {
					if a.Op == "len" && resField(a.A[0], isTable) {
						if _, hi := x.interval(st, a); hi != nil && hi.ExactString() == "0" {
							return true
						}
					}
				}
			}
			return false
		}
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Method == nil || ev.Method.Name() != "fetchDocument" {
				return false
			}
			key := shortFn(ev.Fr.fn) + " from " + root.Name()
			pos := p.instrPos(ev.In)
			id := strip(ev.Args[1])
			good := true
			if !approved(ev.St, id) {
				good = false
				r.bad("fetch", key+":id", pos, "fetchDocument is called for %s, which no fetcher's resolveDocumentId approved on this path (%s)", id, trailOf(ev.St))
			}
			// receiver: table entry under the scheme of id
			rv := strip(ev.Recv)
			if rv.Op == "load" {
				rv = strip(rv.A[0])
			}
			if rv.Op != "lookup" || !resField(rv.A[0], isTable) {
				good = false
				r.bad("fetch", key+":fetcher", pos, "fetchDocument is called on %s, which is not an entry of the table of fetchers", rv)
			} else if !x.schemeOf(ev.St, rv.A[1], id, rn) {
				good = false
				r.bad("fetch", key+":scheme", pos, "the fetcher used for %s was chosen by %s", id, rv.A[1])
			}
			if good {
				r.ok("fetch", key+" "+pos)
			}
			return false
		}
		x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.MapUpdate:
				m := x.val(st, v.Map)
				if !isDocs(v.Map.Type()) {
					return
				}
				key := shortFn(fr.fn) + " from " + root.Name()
				k, val := strip(x.val(st, v.Key)), strip(x.val(st, v.Value))
				if callTo(val, "invoke.fetchDocument") && val.N == 0 && len(val.A) == 2 && strip(val.A[1]) == k {
					r.ok("document stored", key)
					return
				}
				_ = m
				r.bad("document stored", key, p.instrPos(in), "%s is stored as the document %s, under which it was not fetched (%s)", val, k, trailOf(st))
			case *ssa.Store:
				a := x.val(st, v.Addr)
				if a.Op != "faddr" || ownerName(a) != rn {
					return
				}
				if !isStrs(deref(a.T)) {
					return
				}
				val := x.val(st, v.Val)
				base, pieces := unwind(val)
				key := shortFn(fr.fn) + " from " + root.Name()
				if strip(base).Op == "slice" {
					base = base.A[0]
				}
				if !resField(base, isStrs) && !(base.isNil() || base.Op == "list" && len(base.A) == 0) {
					r.bad("queue", key, p.instrPos(in), "the queue of documents is set to %s", val)
					return
				}
				for _, pc := range pieces {
					if pc.Op != "list" {
						r.bad("queue", key, p.instrPos(in), "%s is queued", pc)
						continue
					}
					for _, e := range pc.A {
						if approved(st, e) || noFetchers(st) {
							r.ok("queue", key)
						} else {
							r.bad("queue", key, p.instrPos(in), "%s is queued, which no fetcher's resolveDocumentId approved on this path (%s)", e, trailOf(st))
						}
					}
				}
			}
		}
		outs := x.Root(root, nil)
		r.exec(x, shortFn(root))
		// a resolved node and the full reference it is reported under belong together
		res := root.Signature.Results()
		if res.Len() == 3 && typeName(res.At(0).Type()) == "schemaNode" && isStrT(res.At(1).Type()) {
			for _, o := range outs {
				if !x.canSucceed(o) || o.rets[0].isNil() {
					continue
				}
				key := shortFn(root)
				pos := p.instrPos(o.at)
				var ids []*Term
				o.rets[0].any(func(t *Term) bool {
					if t.Op == "lookup" && resField(t.A[0], isDocs) {
						ids = append(ids, strip(t.A[1]))
					}
					if callTo(t, "invoke.fetchDocument") && t.N == 0 {
						ids = append(ids, strip(t.A[1]))
					}
					return false
				})
				first := strip(x.catParts(o.rets[1])[0])
				good := len(ids) > 0
				for _, id := range ids {
					if id == first {
						continue
					}
					if id.Op == "lookup" && isStr(id.A[1], "document") && strip(id.A[0]).Op == "pcall" && strip(strip(id.A[0]).A[len(strip(id.A[0]).A)-1]) == first {
						continue
					}
					good = false
				}
				if good {
					r.ok("served document", key+" "+trailOf(o.st))
				} else {
					r.bad("served document", key, pos, "the node comes from the document %v but is reported as %s (%s)", ids, o.rets[1], trailOf(o.st))
				}
			}
		}
	}
	// aliases only name documents by identifiers documents are stored under
	var keyLeaves = map[ssa.Value]bool{}
	type aliasStore struct {
		fn *ssa.Function
		s  *ssa.Store
	}
	var al []aliasStore
	for _, fn := range p.allBodies() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MapUpdate:
					if isDocs(v.Map.Type()) {
						for _, o := range p.origins(v.Key, nil) {
							keyLeaves[o] = true
						}
					}
				case *ssa.Store:
					if fa, ok := v.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "idAlias" && isStrT(v.Val.Type()) && structOf(fa.X.Type()).Field(fa.Field).Name() == "documentId" {
						al = append(al, aliasStore{fn, v})
					}
				}
			}
		}
	}
	for _, a := range al {
		key := shortFn(a.fn)
		okAll := true
		for _, o := range p.origins(a.s.Val, nil) {
			if !keyLeaves[o] {
				okAll = false
				r.bad("alias", key, p.instrPos(a.s), "an alias names its document by %s (%s), which is not an identifier documents are stored under", o.Name(), o.String())
			}
		}
		if okAll {
			r.ok("alias", key)
		}
	}
	r.need("fetch", 2)
	r.need("document stored", 2)
	r.need("queue", 1)
	r.need("served document", 2)
	r.need("alias", 1)
}

// schemeOf: k is the scheme of identifier id, or of the document being parsed where id has none.
func (x *Exec) schemeOf(st *State, k, id *Term, rn string) bool {
	b, ok := isURLField(strip(k), "Scheme")
	if ok && callTo(b, "net/url.URL.Parse") && len(b.A) == 2 {
		// resolved against another URL: absolute identifiers keep their own scheme
		b = x.T.mk("pcall", "net/url.Parse", 0, b.T, nil, nil, b.A[1])
	}
	if !ok || !callTo(b, "net/url.Parse") {
		return false
	}
	if strip(b.A[0]) == id {
		return true
	}
	// relative identifiers: the scheme of the document at hand, only when id has no scheme
	o, _, _, isF := fieldRead(strip(b.A[0]))
	if id.Op == "lookup" && strip(id.A[0]).Op == "pcall" {
		m := strip(id.A[0])
		if strip(m.A[len(m.A)-1]) == strip(b.A[0]) {
			isF, o = true, rn
		}
	}
	if isF && o == rn {
		for f, v := range st.facts {
			if f.Op == "bin" && f.Aux == "==" && v && f.A[0].Op == "len" {
				if bb, isS := isURLField(f.A[0].A[0], "Scheme"); isS && callTo(bb, "net/url.Parse") && strip(bb.A[0]) == id {
					return true
				}
			}
		}
	}
	return false
}
