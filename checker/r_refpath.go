package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C12", "The function that walks a reference path is interpreted on all paths of one step: where it goes on with a sub-schema, the word it compared the step with must be the JSON name of the field the sub-schema is read from, names and indexes must be taken from the next step and be known to exist, and what is passed on must be the rest of the path; it may only return a schema without an error when the path is used up and the schema exists. Every field that holds sub-schemas must be reachable. Wherever a sub-schema is parsed under a location, the location appended must be built from the JSON name of the field it is read from and from the name or index of the entry parsed; parsing a schema must register it, with the generator made from it, under the current location and its document, and looking a location up must use the document and location asked for.",
		"escapes in reference paths and keywords merged away by allOf are excluded from the property.", runC12)
}

type refWalk struct {
	r    *R
	p    *Prog
	x    *Exec
	self *ssa.Function
	st   *types.Struct
	node int // index of the parameters
	path int
	seen map[string]bool
}

// pathWalkers: functions that follow a path from one schema to another.
func (p *Prog) pathWalkers() (rec, entry []*ssa.Function) {
	for _, f := range p.allBodies() {
		if f.Parent() != nil {
			continue
		}
		sig := f.Signature
		if sig.Recv() != nil || sig.Results().Len() != 2 || !isNodePtr(sig.Results().At(0).Type()) || !isErrT(sig.Results().At(1).Type()) {
			continue
		}
		node, str := false, false
		for _, q := range f.Params {
			node = node || isNodePtr(q.Type())
			str = str || isStrT(q.Type())
		}
		if !node || !str {
			continue
		}
		if p.recursive(f) {
			rec = append(rec, f)
		} else {
			entry = append(entry, f)
		}
	}
	return
}

func runC12(r *R) {
	p := r.p
	rec, entry := p.pathWalkers()
	if len(rec) == 0 {
		r.missing("the function that follows the steps of a reference path")
	}
	for _, f := range rec {
		w := &refWalk{r: r, p: p, self: f, seen: map[string]bool{}}
		w.run()
	}
	for _, f := range entry {
		w := &refWalk{r: r, p: p, self: f, seen: map[string]bool{}}
		w.entry(rec)
	}
	r.scopes()
	r.registers()
}

func (w *refWalk) params(f *ssa.Function) {
	w.node, w.path = -1, -1
	for i, q := range f.Params {
		if isNodePtr(q.Type()) && w.node < 0 {
			w.node = i
			w.st = deref(q.Type()).Underlying().(*types.Struct)
		}
		if isStrT(q.Type()) && w.path < 0 {
			w.path = i
		}
	}
}

func isParam(t *Term, i int) bool {
	t = strip(t)
	return t != nil && t.Op == "param" && t.N == i
}

// split: the path holds whether a string has another separator.
func (w *refWalk) unsplit(st *State, t *Term) bool {
	for a, v := range st.facts {
		if !v && callTo(a, "strings.Contains") && strip(a.A[0]) == t && isStr(a.A[1], "/") {
			return true
		}
		if !v && callTo(a, "strings.Cut") && a.N == 2 && strip(a.A[0]) == t {
			return true
		}
		if l, e, ok := eqOperands(a); ok && !v && (isStr(e, "") || isStr(l, "")) {
			continue
		}
		if a.Op == "bin" && a.Aux == "<" && isIndexOf(a.A[0], t) && isZeroC(a.A[1]) && v {
			return true
		}
		if a.Op == "bin" && a.Aux == ">=" && isIndexOf(a.A[0], t) && isZeroC(a.A[1]) && !v {
			return true
		}
		if l, e, ok := eqOperands(a); ok && v {
			if c, isC := intConst(e); isC && c == -1 && isIndexOf(l, t) {
				return true
			}
			if c, isC := intConst(e); isC && c == 1 && l.Op == "len" && w.piecesOf(l.A[0]) == t {
				return true
			}
		}
		if a.Op == "bin" && a.A[0].Op == "len" && w.piecesOf(a.A[0].A[0]) == t {
			c, isC := intConst(a.A[1])
			op := a.Aux.(string)
			if isC && (v && (op == "<" && c == 2 || op == "<=" && c == 1) || !v && (op == ">=" && c == 2 || op == ">" && c == 1)) {
				return true
			}
		}
		if l, e, ok := eqOperands(a); ok && !v && l.Op == "len" && w.piecesOf(l.A[0]) == t {
			if c, isC := intConst(e); isC && c == 2 {
				return true
			}
		}
	}
	return false
}

func isIndexOf(i, s *Term) bool {
	return callTo(i, "strings.Index", "strings.IndexByte", "strings.IndexRune") && strip(i.A[0]) == s && (isStr(i.A[1], "/") || func() bool {
		c, ok := intConst(i.A[1])
		return ok && c == '/'
	}())
}

// piecesOf: the string that a list of at most two pieces was cut from.
func (w *refWalk) piecesOf(c *Term) *Term {
	c = strip(c)
	if callTo(c, "strings.SplitN") && isStr(c.A[1], "/") {
		if k, ok := intConst(c.A[2]); ok && k == 2 {
			return strip(c.A[0])
		}
	}
	if callTo(c, "regexp.Regexp.Split") {
		if k, ok := intConst(c.A[2]); ok && k == 2 {
			return strip(c.A[1])
		}
	}
	return nil
}

// cutOf: t is the first (0) or second (1) piece of s, cut once at a slash.
func (w *refWalk) cutOf(t *Term) (s *Term, n int, ok bool) {
	t = strip(t)
	if t == nil {
		return nil, 0, false
	}
	if callTo(t, "strings.Cut") && t.N < 2 && isStr(t.A[1], "/") {
		return strip(t.A[0]), t.N, true
	}
	if t.Op == "slice" {
		b := strip(t.A[0])
		lo, hi := t.A[1], t.A[2]
		if (lo == nil || isZeroC(lo)) && hi != nil && isIndexOf(hi, b) {
			return b, 0, true
		}
		if hi == nil && lo != nil && lo.Op == "bin" && lo.Aux == "+" && isIndexOf(lo.A[0], b) {
			if c, ok := intConst(lo.A[1]); ok && c == 1 {
				return b, 1, true
			}
		}
		return nil, 0, false
	}
	c, isE := elemOf(t)
	if !isE {
		return nil, 0, false
	}
	var idx *Term
	switch {
	case t.Op == "elem":
		idx = t.A[1]
	case len(t.A) > 0 && t.A[0].Op == "iaddr":
		idx = t.A[0].A[1]
	default:
		return nil, 0, false
	}
	i, isC := intConst(idx)
	if !isC || i > 1 {
		return nil, 0, false
	}
	c = strip(c)
	if s := w.piecesOf(c); s != nil {
		return s, int(i), true
	}
	return nil, 0, false
}

// rest: t is what is left of the path after k steps.
func (w *refWalk) rest(st *State, t *Term) (int, bool) {
	t = strip(t)
	if isParam(t, w.path) {
		return 0, true
	}
	if s, n, ok := w.cutOf(t); ok && n == 1 {
		if k, ok := w.rest(st, s); ok {
			return k + 1, true
		}
	}
	return 0, false
}

// usedUp: t is empty because everything before it was the last step; k is the number of steps before it.
func (w *refWalk) isRest(st *State, t *Term, k int) bool {
	if n, ok := w.rest(st, t); ok {
		return n == k
	}
	if isStr(t, "") {
		// some earlier rest is known to have no separator
		for a := range st.facts {
			hit := false
			a.any(func(q *Term) bool {
				if n, ok := w.rest(st, q); ok && n == k-1 && w.unsplit(st, q) {
					hit = true
				}
				return hit
			})
			if hit {
				return true
			}
		}
		// after an empty rest there is nothing more
		return k > 1 && w.isRest(st, t, k-1)
	}
	return false
}

// isTok: t is step k of the path.
func (w *refWalk) isTok(st *State, t *Term, k int) bool {
	t = strip(t)
	if s, n, ok := w.cutOf(t); ok && n == 0 {
		return w.isRest(st, s, k)
	}
	if n, ok := w.rest(st, t); ok {
		return n == k && w.unsplit(st, t)
	}
	return isStr(t, "") && k > 0 && w.isRest(st, t, k)
}

// word: what the first step is known to be.
func (w *refWalk) word(st *State) (string, bool) {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || !v {
			continue
		}
		if s, isC := strConst(e); isC && s != "" && w.isTok(st, l, 0) {
			return s, true
		}
		if s, isC := strConst(l); isC && s != "" && w.isTok(st, e, 0) {
			return s, true
		}
	}
	return "", false
}

// holder: the field of the schema (parameter) a sub-schema is read from, and how.
// via lists the fields passed below it; key is the name or index used, nil if none.
func (w *refWalk) holder(t *Term) (field int, via []int, key *Term, ok bool) {
	t = strip(t)
	for t != nil {
		switch t.Op {
		case "param":
			if t.N == w.node && isNodePtr(t.T) {
				return -1, via, key, true
			}
			return 0, nil, nil, false
		case "load", "sload":
			t = t.A[0]
		case "faddr":
			if typeName(deref(t.A[0].T)) == "schemaNode" {
				b := strip(t.A[0])
				if b.Op == "param" && b.N == w.node {
					return t.N, via, key, true
				}
				return 0, nil, nil, false
			}
			via = append(via, t.N)
			t = t.A[0]
		case "field":
			if typeName(t.A[0].T) == "schemaNode" {
				b := strip(t.A[0])
				for b.Op == "load" || b.Op == "sload" {
					b = strip(b.A[0])
				}
				if b.Op == "param" && b.N == w.node {
					return t.N, via, key, true
				}
				return 0, nil, nil, false
			}
			via = append(via, t.N)
			t = t.A[0]
		case "lookup", "elem", "iaddr":
			if key != nil {
				return 0, nil, nil, false
			}
			key = strip(t.A[1])
			t = t.A[0]
		default:
			return 0, nil, nil, false
		}
		t = strip(t)
	}
	return 0, nil, nil, false
}

func (w *refWalk) run() {
	p, r, f := w.p, w.r, w.self
	w.params(f)
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool { return g != f && p.inRepo(g) },
		Fact:   func(t *Term) int { return 1 },
	})
	w.x = x
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee == f {
			w.step(ev)
			return true
		}
		return false
	}
	outs := x.Root(f, nil)
	r.exec(x, shortFn(f))
	for _, o := range outs {
		if o.kind == "return" {
			w.ret(o, func(t *Term) bool { return t.Op == "call" && t.Aux == originOf(f) })
		}
	}
	for i := 0; i < w.st.NumFields(); i++ {
		k := fieldTag(w.st, i)
		if k == "" || !holdsSchemas(w.st.Field(i).Type()) || k == "dependentSchemas" {
			continue
		}
		for _, form := range schemaForms(w.st.Field(i).Type()) {
			if w.seen[k+form] {
				r.ok("reachable", k+form)
			} else {
				r.bad("reachable", k+form, p.pos(f), "a reference path cannot lead into %q%s: no step goes on with what that field holds", k, form)
			}
		}
	}
	r.need("step", 20)
}

// holdsSchemas: values of the type contain sub-schemas.
func holdsSchemas(t types.Type) bool { return len(schemaForms(t)) > 0 }

func schemaForms(t types.Type) []string {
	t = deref(t)
	switch u := t.Underlying().(type) {
	case *types.Map:
		if isNodeT(u.Elem()) {
			return []string{"/name"}
		}
	case *types.Slice:
		if isNodeT(u.Elem()) {
			return []string{"/index"}
		}
	case *types.Struct:
		if isNodeT(t) {
			return []string{""}
		}
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			if isNodePtr(u.Field(i).Type()) || isPtrToNodes(u.Field(i).Type()) {
				out = append(out, schemaForms(u.Field(i).Type())...)
			}
		}
		return out
	}
	return nil
}

func isPtrToNodes(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	sl, ok := pt.Elem().Underlying().(*types.Slice)
	return ok && isNodeT(sl.Elem())
}

func (w *refWalk) step(ev *CallEvent) {
	x, st, r := w.x, ev.St, w.r
	at := w.p.instrPos(ev.In.(ssa.Instruction))
	n, rest := ev.Args[w.node], ev.Args[w.path]
	word, ok := w.word(st)
	if !ok {
		r.bad("step", "unknown:"+at, at, "the walk goes on with %s although it is not known which step of the path is taken (%s)", n, trailOf(st))
		return
	}
	src := n
	if strip(n).Op == "alloc" {
		src = x.load(st, n)
	}
	if n.isNil() || x.knownNil(st, n) {
		r.ok("step", word+" absent")

		return
	}
	fi, via, key, ok := w.holder(src)
	if !ok {
		r.bad("step", word, at, "for the step %q the walk goes on with %s, which is not read from the schema at hand (%s)", word, n, trailOf(st))
		return
	}
	if fi < 0 {
		if word != "#" {
			r.bad("step", word, at, "the step %q leads to the schema it starts from", word)
		} else if !w.isRest(st, rest, 1) {
			r.bad("step", word, at, "after the step %q the walk goes on with %s instead of the rest of the path", word, rest)
		} else {
			r.ok("step", word)
		}
		return
	}
	tag := fieldTag(w.st, fi)
	form := ""
	why := ""
	used := 1
	switch {
	case tag != word:
		why = "it leads to what is kept under \"" + tag + "\""
	case key != nil && key.Op != "":
		used = 2
		if isStrT(key.typ()) {
			form = "/name"
			if !w.isTok(st, key, 1) {
				why = "the entry is not chosen by the next step of the path"
			} else if !w.exists(st, src) {
				why = "an entry that does not exist is not an error"
			}
		} else {
			form = "/index"
			if !callTo(key, "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint") || !w.isTok(st, key.A[0], 1) {
				why = "the entry is not chosen by the next step of the path"
			} else if !x.knownNil(st, x.errOf(key, 1)) {
				why = "an index that is not a number is not an error"
			} else if !w.inRange(st, src, key) {
				why = "an index outside of the list is not an error"
			}
		}
	}
	if why == "" && !w.isRest(st, rest, used) {
		why = "the walk goes on with " + rest.String() + " instead of the rest of the path"
	}
	// both forms of items
	if why == "" && len(schemaForms(w.st.Field(fi).Type())) > 1 && form == "" {
		if !w.notNumber(st) {
			why = "a numeric step is not taken as an index"
		}
	}
	_ = via
	if why != "" {
		r.bad("step", word+":"+why, at, "the step %q of a reference path: %s (%s)", word, why, trailOf(st))
		return
	}
	w.seen[word+form] = true
	r.ok("step", word+form+" "+trailKey(st))
}

func (w *refWalk) notNumber(st *State) bool {
	for a, v := range st.facts {
		if callTo(a, "regexp.MatchString", "regexp.Regexp.MatchString") && !v && w.isTok(st, a.A[1], 1) {
			if s, ok := strConst(a.A[0]); ok && !strings.Contains(s, `\d`) && !strings.Contains(s, "0-9") {
				continue
			}
			return true
		}
		if l, e, ok := eqOperands(a); ok && e.isNil() {
			if (callTo(l, "strconv.Atoi", "strconv.ParseInt", "regexp.MatchString", "strconv.ParseUint")) && !v {
				return true
			}
			if isPtrToNodes(l.typ()) && v {
				return true
			}
		}
	}
	return false
}

func (w *refWalk) exists(st *State, src *Term) bool {
	var lk *Term
	src.any(func(q *Term) bool {
		if q.Op == "lookup" {
			lk = q
		}
		return lk != nil
	})
	if lk == nil {
		return false
	}
	for a, v := range st.facts {
		if v && a.Op == "lookupok" && a.A[0] == lk.A[0] && a.A[1] == lk.A[1] {
			return true
		}
	}
	return false
}

func (w *refWalk) inRange(st *State, src, key *Term) bool {
	var list *Term
	src.any(func(q *Term) bool {
		if (q.Op == "iaddr" || q.Op == "elem") && strip(q.A[1]) == key {
			list = q.A[0]
		}
		return list != nil
	})
	lo, hi := false, false
	for a, v := range st.facts {
		if a.Op != "bin" {
			continue
		}
		l, r, op := a.A[0], a.A[1], a.Aux.(string)
		if r == key {
			l, r = r, l
			op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
		}
		if l != key {
			continue
		}
		if !v {
			op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
		}
		if r.Op == "len" && list != nil && (r.A[0] == list || r.A[0].String() == list.String()) && op == "<" {
			hi = true
		}
		if isZeroC(r) && op == ">=" {
			lo = true
		}
		if c, ok := intConst(r); ok && c == -1 && op == ">" {
			lo = true
		}
	}
	if callTo(key, "strconv.ParseUint") {
		lo = true
	}
	return lo && hi
}

// ret: what the walk returns.
func (w *refWalk) ret(o Outcome, self func(*Term) bool) {
	x, r := w.x, w.r
	at := w.p.instrPos(o.at)
	v, e := o.rets[0], o.rets[1]
	if self(v) && self(e) && x.result(v, 1, e.T) == e || self(v) && self(e) && v.Site == e.Site && e.N == 1 {
		r.ok("return", "followed "+at)
		return
	}
	if x.knownNonNil(o.st, e) {
		r.ok("return", "error "+at)
		return
	}
	if isParam(v, w.node) && (x.knownNonNil(o.st, v) || w.self.Signature.Params().Len() == 2) {
		for a, val := range o.st.facts {
			l, q, ok := eqOperands(a)
			if !ok || !val {
				continue
			}
			if isParam(l, w.path) && isStr(q, "") || isParam(q, w.path) && isStr(l, "") || isZeroC(q) && l.Op == "len" && isParam(l.A[0], w.path) {
				r.ok("return", "arrived "+at)
				return
			}
		}
	}
	r.bad("return", at, at, "the walk ends with %s and error %s although the path is not used up, or the schema may not exist (%s)", v, e, trailOf(o.st))
}

// entry: a function that starts the walk.
func (w *refWalk) entry(rec []*ssa.Function) {
	p, r, f := w.p, w.r, w.self
	is := map[*ssa.Function]bool{}
	for _, g := range rec {
		is[g] = true
	}
	w.params(f)
	x := newExec(p, Config{Inline: func(g *ssa.Function) bool { return !is[g] && p.inRepo(g) && !p.recursive(g) }, Fact: func(*Term) int { return 1 }})
	w.x = x
	calls := false
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if !is[ev.Callee] {
			return false
		}
		calls = true
		at := p.instrPos(ev.In.(ssa.Instruction))
		node, path := -1, -1
		for i, q := range ev.Callee.Params {
			if isNodePtr(q.Type()) && node < 0 {
				node = i
			}
			if isStrT(q.Type()) && path < 0 {
				path = i
			}
		}
		if isParam(ev.Args[node], w.node) && isParam(ev.Args[path], w.path) {
			r.ok("start", shortFn(f))
		} else {
			r.bad("start", shortFn(f), at, "the walk starts from %s with %s instead of the schema and the path asked for", ev.Args[node], ev.Args[path])
		}
		return true
	}
	outs := x.Root(f, nil)
	r.exec(x, shortFn(f))
	if !calls {
		return
	}
	for _, o := range outs {
		if o.kind == "return" {
			w.ret(o, func(t *Term) bool {
				if t.Op != "call" {
					return false
				}
				g, ok := t.Aux.(*ssa.Function)
				return ok && is[g]
			})
		}
	}
}
