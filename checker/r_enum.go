package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C28: values of enum and const.

func init() {
	register("C28", "Every function that turns a schema node into an enum or const generator is interpreted. Each value of each generator it returns without an error has to be an element of the node's own list (or its const value) of which the path, or the predicate the list was filtered with, knows that Validate returned no error; the validator has to be compiled from the very node. The Generate methods return that value or an element of that list. The function that compiles a node is interpreted with a model of encoding/json: what is registered with the compiler is the node's own text, with at most its references rewritten; the address compiled is the address registered; a failed registration is reported. The reference rewriting is shown to change nothing but the values of $ref keys.",
		"the validator library itself, whether the rewritten references resolve as intended, keywords the node type does not hold.", ruleC28)
}

func ruleC28(r *R) {
	p := r.p
	found := 0
	for _, f := range p.Funcs {
		if (p.makesGenerator(f, "enumGenerator") || p.makesGenerator(f, "constGenerator")) && p.readsListed(f, 0) {
			found++
			listedParser(r, f)
		}
	}
	if found == 0 {
		r.missing("a function that parses enum or const")
	}
	for _, n := range []string{"enumGenerator", "constGenerator"} {
		g := p.method("", n, "Generate")
		if g == nil {
			r.missing(n + ".Generate")
			continue
		}
		listedGenerate(r, g, n)
	}
	n := 0
	for _, f := range p.Funcs {
		if p.compilesNode(f) && f.Blocks != nil {
			n++
			nodeCompiler(r, f)
		}
	}
	if n == 0 {
		r.missing("a function that compiles a schema node")
	}
	listedDispatch(r)
	r.need("value", 3)
	r.need("dispatch", 2)
	r.need("drawn", 2)
	r.need("compiled", 1)
	r.need("rewrite", 2)
}

// listedDispatch: a node with enum or const reaches a parser of listed values as it is.
func listedDispatch(r *R) {
	d := newDispatch(r)
	if d == nil {
		return
	}
	p := r.p
	for _, o := range d.outs {
		st := o.st
		if o.kind != "return" || d.deep(st) {
			continue
		}
		over := false
		for n := range overriding {
			over = over || n != "Enum" && n != "Const" && d.override(st, n)
		}
		g := d.unwrap(st, o.rets[0])
		if over || d.failed(st, g) {
			continue
		}
		pos := p.instrPos(o.at)
		enum, cst := d.filledList(st, "Enum"), d.nilOf(st, "Const").not()
		if enum == triF && cst == triF {
			continue
		}
		what := "enum"
		if enum == triF {
			what = "const"
		}
		f, _ := g.Aux.(*ssa.Function)
		switch {
		case !d.leaf(g) || f == nil || !p.readsListed(f, 0) || !(p.makesGenerator(f, "enumGenerator") || p.makesGenerator(f, "constGenerator")):
			if d.absent(st) {
				continue
			}
			r.bad("dispatch", what+" "+pos, pos, "a node that may have %s is parsed to %s (path: %s)", what, g, trailOf(st))
		case enum != triF && !p.makesGenerator(f, "enumGenerator"):
			r.bad("dispatch", what+" "+pos, pos, "a node that may have enum is parsed by %s (path: %s)", f.Name(), trailOf(st))
		default:
			if why := d.same(st, g); why != "" {
				r.bad("dispatch", what+" "+pos, pos, "a node with %s is not parsed as it is: %s (path: %s)", what, why, trailOf(st))
			} else {
				r.ok("dispatch", what)
			}
		}
	}
	r.exec(d.x, "parseNode")
}

// filledList: whether a keyword's list is present and not empty.
func (d *dispatchRun) filledList(st *State, n string) tri {
	absent := d.nilOf(st, n)
	if absent == triT {
		return triF
	}
	for a := range st.facts {
		var ln *Term
		a.any(func(t *Term) bool {
			if t.Op == "len" && (t.A[0].Op == "load" || t.A[0].Op == "sload") && d.kw(t.A[0].A[0]) == n {
				ln = t
			}
			return ln != nil
		})
		if ln != nil {
			if z, k := d.x.decide(st, d.x.bin("==", ln, d.x.T.Int(0), types.Typ[types.Bool])); k {
				return triOf(!z)
			}
		}
	}
	return triU
}

// readsListed: the function or a helper of it reads the enum or const keyword.
func (p *Prog) readsListed(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.FieldAddr:
				if isRepoType(deref(v.X.Type()), "schemaNode") {
					n := structOf(deref(v.X.Type())).Field(v.Field).Name()
					if n == "Enum" || n == "Const" {
						return true
					}
				}
			case *ssa.Field:
				if isRepoType(v.X.Type(), "schemaNode") {
					n := structOf(v.X.Type()).Field(v.Field).Name()
					if n == "Enum" || n == "Const" {
						return true
					}
				}
			case *ssa.Call:
				if g := v.Call.StaticCallee(); g != nil && g.Pkg == f.Pkg && depth < 2 && g.Blocks != nil && g.Name() != "parseNode" && p.readsListed(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// compilesNode: makes a validator of a schema node.
func (p *Prog) compilesNode(f *ssa.Function) bool {
	sig := f.Signature
	if !p.isLib(f) || sig.Results().Len() != 2 || !isSchemaT(sig.Results().At(0).Type()) || !isErrT(sig.Results().At(1).Type()) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isRepoType(deref(sig.Params().At(i).Type()), "schemaNode") {
			return true
		}
	}
	return false
}

type listed struct {
	r    *R
	x    *Exec
	la   *loopAcc
	node *Term
	why  string
}

// own: the value is the node itself, as the function got it.
func (q *listed) own(t *Term) bool {
	t = strip(t)
	if t == q.node {
		return true
	}
	return (t.Op == "load" || t.Op == "sload") && strip(t.A[0]) == q.node
}

func (q *listed) keyword(t *Term, name string) bool {
	t = strip(t)
	_, n, b, ok := fieldRead(t)
	return ok && n == name && b != nil && (q.own(b) || strip(b) == q.node || b.any(func(u *Term) bool { return u == q.node }))
}

// list: the node's own list of values.
func (q *listed) list(t *Term) bool {
	t = stripI(t)
	return (t.Op == "load" || t.Op == "sload") && q.keyword(t.A[0], "Enum")
}

func (q *listed) single(t *Term) bool {
	t = stripI(t)
	return (t.Op == "load" || t.Op == "sload") && q.keyword(t.A[0], "Const")
}

// fits: the path knows that the value passed validation against the node.
func (q *listed) fits(st *State, v *Term) bool {
	for a, val := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || !val {
			continue
		}
		if l.isNil() {
			l, e = e, l
		}
		if !e.isNil() || l.Op != "call" {
			continue
		}
		f, ok := l.Aux.(*ssa.Function)
		if !ok || f.Name() != "Validate" || len(l.A) != 2 || !isSchemaT(l.A[0].typ()) || stripI(l.A[1]) != stripI(v) {
			continue
		}
		s := strip(l.A[0])
		g, ok := s.Aux.(*ssa.Function)
		if s.Op != "call" || s.N != 0 || !ok || !q.r.p.compilesNode(g) {
			q.why = "it is validated by " + s.String()
			continue
		}
		if !q.own(nodeArg(s.A)) {
			q.why = "it is validated against another schema: " + nodeArg(s.A).String()
			continue
		}
		if !q.x.succeeded(st, s, 1) {
			q.why = "the schema may have failed to compile"
			continue
		}
		return true
	}
	return false
}

// filtered: a selection of the node's list all of whose elements passed validation.
func (q *listed) filtered(st *State, t *Term) bool {
	t = stripI(t)
	for t.Op == "slice" || t.Op == "tassert" {
		t = stripI(t.A[0])
	}
	if t.isNil() || t.Op == "zero" || t.Op == "list" && len(t.A) == 0 {
		return true
	}
	if callTo(t, "github.com/thoas/go-funk.Filter") && len(t.A) == 2 {
		if !q.list(t.A[0]) {
			q.why = "what is filtered is " + t.A[0].String()
			return false
		}
		return q.predicate(st, stripI(t.A[1]))
	}
	base, pieces := unwind(t)
	its := q.la.iters[base]
	if len(its) == 0 && !q.la.empty(base) && !q.la.empty(strip(base)) {
		q.why = "the values are " + t.String()
		return false
	}
	one := func(st *State, pc *Term) bool {
		if pc.Op != "list" {
			return q.filtered(st, pc)
		}
		for _, e := range pc.A {
			if !q.value(st, e) {
				return false
			}
		}
		return true
	}
	for _, pc := range pieces {
		if !one(st, pc) {
			return false
		}
	}
	for _, it := range its {
		for _, pc := range it.added {
			if !one(it.st, pc) {
				return false
			}
		}
	}
	return true
}

func (q *listed) predicate(st *State, fn *Term) bool {
	if fn.Op != "closure" && fn.Op != "func" {
		q.why = "the predicate is " + fn.String()
		return false
	}
	x := q.x
	body := fn.Aux.(*ssa.Function)
	if len(body.Params) != 1 {
		q.why = "the predicate is " + fn.String()
		return false
	}
	el := x.T.mk("param", body.Params[0], 900, body.Params[0].Type(), nil, nil)
	n := 0
	for _, o := range x.run(body, st.clone(), []*Term{el}, fn.A, nil, nil) {
		if o.kind != "return" {
			continue
		}
		n++
		if v, known := x.decide(o.st, o.rets[0]); known && !v {
			continue
		}
		ns := o.st.clone()
		x.assume(ns, o.rets[0], true, o.at)
		if !q.fits(ns, el) {
			if q.why == "" {
				q.why = "a value is let through that need not have passed validation (" + trailOf(o.st) + ")"
			}
			return false
		}
	}
	return n > 0
}

// value: one value from the node's keyword that passed validation.
func (q *listed) value(st *State, v *Term) bool {
	v = stripI(v)
	if q.single(v) {
		return q.fits(st, v)
	}
	if c, ok := elemOf(v); ok {
		if q.list(c) {
			return q.fits(st, v)
		}
		return q.filtered(st, c)
	}
	q.why = "it is " + v.String()
	return false
}

func listedParser(r *R, f *ssa.Function) {
	p := r.p
	q := &listed{r: r}
	x := newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Inline: func(g *ssa.Function) bool {
			return (g.Pkg == f.Pkg || g.Pkg == nil || g.Parent() != nil || strings.HasSuffix(fnPkgPath(g), "/util")) && !p.leavesParser(g) && !p.recursive(g)
		},
		OnCall: func(ev *CallEvent) bool {
			return parsesNode(ev) || ev.Callee != nil && (p.compilesNode(ev.Callee) || strings.HasSuffix(fnPkgPath(ev.Callee), "/util") && ev.Callee.Signature.Results().Len() == 1 && isStringT(ev.Callee.Signature.Results().At(0).Type()))
		},
		OnBack: func(st *State, fr *frame, l *Loop) { q.la.onBack(st, fr, l) },
	})
	q.x = x
	q.la = newLoopAcc(x)
	for _, o := range x.Root(f, func(st *State, params []*Term) { q.node = nodeArg(params) }) {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		st := o.st
		pos := p.instrPos(o.at)
		key := f.Name() + " " + pos
		g := strip(o.rets[0])
		if g.Op == "call" && parsedByCall(g) {
			continue // handed on to another parser, with its error
		}
		if g.Op == "iface" {
			g = strip(g.A[0])
		}
		if _, ok := g.typ().Underlying().(*types.Pointer); ok {
			g = x.load(st, g)
		}
		q.why = ""
		good := false
		switch {
		case isRepoType(g.typ(), "constGenerator"):
			good = q.value(st, x.fieldNamed(g, structOf(g.typ()), "Value"))
		case isRepoType(g.typ(), "enumGenerator"):
			vs := x.fieldNamed(g, structOf(g.typ()), "Values")
			good = q.filtered(st, vs)
			if good && !q.some(st, vs) {
				good = false
				q.why = "none of the listed values may fit and this is not reported"
			}
		default:
			q.why = "the generator is " + g.String() + " and no error is returned"
		}
		if good {
			r.ok("value", key)
			continue
		}
		if q.why == "" {
			q.why = "it need not have passed validation"
		}
		r.bad("value", key, pos, "a value yielded for enum or const is not known to fit the schema: %s (path: %s)", q.why, trailOf(st))
	}
	r.exec(x, fullName(f))
}

// some: the list is known not to be empty.
func (q *listed) some(st *State, vs *Term) bool {
	n := q.x.lenOf(st, strip(vs))
	if v, k := q.x.decide(st, q.x.bin("==", n, q.x.T.Int(0), types.Typ[types.Bool])); k {
		return !v
	}
	lo, _ := q.x.interval(st, n)
	return lo != nil && lo.ExactString() != "0" && !strings.HasPrefix(lo.ExactString(), "-")
}

func parsedByCall(t *Term) bool {
	_, ok := parsedFrom(t)
	return ok
}

// listedGenerate: the generator yields the value it holds, or one of them.
func listedGenerate(r *R, gen *ssa.Function, name string) {
	p := r.p
	x := newExec(p, Config{
		Fact:   func(a *Term) int { return 1 },
		Inline: func(g *ssa.Function) bool { return p.inRepo(g) && !p.recursive(g) },
	})
	for _, o := range x.Root(gen, nil) {
		if o.kind != "return" {
			continue
		}
		pos := p.instrPos(o.at)
		v := strip(o.rets[0])
		good := isField(v, name, "Value")
		if c, ok := elemOf(v); ok {
			c = strip(c)
			good = good || isField(c, name, "Values")
		}
		if good {
			r.ok("drawn", name+" "+pos)
		} else {
			r.bad("drawn", name+" "+pos, pos, "%s yields %s, which is none of its values (path: %s)", name, v, trailOf(o.st))
		}
	}
	r.exec(x, fullName(gen))
}

// nodeCompiler: what is compiled is the node.
func nodeCompiler(r *R, f *ssa.Function) {
	p := r.p
	type reg struct{ url, doc, err *Term }
	rewriters := map[*ssa.Function]bool{}
	texts := map[*Term]*Term{} // decoded value -> text
	errs := map[*Term]bool{}
	isCompiler := func(ev *CallEvent, n string) bool {
		return ev.Callee != nil && ev.Callee.Name() == n && strings.Contains(fnPkgPath(ev.Callee), "santhosh-tekuri/jsonschema")
	}
	regs := map[*Term]reg{}
	var x *Exec
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Inline: func(g *ssa.Function) bool {
			return p.inRepo(g) && !p.recursive(g)
		},
		OnCall: func(ev *CallEvent) bool {
			n := ev.name()
			return n == "encoding/json.Unmarshal" || n == "encoding/json.Marshal" || ev.Callee != nil && p.recursive(ev.Callee)
		},
		OnOpaque: func(ev *CallEvent, rets []*Term) {
			switch {
			case ev.name() == "encoding/json.Unmarshal" && len(ev.Args) == 2:
				d := x.T.mk("decoded", "value", 0, types.NewInterfaceType(nil, nil), ev.In, ev.St.ctx, stripI(ev.Args[0]))
				texts[d] = stripI(ev.Args[0])
				errs[rets[0]] = true
				x.store(ev.St, stripI(ev.Args[1]), d, ev.In)
			case ev.name() == "encoding/json.Marshal":
				errs[x.errOf(rets[0], 1)] = true
				if len(rets) > 1 {
					errs[rets[1]] = true
				}
			case isCompiler(ev, "AddResource") && len(ev.Args) == 3:
				regs[rets[0]] = reg{ev.Args[1], ev.Args[2], rets[0]}
				k := "regs"
				ev.St.mon[k] = "one"
			}
		},
	})
	var node *Term
	for _, o := range x.Root(f, func(st *State, params []*Term) { node = nodeArg(params) }) {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		st := o.st
		failed := false
		for e := range errs {
			failed = failed || x.knownNonNil(st, e)
		}
		if failed {
			continue // the node itself cannot be written or read
		}
		pos := p.instrPos(o.at)
		bad := func(format string, args ...interface{}) {
			r.bad("compiled", f.Name()+" "+pos, pos, format+" (path: %s)", append(args, trailOf(st))...)
		}
		s := strip(o.rets[0])
		if s.Op != "call" || len(s.A) < 2 {
			bad("the validator is %s", s)
			continue
		}
		g, _ := s.Aux.(*ssa.Function)
		if g == nil || g.Name() != "Compile" && g.Name() != "MustCompile" {
			bad("the validator is %s", s)
			continue
		}
		var at *reg
		for _, rg := range regs {
			rg := rg
			if x.knownNil(st, rg.err) {
				at = &rg
				if strip(rg.url) == strip(s.A[1]) {
					break
				}
			}
		}
		if at == nil {
			bad("what is compiled was not registered, or the registration may have failed unnoticed")
			continue
		}
		if strip(at.url) != strip(s.A[1]) {
			bad("the schema is registered as %s but %s is compiled", at.url, s.A[1])
			continue
		}
		doc := stripI(at.doc)
		for doc.Op == "call" {
			g, ok := doc.Aux.(*ssa.Function)
			if !ok || !p.inRepo(g) {
				break
			}
			rewriters[g] = true
			var arg *Term
			for _, a := range doc.A {
				if i, ok := a.typ().Underlying().(*types.Interface); ok && i.Empty() {
					arg = a
				}
			}
			if arg == nil {
				break
			}
			doc = stripI(arg)
		}
		text := texts[doc]
		if text == nil {
			bad("what is registered is %s, not the text of the node", doc)
			continue
		}
		for text.Op == "conv" || text.Op == "convert" {
			text = stripI(text.A[0])
		}
		if !callTo(text, "encoding/json.Marshal") || !ownNode(text.A[0], node) {
			bad("what is registered is the text %s, not that of the node", text)
			continue
		}
		r.ok("compiled", f.Name()+" "+pos)
	}
	r.exec(x, fullName(f))
	for g := range rewriters {
		referenceRewriter(r, g)
	}
}

func ownNode(t, node *Term) bool {
	t = stripI(t)
	return t == node || (t.Op == "load" || t.Op == "sload") && strip(t.A[0]) == node
}

// referenceRewriter: a recursive function over decoded JSON that touches only $ref values.
func referenceRewriter(r *R, f *ssa.Function) {
	p := r.p
	var data *Term
	var x *Exec
	within := func(t *Term) bool {
		// the data itself, seen as a map or a list
		t = stripI(t)
		for t != data && len(t.A) > 0 && t.Op == "tassert" {
			t = stripI(t.A[0])
		}
		return t == data
	}
	self := func(t *Term) (*Term, bool) {
		t = stripI(t)
		if t.Op != "call" {
			return nil, false
		}
		if g, ok := t.Aux.(*ssa.Function); !ok || g != f {
			return nil, false
		}
		for _, a := range t.A {
			if i, ok := a.typ().Underlying().(*types.Interface); ok && i.Empty() {
				return stripI(a), true
			}
		}
		return nil, false
	}
	bad := func(in ssa.Instruction, st *State, format string, args ...interface{}) {
		pos := p.instrPos(in)
		r.bad("rewrite", f.Name()+" "+pos, pos, format+" (path: %s)", append(args, trailOf(st))...)
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Inline:   func(g *ssa.Function) bool { return p.inRepo(g) && g != f && !p.recursive(g) },
		OnInstr: func(st *State, fr *frame, in ssa.Instruction) {
			switch v := in.(type) {
			case *ssa.Call:
				b, ok := v.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "delete" || !within(x.val(st, v.Call.Args[0])) {
					return
				}
				if k := x.val(st, v.Call.Args[1]); isStr(k, "$ref") {
					r.ok("rewrite", f.Name()+" "+p.instrPos(in))
				} else {
					bad(in, st, "the keyword %s is removed from the schema that is compiled", k)
				}
			case *ssa.MapUpdate:
				m, k, e := x.val(st, v.Map), strip(x.val(st, v.Key)), stripI(x.val(st, v.Value))
				if !within(m) {
					return
				}
				if isStr(k, "$ref") || e == k {
					if e.any(func(t *Term) bool { return t.Op == "lookup" && isStr(t.A[1], "$ref") }) {
						r.ok("rewrite", f.Name()+" "+p.instrPos(in))
					} else {
						bad(in, st, "a reference is replaced by %s", e)
					}
					return
				}
				if a, ok := self(e); ok && (x.entryOf(a, k)) {
					r.ok("rewrite", f.Name()+" "+p.instrPos(in))
					return
				}
				bad(in, st, "the keyword %s is set to %s, which is not its own value with references rewritten", k, e)
			case *ssa.Store:
				a, e := x.val(st, v.Addr), stripI(x.val(st, v.Val))
				if a.Op != "iaddr" || !within(a.A[0]) {
					return
				}
				if s, ok := self(e); ok && (s.Op == "load" || s.Op == "sload") && s.A[0].Op == "iaddr" && within(s.A[0].A[0]) && s.A[0].A[1] == a.A[1] {
					r.ok("rewrite", f.Name()+" "+p.instrPos(in))
					return
				}
				bad(in, st, "an entry of a list is set to %s, which is not its own value with references rewritten", e)
			}
		},
	})
	for _, o := range x.Root(f, func(st *State, params []*Term) {
		for _, t := range params {
			if it, ok := t.typ().Underlying().(*types.Interface); ok && it.Empty() {
				data = t
			}
		}
	}) {
		if o.kind != "return" {
			continue
		}
		if len(o.rets) == 0 {
			continue
		}
		if within(o.rets[0]) {
			r.ok("rewrite", f.Name()+" "+p.instrPos(o.at))
		} else {
			bad(o.at, o.st, "the rewritten schema is %s", o.rets[0])
		}
	}
	r.exec(x, fullName(f))
}
