package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: the JSON type of generated values.

func init() {
	register("C24", "parseNode is interpreted with the functions that choose between parsers. On every path on which no overriding keyword is set, a single type leads to the parser of exactly that type, with the node as it is, or to an error; a list of types leads to a generator over the parsers of its entries. For each type's parser, every generator it returns without an error is followed to its Generate method, which is interpreted: the dynamic type of each returned value is the type's, or the value is null past the cutoff, or a diagnostic text.",
		"whether a value satisfies the other keywords, generators behind overriding keywords ($ref, allOf, anyOf, oneOf, not, if, enum, const), generation of the elements of arrays and objects.", ruleC24)
}

var jsonTypes = map[string]bool{"object": true, "array": true, "number": true, "integer": true, "string": true, "boolean": true, "null": true}

// keywords in front of which the declared type steps back
var overriding = map[string]bool{"Ref": true, "AllOf": true, "OneOf": true, "AnyOf": true, "Not": true, "If": true, "Enum": true, "Const": true, "mergedNot": true, "mergedIf": true}

type dispatchRun struct {
	r     *R
	x     *Exec
	la    *loopAcc
	node  *Term
	outs  []Outcome
	leafs map[*Term][]*Term // leaf calls met, by first result
}

func ruleC24(r *R) {
	d := newDispatch(r)
	if d == nil {
		return
	}
	x := d.x
	want := map[string]map[*Term]bool{} // type -> leaf calls
	add := func(t string, call *Term) {
		if want[t] == nil {
			want[t] = map[*Term]bool{}
		}
		want[t][call] = true
	}
	for _, o := range d.outs {
		if o.kind != "return" {
			continue
		}
		st := o.st
		pos := r.p.instrPos(o.at)
		if d.override(st, "") {
			continue
		}
		g := d.unwrap(st, o.rets[0])
		declared, has := d.single(st)
		multi := d.multiple(st)
		bad := func(format string, args ...interface{}) {
			r.bad("dispatch", "parseNode "+pos+" "+declared, pos, format+" (path: %s)", append(args, trailOf(st))...)
		}
		if multi == triF && has == triF || d.deep(st) {
			continue // no declared type
		}
		if multi == triT {
			d.many(o, g, add)
			continue
		}
		if multi == triU || has == triU {
			if !d.failed(st, g) {
				bad("the node is parsed as %s before its declared type is looked at", g)
			}
			continue
		}
		if declared == "" {
			if d.reported(st) {
				r.ok("dispatch", "parseNode unknown "+pos)
			} else if d.leaf(g) {
				bad("the node is parsed by %s although its type is not established to be the one that parses", g)
			} else {
				bad("an unknown type is not reported, the generator is %s", g)
			}
			continue
		}
		if d.failed(st, g) || d.absent(st) {
			continue
		}
		if !d.leaf(g) {
			bad("a node of type %s is parsed to %s", declared, g)
			continue
		}
		if why := d.same(st, g); why != "" {
			bad("a node of type %s is not parsed as it is: %s", declared, why)
			continue
		}
		r.ok("dispatch", "parseNode "+declared)
		add(declared, g)
	}
	r.exec(x, "parseNode")
	var ts []string
	for t := range jsonTypes {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		if len(want[t]) == 0 {
			r.bad("dispatch", "type "+t, "", "no path leads a node of type %s to a parser", t)
			continue
		}
		for _, c := range sortedTerms(want[t]) {
			yields(r, t, c)
		}
	}
	r.need("dispatch", 8)
	r.need("list", 1)
	r.need("yields", 7)
}

// newDispatch interprets parseNode down to the parsers of single keywords and types.
func newDispatch(r *R) *dispatchRun {
	p := r.p
	root := p.fn("", "parseNode")
	if root == nil {
		r.missing("parseNode")
		return nil
	}
	d := &dispatchRun{r: r, leafs: map[*Term][]*Term{}}
	typed := p.typedParsers(root)
	d.x = newExec(p, Config{
		NoUnroll: true,
		Fact: func(a *Term) int {
			if a.any(func(t *Term) bool {
				if t.Op == "call" && t.T != nil && (isErrT(t.T) || isGeneratorT(t.T)) {
					return true
				}
				_, n, _, ok := fieldRead(t)
				return ok && (overriding[n] || n == "Type" || n == "SingleType" || n == "MultipleTypes" || n == "ParseDepth" || n == "constraints")
			}) {
				return 1
			}
			return -1
		},
		Inline: func(g *ssa.Function) bool {
			if g.Pkg != root.Pkg && g.Parent() == nil && !strings.HasSuffix(fnPkgPath(g), "/util") {
				return false
			}
			return typed[g] || g.Parent() != nil && typed[g.Parent()] || strings.HasSuffix(fnPkgPath(g), "/util")
		},
		OnOpaque: func(ev *CallEvent, rets []*Term) {
			if isRecorder(ev.Callee) {
				ev.St.mon["reported"] = "yes"
			}
		},
		OnBack: func(st *State, fr *frame, l *Loop) {
			d.la.onBack(st, fr, l)
			delete(st.mon, "reported")
		},
	})
	d.la = newLoopAcc(d.x)
	d.outs = d.x.Root(root, func(st *State, params []*Term) { d.node = nodeArg(params) })
	return d
}

// typedParsers: the functions between parseNode and the parsers of single types, keywords.
func (p *Prog) typedParsers(root *ssa.Function) map[*ssa.Function]bool {
	leads := map[*ssa.Function]int{}
	var reach func(f *ssa.Function) bool
	takesNode := func(f *ssa.Function) bool {
		for _, a := range f.Params {
			if isRepoType(deref(a.Type()), "schemaNode") {
				return true
			}
		}
		return false
	}
	objects := func(f *ssa.Function) bool { return p.makesGenerator(f, "objectGenerator") }
	reach = func(f *ssa.Function) bool {
		if v, ok := leads[f]; ok {
			return v == 2
		}
		leads[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Blocks == nil || g.Pkg != root.Pkg || g == root || !takesNode(g) {
					continue
				}
				if objects(g) || g.Signature.Results().Len() > 0 && reach(g) {
					leads[f] = 2
				}
			}
		}
		return leads[f] == 2
	}
	reach(root)
	out := map[*ssa.Function]bool{}
	for f, v := range leads {
		out[f] = v == 2
	}
	// helpers that look at the node and decide
	for f := range out {
		if !out[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Blocks == nil || g.Pkg != root.Pkg || p.recursive(g) {
					continue
				}
				rs := g.Signature.Results()
				if rs.Len() > 0 && !isErrT(rs.At(rs.Len()-1).Type()) && !isRecorder(g) && recvName(g) == "" {
					out[g] = true
				}
			}
		}
	}
	return out
}

func (d *dispatchRun) kw(t *Term) string {
	t = strip(t)
	_, n, b, ok := fieldRead(t)
	if ok && b != nil && b.any(func(u *Term) bool { return u == d.node }) {
		return n
	}
	return ""
}

// override: the path knows that an overriding keyword is set (or this one, if named).
func (d *dispatchRun) override(st *State, name string) bool {
	for a, v := range st.facts {
		hit := ""
		a.any(func(t *Term) bool {
			if n := d.kw(t); overriding[n] && (name == "" || n == name) && !isRepoType(deref(t.typ()), "schemaNode") {
				hit = n
			} else if n := d.kw(t); overriding[n] && (name == "" || n == name) {
				hit = n
			}
			return hit != ""
		})
		if hit == "" {
			continue
		}
		l, e, ok := eqOperands(a)
		switch {
		case ok && (l.isNil() || e.isNil()):
			if l.isNil() {
				l, e = e, l
			}
			if overriding[d.kw(l)] && !v && hit != "Enum" {
				return true
			}
		case a.any(func(t *Term) bool { return t.Op == "len" }):
			var ln *Term
			a.any(func(t *Term) bool {
				if t.Op == "len" {
					ln = t
				}
				return ln != nil
			})
			x := d.x
			if nz, k := x.decide(st, x.bin("==", ln, x.T.Int(0), types.Typ[types.Bool])); k && !nz {
				return true
			}
			if lo, _ := x.interval(st, ln); lo != nil && lo.ExactString() != "0" && !strings.HasPrefix(lo.ExactString(), "-") {
				return true
			}
		}
	}
	return false
}

// unwrap: the generator below a wrapper that applies constraints.
func (d *dispatchRun) unwrap(st *State, g *Term) *Term {
	g = stripI(g)
	for n := 0; n < 3; n++ {
		if _, ok := g.typ().Underlying().(*types.Pointer); ok && g.Op == "alloc" {
			g = d.x.load(st, g)
		}
		s, ok := g.typ().Underlying().(*types.Struct)
		if !ok || isRepoType(g.typ(), "multipleTypeGenerator") {
			break
		}
		i := fieldIndex(s, "internalGenerator")
		if i < 0 {
			break
		}
		g = stripI(d.x.field(g, s, i))
	}
	return g
}

// single: the name of the single declared type, and whether there is one.
func (d *dispatchRun) single(st *State) (string, tri) {
	has := triU
	name := ""
	no := d.nilOf(st, "Type")
	if no == triT {
		return "", triF
	}
	for a, v := range st.facts {
		var ln *Term
		a.any(func(t *Term) bool {
			if t.Op == "len" && d.kw(t.A[0]) == "SingleType" {
				ln = t
			}
			return ln != nil
		})
		if ln != nil {
			if z, k := d.x.decide(st, d.x.bin("==", ln, d.x.T.Int(0), types.Typ[types.Bool])); k && has == triU {
				has = triOf(!z)
			}
		}
		l, e, ok := eqOperands(a)
		if !ok {
			continue
		}
		if l.isConst() {
			l, e = e, l
		}
		s, isS := strConst(e)
		if !isS || d.kw(l) != "SingleType" {
			continue
		}
		if s == "" {
			has = triOf(!v)
		} else if v {
			name, has = s, triT
		}
	}
	return name, has
}

func (d *dispatchRun) nilOf(st *State, n string) tri {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok {
			continue
		}
		if l.isNil() {
			l, e = e, l
		}
		if e.isNil() && d.kw(l) == n {
			return triOf(v)
		}
	}
	return triU
}

// multiple: whether the type is a list.
func (d *dispatchRun) multiple(st *State) tri {
	if d.nilOf(st, "Type") == triT {
		return triF
	}
	if v := d.nilOf(st, "MultipleTypes"); v != triU {
		return v.not()
	}
	for a := range st.facts {
		var ln *Term
		a.any(func(t *Term) bool {
			if t.Op == "len" && d.kw(t.A[0]) == "MultipleTypes" {
				ln = t
			}
			return ln != nil
		})
		if ln != nil {
			if v, k := d.x.decide(st, d.x.bin("==", ln, d.x.T.Int(0), types.Typ[types.Bool])); k {
				return triOf(!v)
			}
		}
	}
	return triU
}

// deep: the path gave up because the node is nested too deeply.
func (d *dispatchRun) deep(st *State) bool {
	for a, v := range st.facts {
		if v && a.any(func(t *Term) bool { _, n, _, ok := fieldRead(t); return ok && n == "ParseDepth" }) && st.mon["reported"] != "" {
			return true
		}
	}
	return false
}

func (d *dispatchRun) reported(st *State) bool { return st.mon["reported"] != "" }

// failed: the parser that was called failed and so did the whole.
func (d *dispatchRun) failed(st *State, g *Term) bool {
	if d.reported(st) {
		return true
	}
	return g.Op == "call" && d.x.knownNonNil(st, d.x.errOf(g, 1))
}

// absent: a parser returned neither a generator nor an error (its results are looked at on their own).
func (d *dispatchRun) absent(st *State) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || !v {
			continue
		}
		if l.isNil() {
			l, e = e, l
		}
		if e.isNil() && d.leaf(l) && !isErrT(l.typ()) {
			return true
		}
	}
	return false
}

func (d *dispatchRun) leaf(g *Term) bool {
	f, ok := g.Aux.(*ssa.Function)
	return g.Op == "call" && ok && nodeArg(g.A) != nil && d.r.p.isLib(f)
}

// same: the node handed on is the node at hand.
func (d *dispatchRun) same(st *State, g *Term) string {
	n := strip(nodeArg(g.A))
	if n == d.node || (n.Op == "load" || n.Op == "sload") && strip(n.A[0]) == d.node {
		return ""
	}
	s := structOf(deref(n.typ()))
	if s == nil || deref(n.typ()) != n.typ() {
		return "it is " + n.String()
	}
	for i := 0; i < s.NumFields(); i++ {
		f := d.x.field(n, s, i)
		own := d.x.field(d.node, s, i)
		if f != own {
			return "its " + s.Field(i).Name() + " is " + f.String()
		}
	}
	return ""
}

// many: a generator over the parsers of all listed types.
func (d *dispatchRun) many(o Outcome, g *Term, add func(string, *Term)) {
	r, x, st := d.r, d.x, o.st
	pos := r.p.instrPos(o.at)
	if d.failed(st, g) && !isRepoType(deref(g.typ()), "multipleTypeGenerator") {
		return
	}
	bad := func(format string, args ...interface{}) {
		r.bad("list", "parseNode "+pos, pos, format+" (path: %s)", append(args, trailOf(st))...)
	}
	if g.Op == "alloc" {
		g = x.load(st, g)
	}
	if !isRepoType(g.typ(), "multipleTypeGenerator") {
		bad("a list of types is parsed to %s", g)
		return
	}
	s := structOf(g.typ())
	var list *Term
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && isGeneratorT(sl.Elem()) {
			list = strip(x.field(g, s, i))
		}
	}
	if list == nil {
		bad("the generators of a list of types cannot be told")
		return
	}
	base, pieces := unwind(list)
	its := d.la.iters[base]
	if len(its) == 0 || len(pieces) > 0 {
		bad("the generators of a list of types are %s", list)
		return
	}
	fine := true
	for _, it := range its {
		if it.reset {
			fine = false
			bad("the generators of a list of types are started anew in its loop")
			continue
		}
		for _, pc := range it.added {
			if pc.Op != "list" {
				fine = false
				bad("for an entry of a list of types, %s is added", pc)
				continue
			}
			for _, e := range pc.A {
				e = stripI(e)
				if isRepoType(deref(e.typ()), "nullGenerator") {
					// the entry failed, or is null
					if it.st.mon["reported"] == "" && d.entryType(it.st) != "null" {
						fine = false
						r.bad("list", "parseNode silent "+pos, pos, "an entry of a list of types yields null although it is not known to have failed, or its failure is not reported (path: %s)", trailOf(it.st))
					}
					continue
				}
				t := d.entryType(it.st)
				if !d.leaf(e) {
					fine = false
					r.bad("list", "parseNode entry "+pos, pos, "the entry %q of a list of types is parsed to %s (path: %s)", t, e, trailOf(it.st))
					continue
				}
				if t == "" {
					fine = false
					r.bad("list", "parseNode entry "+pos, pos, "an entry of a list of types is parsed by %s although it is not established to be the type that parses (path: %s)", e, trailOf(it.st))
					continue
				}
				add(t, e)
			}
		}
	}
	if fine {
		r.ok("list", "parseNode "+pos)
	}
	if d.override(st, "") {
		return
	}
}

// entryType: the constant an element of the list of types equals on the path.
func (d *dispatchRun) entryType(st *State) string {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || !v {
			continue
		}
		if l.isConst() {
			l, e = e, l
		}
		s, isS := strConst(e)
		if !isS || s == "" {
			continue
		}
		if c, ok := elemOf(l); ok {
			c = strip(c)
			if d.kw(c) == "MultipleTypes" {
				return s
			}
		}
	}
	return ""
}

// yields: what the generators of a type's parser generate.
func yields(r *R, typ string, call *Term) {
	p := r.p
	f := call.Aux.(*ssa.Function)
	res := &resultTypes{p: p, seen: map[string]bool{}}
	consts := map[int]*Term{}
	for i, a := range call.A {
		if a.isConst() {
			consts[i] = a
		}
	}
	for _, g := range res.generators(f, 0) {
		key := typ + " " + g.what
		if g.t == nil {
			r.bad("yields", key, g.pos, "the parser of type %s returns %s, whose values cannot be told", typ, g.what)
			continue
		}
		n, _ := deref(g.t).(*types.Named)
		if n == nil {
			r.bad("yields", key, g.pos, "the parser of type %s returns %s, whose values cannot be told", typ, g.what)
			continue
		}
		if n.Obj().Name() == "constGenerator" {
			fixedValue(r, typ, f, consts)
			continue
		}
		gen := p.method("", n.Obj().Name(), "Generate")
		if gen == nil {
			r.bad("yields", key, g.pos, "the parser of type %s returns %s, whose values cannot be told", typ, g.what)
			continue
		}
		generates(r, typ, gen, consts)
	}
}

type genResult struct {
	t         types.Type
	what, pos string
}

type resultTypes struct {
	p    *Prog
	seen map[string]bool
}

// generators: the concrete generators a parser may return together with a nil error.
func (q *resultTypes) generators(f *ssa.Function, depth int) (out []genResult) {
	have := map[string]bool{}
	add := func(g genResult) {
		k := g.what
		if !have[k] {
			have[k] = true
			out = append(out, g)
		}
	}
	var of func(v, e ssa.Value, seen map[ssa.Value]bool)
	of = func(v, e ssa.Value, seen map[ssa.Value]bool) {
		if e != nil && neverNil(e) {
			return // an error is reported
		}
		if seen[v] {
			return
		}
		switch u := v.(type) {
		case *ssa.MakeInterface:
			add(genResult{u.X.Type(), typeName(deref(u.X.Type())), q.p.instrPos(u)})
		case *ssa.ChangeInterface:
			of(u.X, e, seen)
		case *ssa.Phi:
			seen[v] = true
			for i, s := range u.Edges {
				es := e
				if ep, ok := e.(*ssa.Phi); ok && ep.Block() == u.Block() {
					es = ep.Edges[i]
				}
				of(s, es, seen)
			}
		case *ssa.Extract:
			if c, ok := u.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && q.p.isLib(g) && g.Name() != "parseNode" && depth < 4 {
					for _, x := range q.generators(g, depth+1) {
						add(x)
					}
					return
				}
			}
			add(genResult{nil, v.String(), q.p.instrPos(f.Blocks[0].Instrs[0])})
		case *ssa.Call:
			if g := u.Call.StaticCallee(); g != nil && g.Blocks != nil && q.p.isLib(g) && depth < 4 {
				for _, x := range q.generators(g, depth+1) {
					add(x)
				}
				return
			}
			add(genResult{nil, v.String(), q.p.instrPos(u)})
		case *ssa.Const:
			if u.IsNil() {
				add(genResult{nil, "nil", q.p.instrPos(f.Blocks[0].Instrs[0])})
				return
			}
			add(genResult{u.Type(), typeName(deref(u.Type())), ""})
		case *ssa.UnOp:
			if a, ok := u.X.(*ssa.Alloc); ok && types.IsInterface(u.Type()) {
				for _, ref := range *a.Referrers() {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						of(s.Val, e, seen)
					}
				}
				return
			}
			add(genResult{v.Type(), typeName(deref(v.Type())), ""})
		default:
			if types.IsInterface(v.Type()) {
				add(genResult{nil, v.String(), ""})
			} else {
				add(genResult{v.Type(), typeName(deref(v.Type())), ""})
			}
		}
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) == 0 || b == f.Recover {
			continue
		}
		var e ssa.Value
		if len(ret.Results) > 1 {
			e = ret.Results[1]
			if x, ok := e.(*ssa.Extract); ok {
				// both results of one call, or an error that was tested
				if y, ok := ret.Results[0].(*ssa.Extract); !ok || y.Tuple != x.Tuple {
					if testedNonNil(e, b) {
						continue
					}
				}
			} else if testedNonNil(e, b) {
				continue
			}
		}
		of(ret.Results[0], e, map[ssa.Value]bool{})
	}
	return out
}

// neverNil: an error made on the spot.
func neverNil(e ssa.Value) bool {
	switch v := e.(type) {
	case *ssa.Call:
		g := v.Call.StaticCallee()
		return g != nil && (fullName(g) == "fmt.Errorf" || fullName(g) == "errors.New")
	case *ssa.MakeInterface:
		return true
	}
	return false
}

// testedNonNil: the block is only entered when the error is not nil.
func testedNonNil(e ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil {
			return false
		}
		i, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		l, rr := c.X, c.Y
		if k, ok := l.(*ssa.Const); ok && k.IsNil() {
			l, rr = rr, l
		}
		k, ok := rr.(*ssa.Const)
		if !ok || !k.IsNil() || l != e {
			continue
		}
		if c.Op.String() == "!=" && id.Succs[0] == d || c.Op.String() == "==" && id.Succs[1] == d {
			return true
		}
	}
	return false
}

func cutoff(st *State) bool {
	for a, v := range st.facts {
		if v && a.Op == "call" {
			if f, ok := a.Aux.(*ssa.Function); ok && f.Name() == "ShouldCutoff" {
				return true
			}
		}
	}
	return false
}

// generates: every value the Generate method returns is of the type.
func generates(r *R, typ string, gen *ssa.Function, consts map[int]*Term) {
	p := r.p
	own := recvName(gen)
	var texts []string
	for _, c := range consts {
		if s, ok := strConst(c); ok {
			texts = append(texts, s)
		}
	}
	kind := func(t *Term) bool {
		_, n, _, ok := fieldRead(strip(t))
		return ok && n == "Type"
	}
	x := newExec(p, Config{
		NoUnroll: true,
		Fact: func(a *Term) int {
			if a.Op == "call" {
				if f, ok := a.Aux.(*ssa.Function); ok && f.Name() == "ShouldCutoff" {
					return 1
				}
			}
			if l, e, ok := eqOperands(a); ok && (kind(l) || kind(e)) {
				return 1
			}
			return -1
		},
		// what is drawn does not matter here, only that drawing leaves the generator as it is
		Pure: func(g *ssa.Function) bool {
			return strings.HasSuffix(fnPkgPath(g), "/rand") && p.inRepo(g) || strings.HasSuffix(fnPkgPath(g), "/util")
		},
		Inline: func(g *ssa.Function) bool {
			if g.Pkg != gen.Pkg && g.Parent() == nil || g.Name() == "ShouldCutoff" || p.recursive(g) && g.Name() == "Generate" {
				return false
			}
			rs := g.Signature.Results()
			if rs.Len() == 0 {
				return false
			}
			_, basic := rs.At(0).Type().Underlying().(*types.Basic)
			return basic || types.IsInterface(rs.At(0).Type()) && !isErrT(rs.At(0).Type())
		},
	})
	for _, o := range x.Root(gen, nil) {
		if o.kind != "return" {
			continue
		}
		pos := p.instrPos(o.at)
		// the kind of generator the parser made
		skip := false
		for a, v := range o.st.facts {
			l, e, ok := eqOperands(a)
			if !ok {
				continue
			}
			if kind(e) {
				l, e = e, l
			}
			s, isS := strConst(e)
			if !kind(l) || !isS {
				continue
			}
			for _, t := range texts {
				if v != (s == t) {
					skip = true
				}
			}
		}
		if skip {
			continue
		}
		v := o.rets[0]
		if why := ofType(typ, x, o.st, v); why != "" {
			r.bad("yields", typ+" "+own+" "+pos, pos, "a generator of type %s yields %s (path: %s)", typ, why, trailOf(o.st))
		} else {
			r.ok("yields", typ+" "+own+" "+pos)
		}
	}
	r.exec(x, fullName(gen))
}

// ofType: why the value is not of the JSON type.
func ofType(typ string, x *Exec, st *State, v *Term) string {
	v = stripI(v)
	if v.isNil() || v.Op == "zero" && types.IsInterface(v.typ()) {
		if typ == "null" || cutoff(st) {
			return ""
		}
		return "null although the cutoff was not reached"
	}
	in := v
	t := in.typ()
	if types.IsInterface(t.Underlying()) {
		return in.String() + ", which may be anything"
	}
	b, isB := t.Underlying().(*types.Basic)
	switch {
	case isB && b.Info()&types.IsString != 0:
		if typ == "string" || diagnostic(in) {
			return ""
		}
		return "the text " + in.String()
	case isB && b.Info()&types.IsInteger != 0:
		if typ == "integer" || typ == "number" {
			return ""
		}
	case isB && b.Info()&types.IsFloat != 0:
		if typ == "number" || typ == "integer" && integral(in) {
			return ""
		}
	case isB && b.Info()&types.IsBoolean != 0:
		if typ == "boolean" {
			return ""
		}
	}
	switch t.Underlying().(type) {
	case *types.Map:
		if typ == "object" {
			return ""
		}
	case *types.Slice:
		if typ == "array" {
			return ""
		}
	}
	return "a value of Go type " + t.String()
}

// diagnostic: a text made from a fixed message.
func diagnostic(t *Term) bool {
	if callTo(t, "fmt.Sprintf", "fmt.Sprint") {
		return true
	}
	if t.Op == "call" && len(t.A) == 1 {
		if f, ok := t.Aux.(*ssa.Function); ok && f.Name() == "Error" {
			return true
		}
	}
	s, ok := strConst(t)
	return ok && len(s) > 8
}

// integral: a float without a fraction.
func integral(t *Term) bool {
	t = stripI(t)
	if t.isConst() {
		return !strings.Contains(t.cv().ExactString(), "/")
	}
	if callTo(t, "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.RoundToEven") {
		return true
	}
	if t.Op == "conv" && len(t.A) == 1 {
		b, ok := t.A[0].typ().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	return false
}

// fixedValue: a parser that returns a generator of one value, when started with the given constants.
func fixedValue(r *R, typ string, f *ssa.Function, consts map[int]*Term) {
	p := r.p
	x := newExec(p, Config{
		NoUnroll: true,
		Fact: func(a *Term) int {
			if l, e, ok := eqOperands(a); ok && (l.Op == "call" && isErrT(l.T) || e.Op == "call" && isErrT(e.T)) {
				return 1
			}
			return -1
		},
		Inline: func(g *ssa.Function) bool { return g.Pkg == f.Pkg && !p.recursive(g) && !p.leavesParser(g) },
	})
	found := false
	for _, o := range x.Root(f, func(st *State, params []*Term) {
		for i, c := range consts {
			if i < len(params) {
				st.env[f.Params[i]] = c
				params[i] = c
			}
		}
	}) {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		g := stripI(o.rets[0])
		if g.Op == "alloc" {
			g = x.load(o.st, g)
		}
		if !isRepoType(g.typ(), "constGenerator") {
			continue
		}
		found = true
		pos := p.instrPos(o.at)
		v := x.fieldNamed(g, structOf(g.typ()), "Value")
		if why := ofType(typ, x, o.st, v); why != "" {
			r.bad("yields", typ+" fixed "+pos, pos, "the parser of type %s may fix the value to %s (path: %s)", typ, why, trailOf(o.st))
		} else {
			r.ok("yields", typ+" fixed "+pos)
		}
	}
	if !found {
		r.bad("yields", typ+" fixed", "", "the fixed value of type %s cannot be told", typ)
	}
	r.exec(x, fullName(f))
}
