package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// C11: a not keeps the schema's own keywords.

func init() {
	register("C11", "For every field of the schema node the function that applies a not to a node is interpreted on all paths, with that field alone told apart and the table of steps it goes through unrolled. In the node it returns the field must be the node's own one, or be made from it: a bound must be at least as tight as the own one by the comparisons on the path (or the own one is at the end of the range), lists, maps and sub-schemas must contain the own ones or be the result of applying the not to them at the same name, and a part may only be missing where the path knows the node has none. The function that applies several nots must apply each to the result of the one before.",
		"whether what a not narrows is what it excludes; the position within a list; paths on which the not cannot be satisfied and an error is recorded; values worked out in advance that stand in for multipleOf and its bounds.", runC11)
}

var notKinds = map[string]string{
	"type": "from", "length": "same",
	"properties": "names", "additionalProperties": "parts", "patternProperties": "from",
	"minProperties": "lower", "maxProperties": "upper", "required": "from",
	"pattern": "same", "format": "same", "minLength": "lower", "maxLength": "upper",
	"minimum": "lower", "maximum": "upper", "multipleOf": "same",
	"items": "parts", "minItems": "lower", "maxItems": "upper", "contains": "from", "minContains": "lower", "maxContains": "upper",
	"prefixItems": "from", "additionalItems": "from", "unevaluatedItems": "parts", "uniqueItems": "same",
	"enum": "from", "const": "same",
	"allOf": "from", "anyOf": "from", "oneOf": "from",
	"$ref": "same", "$id": "same", "$defs": "from", "definitions": "from",
	"if": "from", "then": "from", "else": "from",
	"dependentRequired": "from", "dependentSchemas": "from",
	":constraintCollection": "from", ":ifStatement": "from", ":schemaNode": "from",
}

// notters: functions that apply one schema node to another and return what is left along with exclusions.
func (p *Prog) notters() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.allBodies() {
		if !p.inRepo(f) || f.Parent() != nil || f.Signature.Variadic() {
			continue
		}
		nodes, node, excl := 0, false, false
		for _, q := range f.Params {
			if isNodeT(q.Type()) {
				nodes++
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			node = node || isNodeT(t)
			excl = excl || typeName(deref(t)) == "constraintCollection"
		}
		if nodes == 2 && node && excl {
			out = append(out, f)
		}
	}
	return out
}

// tables: lists of functions in package variables that only the package's initialisation sets.
func (x *Exec) seedTables(pkg *ssa.Package) {
	if x.seed == nil {
		x.seed = map[*Term]*Term{}
	}
	var inits []*ssa.Function
	tables := map[*ssa.Global]bool{}
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if sl, ok := deref(g.Type()).Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
					tables[g] = true
				}
			}
		}
	}
	set := map[*ssa.Function]bool{}
	for _, f := range x.P.allBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !tables[g] {
					continue
				}
				if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
					if !set[f] {
						set[f] = true
						inits = append(inits, f)
					}
				} else {
					delete(tables, g)
				}
			}
		}
	}
	for _, f := range inits {
		// only the stores into the table matter
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := s.Addr.(*ssa.Global)
				if !ok || !tables[g] {
					continue
				}
				sl, ok := s.Val.(*ssa.Slice)
				if !ok || sl.Low != nil || sl.High != nil {
					continue
				}
				al, ok := sl.X.(*ssa.Alloc)
				if !ok {
					continue
				}
				n := deref(al.Type()).Underlying().(*types.Array).Len()
				es := make([]*Term, n)
				for _, r := range *al.Referrers() {
					ia, ok := r.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					i, ok := ia.Index.(*ssa.Const)
					if !ok {
						continue
					}
					k, _ := constant.Int64Val(i.Value)
					for _, q := range *ia.Referrers() {
						if st, ok := q.(*ssa.Store); ok {
							v := st.Val
							if ct, ok := v.(*ssa.ChangeType); ok {
								v = ct.X
							}
							if fn, ok := v.(*ssa.Function); ok {
								es[k] = x.T.mk("func", fn, 0, fn.Type(), nil, nil)
							}
						}
					}
				}
				whole := true
				for _, e := range es {
					whole = whole && e != nil
				}
				if whole {
					x.seed[x.T.mk("global", g, 0, g.Type(), nil, nil)] = x.T.mk("list", nil, 0, deref(g.Type()), nil, nil, es...)
				}
			}
		}
	}
}

type notRun struct {
	r      *R
	p      *Prog
	x      *Exec
	f      *ssa.Function
	st     *types.Struct
	idx    []int
	kind   string
	word   string
	own    *Term
	own2   int // how many of the fields the bound takes in
	m      *mergeRun
	has    map[*ssa.Function]bool
	acc    *loopAcc
	puts   map[*Term]bool // maps that get the entries of the own one
	kept   *Term
	gone   *Term
	lost   string
	heap   map[*Term]*Term
	epochs map[string]*Term
	saved  ssa.CallInstruction
	inits  map[*Term][]*Term
	held   map[*Term]map[*Term]bool
}

func runC11(r *R) {
	p := r.p
	fs := p.notters()
	if len(fs) == 0 {
		r.missing("the function that applies a not to a schema node")
		return
	}
	for _, f := range fs {
		var nt types.Type
		for _, q := range f.Params {
			if isNodeT(q.Type()) {
				nt = q.Type()
			}
		}
		st := nt.Underlying().(*types.Struct)
		at := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			at[nodeKey(st, i)] = i
		}
		r.fn(f)
		r.each(st.NumFields(), func(r *R, i int) {
			k := nodeKey(st, i)
			kind, known := notKinds[k]
			if !known {
				if k == "not" || k == "exclusiveMinimum" || k == "exclusiveMaximum" {
					return // judged with the field that takes it over
				}
				kind = "from"
			}
			idx, own2 := []int{i}, 1
			switch k {
			case "minimum":
				idx = append(idx, at["exclusiveMinimum"], at["maximum"], at["exclusiveMaximum"])
				own2 = 2
			case "maximum":
				idx = append(idx, at["exclusiveMaximum"], at["minimum"], at["exclusiveMinimum"])
				own2 = 2
			default:
				if kind == "lower" || kind == "upper" {
					idx = append(idx, at[other(k)])
				}
			case ":schemaNode":
				idx = append(idx, at["not"])
			}
			n := &notRun{r: r, p: p, f: f, st: st, idx: idx, kind: kind, word: strings.TrimPrefix(k, ":"), own2: own2, puts: map[*Term]bool{}}
			n.run()
		})
		sequence(r, f)
	}
	r.need("kept", 60)
}

func other(k string) string {
	if strings.HasPrefix(k, "min") {
		return "max" + k[3:]
	}
	return "min" + k[3:]
}

func (n *notRun) mine(i int) bool {
	for _, j := range n.idx {
		if i == j {
			return true
		}
	}
	return false
}

// isOwn: the value of one of the fields looked at in the node itself.
func (n *notRun) isOwn(t *Term) bool { return n.ownIdx(t) >= 0 }

func (n *notRun) ownIdx(t *Term) int {
	if t == nil {
		return -1
	}
	o, nm, b, ok := fieldRead(t)
	if !ok || o != "schemaNode" || b != n.own {
		return -1
	}
	for _, j := range n.idx {
		if n.st.Field(j).Name() == nm {
			return j
		}
	}
	return -1
}

func (n *notRun) isAny(t *Term) bool {
	o, nm, _, ok := fieldRead(t)
	if !ok || o != "schemaNode" {
		return false
	}
	for _, j := range n.idx {
		if n.st.Field(j).Name() == nm {
			return true
		}
	}
	return false
}

func (n *notRun) run() {
	p := n.p
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			return g != n.f && p.inRepo(g) && !isRecorder(g) && recvName(g) == ""
		},
		Blur: func(t *types.Struct, i int) bool { return t == n.st && !n.mine(i) },
		Fact: func(t *Term) int {
			if t.any(n.isAny) {
				return 1
			}
			if n.kind == "names" && t.any(nodeMap) {
				return 1
			}
			return -1
		},
		Pure:     func(g *ssa.Function) bool { return appliesNot(g) || n.extreme(g) != "" },
		LoopMods: func(l *Loop, mods map[string]bool) map[string]bool { return n.loopMods(l, mods) },
		OnOpaque: func(ev *CallEvent, _ []*Term) { n.restore(ev) },
		Max:      2000000,
	})
	n.x = x
	x.blurKeys = map[string]bool{}
	var names []string
	for i := 0; i < n.st.NumFields(); i++ {
		if n.mine(i) {
			names = append(names, n.st.Field(i).Name())
		} else {
			x.blurKeys["schemaNode."+n.st.Field(i).Name()] = true
		}
	}
	x.seedTables(n.f.Pkg)
	n.m = &mergeRun{r: n.r, p: p, x: x, f: n.f, st: n.st, idx: n.idx, cells: map[*Term][]*Term{}}
	n.acc = newLoopAcc(x)
	n.held = map[*Term]map[*Term]bool{}
	n.inits = map[*Term][]*Term{}
	x.cfg.OnEntry = func(lv, v *Term) {
		for _, q := range n.inits[lv] {
			if q == v {
				return
			}
		}
		if len(n.inits[lv]) < 20 {
			n.inits[lv] = append(n.inits[lv], v)
		}
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) { n.acc.onBack(st, fr, l) }
	has := p.touching(func(in ssa.Instruction) bool { return usesField(in, "schemaNode", names...) }, func(g *ssa.Function) bool { return g == n.f })
	n.has = has
	x.cfg.OnCall = func(ev *CallEvent) bool { return n.onCall(ev, has) }
	x.cfg.OnInstr = n.onInstr
	x.cfg.OnFact = func(st *State, a *Term, v bool, at ssa.Instruction) {
		if l, e, ok := eqOperands(a); ok && !v && (l.isNil() || e.isNil()) && at != nil && at.Parent() == n.f {
			q := l
			if q.isNil() {
				q = e
			}
			if q.T != nil && isErrT(q.T) {
				st.mon["failed"] = "1"
			}
		}
	}
	outs := x.Root(n.f, func(st *State, ps []*Term) {
		n.kept = x.T.mk("param", n.f.Params[0], 5001, n.st.Field(n.idx[0]).Type(), nil, nil)
		n.gone = x.T.mk("param", n.f.Params[0], 5003, n.st.Field(n.idx[0]).Type(), nil, nil)
		for _, q := range ps {
			if n.own == nil && isNodeT(q.T) {
				n.own = q
			}
		}
	})
	n.r.exec(x, n.word)
	for _, o := range outs {
		if o.kind == "return" {
			n.result(o)
		}
	}
}

func (n *notRun) onCall(ev *CallEvent, has map[*ssa.Function]bool) bool {
	if ev.Callee == nil || !n.p.inRepo(ev.Callee) {
		return false
	}
	if isRecorder(ev.Callee) {
		ev.St.mon["reported"] = "1"
		return true
	}
	touches := has[ev.Callee]
	for _, a := range ev.Args {
		if n.reach(ev.St, a, 4, n.isAny) {
			touches = true
		}
	}
	if ev.Callee == n.f {
		n.save(ev)
		return true
	}
	if !touches {
		if smallLeaf(n.p, ev.Callee) {
			return false
		}
		if reports(n.p, ev.Callee) {
			ev.St.mon["reported"] = "1"
		}
		n.save(ev)
		return true
	}
	// values worked out in advance
	sig := ev.Callee.Signature
	if sig.Results().Len() > 0 && !has[ev.Callee] {
		if sl, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				return true
			}
		}
	}
	return false
}

// smallLeaf: a few blocks without a loop that call nothing of the repository.
func smallLeaf(p *Prog, g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Blocks) > 6 {
		return false
	}
	for _, b := range g.Blocks {
		if inCycle(b) {
			return false
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				if c := in.Common().StaticCallee(); c == nil || p.inRepo(c) {
					if _, ok := in.Common().Value.(*ssa.Builtin); !ok {
						return false
					}
				}
			case *ssa.Store, *ssa.MapUpdate:
				if s, ok := in.(*ssa.Store); !ok || !localCell(s.Addr) {
					return false
				}
			}
		}
	}
	return true
}

func localCell(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// reports: the function calls a recorder itself.
func reports(p *Prog, g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && isRecorder(f) {
					return true
				}
			}
		}
	}
	return false
}

// appliesNot: two nodes go in, one comes out.
func appliesNot(g *ssa.Function) bool {
	k := 0
	for _, q := range g.Params {
		if isNodeT(q.Type()) {
			k++
		}
	}
	return k == 2 && g.Signature.Results().Len() > 0 && isNodeT(g.Signature.Results().At(0).Type()) && g.Signature.Recv() == nil
}

// loopMods: a loop only changes the fields looked at if something in it does, other than by making
// a node of its own.
func (n *notRun) loopMods(l *Loop, mods map[string]bool) map[string]bool {
	out := map[string]bool{}
	for k := range mods {
		out[k] = true
	}
	for _, i := range n.idx {
		nm := n.st.Field(i).Name()
		hit := false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()) == n.st && fa.Field == i {
						hit = true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					fns, _ := n.p.calleesOf(c)
					for _, g := range fns {
						hit = hit || n.has[g] && g != n.f && !appliesNot(g)
					}
				}
			}
		}
		if !hit {
			delete(out, "schemaNode."+nm)
		}
	}
	return out
}

// extreme: a function that picks the largest ("lower") or the smallest ("upper") of the numbers it
// is given pointers to.
func (n *notRun) extreme(g *ssa.Function) string {
	g = originOf(g)
	extremes.Lock()
	defer extremes.Unlock()
	if v, ok := extremes.m[g]; ok {
		return v
	}
	extremes.m[g] = extremeOf(n.p, g)
	return extremes.m[g]
}

var extremes = struct {
	sync.Mutex
	m map[*ssa.Function]string
}{m: map[*ssa.Function]string{}}

func extremeOf(p *Prog, g *ssa.Function) string {
	if !p.inRepo(g) || !g.Signature.Variadic() || len(g.Params) != 1 || g.Signature.Results().Len() != 1 || len(g.Blocks) == 0 {
		return ""
	}
	sl, ok := g.Params[0].Type().Underlying().(*types.Slice)
	if !ok || !types.Identical(sl.Elem(), g.Signature.Results().At(0).Type()) {
		return ""
	}
	if _, ok := sl.Elem().Underlying().(*types.Pointer); !ok {
		return ""
	}
	x := newExec(p, Config{Inline: func(*ssa.Function) bool { return false }, Fact: func(*Term) int { return 1 }})
	a := x.T.mk("param", g.Params[0], 2000, sl.Elem(), nil, nil)
	b := x.T.mk("param", g.Params[0], 2001, sl.Elem(), nil, nil)
	outs := x.Root(g, func(st *State, ps []*Term) {
		ps[0] = x.T.mk("list", nil, 0, g.Params[0].Type(), nil, nil, a, b)
	})
	if x.fail != "" || len(outs) == 0 {
		return ""
	}
	lower, upper := true, true
	for _, o := range outs {
		if o.kind != "return" {
			return ""
		}
		v := o.rets[0]
		if v != a && v != b {
			if !(v.isNil() || x.knownNil(o.st, v)) || !x.knownNil(o.st, a) || !x.knownNil(o.st, b) {
				return ""
			}
			continue
		}
		if !x.knownNonNil(o.st, v) {
			return ""
		}
		w := a
		if v == a {
			w = b
		}
		if x.knownNil(o.st, w) {
			continue
		}
		vc, wc := x.load(o.st, v), x.load(o.st, w)
		gr := newOrder(x, o.st, vc, wc)
		lower = lower && gr.leq(wc, vc)
		upper = upper && gr.leq(vc, wc)
	}
	switch {
	case lower && !upper:
		return "lower"
	case upper && !lower:
		return "upper"
	}
	return ""
}

// save, restore: a function that does not touch the fields looked at, or that makes a node of its
// own, leaves those of the node at hand alone.
func (n *notRun) save(ev *CallEvent) {
	n.heap, n.epochs = map[*Term]*Term{}, map[string]*Term{}
	for k, v := range ev.St.heap {
		if n.nodeCell(k) {
			n.heap[k] = v
		}
	}
	for _, i := range n.idx {
		e := "schemaNode." + n.st.Field(i).Name()
		n.epochs[e] = ev.St.epochs[e]
	}
	n.saved = ev.In
}

func (n *notRun) nodeCell(k *Term) bool {
	if k.Op == "faddr" {
		return k.A[0].T != nil && isNodeT(deref(k.A[0].T)) && n.mine(k.N)
	}
	return k.Op == "alloc" && isNodeT(deref(k.T))
}

func (n *notRun) restore(ev *CallEvent) {
	if n.saved != ev.In {
		return
	}
	n.saved = nil
	for k := range ev.St.heap {
		if n.nodeCell(k) {
			delete(ev.St.heap, k)
		}
	}
	for k, v := range n.heap {
		ev.St.heap[k] = v
	}
	for k, v := range n.epochs {
		if v == nil {
			delete(ev.St.epochs, k)
		} else {
			ev.St.epochs[k] = v
		}
	}
}

func (n *notRun) onInstr(st *State, fr *frame, in ssa.Instruction) {
	x := n.x
	switch in := in.(type) {
	case *ssa.If:
		b, ok := in.Cond.(*ssa.BinOp)
		if !ok || fr.fn != n.f || !isErrT(b.X.Type()) {
			return
		}
		if e := x.val(st, b.X); x.knownNonNil(st, e) {
			st.mon["failed"] = "1"
		}
	case *ssa.Store:
		if a := x.val(st, in.Addr); a.Op == "alloc" && isBasicT(deref(a.T)) {
			if n.held[a] == nil {
				n.held[a] = map[*Term]bool{}
			}
			n.held[a][x.val(st, in.Val)] = true
		}
		n.stored(st, in)
		if a := x.val(st, in.Addr); a.Op == "iaddr" || a.Op == "alloc" && !isNodeT(deref(a.T)) {
			v := x.val(st, in.Val)
			for _, q := range n.m.cells[a] {
				if q == v {
					return
				}
			}
			n.m.cells[a] = append(n.m.cells[a], v)
		}
	case *ssa.MapUpdate:
		if n.kind == "names" && isNodeT(in.Value.Type()) {
			n.entry(st, x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value), n.p.instrPos(in))
		}
	}
}

// stored: a field of the new node is set.
func (n *notRun) stored(st *State, in *ssa.Store) {
	x := n.x
	fa, ok := in.Addr.(*ssa.FieldAddr)
	if !ok || structOf(fa.X.Type()) != n.st {
		return
	}
	a := x.val(st, in.Addr)
	if a.Op != "faddr" || a.A[0].Op != "alloc" || a.A[0].Site.(*ssa.Alloc).Parent() != n.f {
		return
	}
	v := x.val(st, in.Val)
	standsIn := n.word == "multipleOf" || n.word == "minimum" || n.word == "maximum"
	if standsIn && fieldTag(n.st, fa.Field) == "enum" && x.knownNonNil(st, v) && n.reach(st, v, 6, func(t *Term) bool {
		if t.Op != "call" && t.Op != "pcall" || t.T == nil {
			return false
		}
		sl, ok := t.T.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := sl.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0
	}) {
		st.mon["precomputed"] = "1"
	}
	if n.kind != "lower" && n.kind != "upper" || !n.mine(fa.Field) {
		return
	}
	if _, c := in.Val.(*ssa.Const); c {
		return
	}
	if fa.Field == n.idx[0] {
		if v == n.kept || v == n.gone {
			return
		}
		kept := n.kept
		if why := n.bound(st, v); why != "" {
			// judged when the function returns
			n.lost = why + " (" + trailOf(st) + ")"
			kept = n.gone
		}
		for f := range st.facts {
			if f.any(n.isAny) {
				delete(st.facts, f)
			}
		}
		n.cut(st, in.Val)
		for k := range st.heap {
			if k.Op == "alloc" && isBasicT(deref(k.T)) {
				delete(st.heap, k)
			}
		}
		st.env[in.Val] = kept
		return
	}
	st.env[in.Val] = x.T.mk("param", in.Val, 5000, in.Val.Type(), nil, nil)
}

// cut: what else the call gave that the value comes from is not told apart from here on.
func (n *notRun) cut(st *State, v ssa.Value) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return
	}
	for _, r := range *e.Tuple.Referrers() {
		o, ok := r.(*ssa.Extract)
		if !ok || o == e || n.goesIn(o) || st.env[o] == nil {
			continue
		}
		st.env[o] = n.x.T.mk("param", o, 5002, o.Type(), nil, nil)
	}
}

func isBasicT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// holds: what was put in a cell that the path no longer tells apart, in its weakest form.
func (n *notRun) holds(q, c *Term, k string) *Term {
	var w *Term
	for v := range n.held[q] {
		if w == nil {
			w = v
			continue
		}
		bw, kw := base(w)
		bv, kv := base(v)
		if bw != bv {
			return c
		}
		if k == "lower" && kv < kw || k == "upper" && kv > kw {
			w = v
		}
	}
	if w == nil {
		return c
	}
	return w
}

// goesIn: the value is stored in one of the fields looked at.
func (n *notRun) goesIn(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if s, ok := r.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()) == n.st && n.mine(fa.Field) {
				return true
			}
		}
	}
	return false
}

// nodeMap: a map of schema nodes made here.
func nodeMap(t *Term) bool {
	if t.Op != "makemap" || t.T == nil {
		return false
	}
	m, ok := t.T.Underlying().(*types.Map)
	return ok && isNodeT(m.Elem())
}

// entry: what is put under a name is made from the node's own entry of that name, if it has one.
func (n *notRun) entry(st *State, mp, k, v *Term, pos string) {
	if n.made(st, k, 4, n.isOwn) {
		n.puts[mp] = true
	}
	ownEntry := func(t *Term) bool {
		return t.Op == "lookup" && t.A[1] == k && n.reach(st, t.A[0], 2, n.isOwn)
	}
	if n.reach(st, v, 4, ownEntry) || v.any(func(t *Term) bool { return t.Op == "next" && t.Aux == "val" && t.any(n.isOwn) }) {
		n.r.ok("entry", n.word+" "+trailKey(st))
		return
	}
	for a, val := range st.facts {
		if a.Op == "lookupok" && !val && a.A[1] == k && n.reach(st, a.A[0], 2, n.isOwn) {
			n.r.ok("entry", n.word+" absent "+trailKey(st))
			return
		}
	}
	if n.absent(st, n.ownField(n.idx[0])) {
		n.r.ok("entry", n.word+" none "+trailKey(st))
		return
	}
	n.r.bad("kept", n.word+":entry", pos, "the entry of %s under a name is %s, which is not made from the schema's own entry (%s)", n.word, v, trailOf(st))
}

func (n *notRun) ownField(i int) *Term { return n.x.field(n.own, n.st, i) }

// absent: the path knows that there is nothing.
func (n *notRun) absent(st *State, t *Term) bool {
	x := n.x
	if t.T == nil {
		return false
	}
	switch u := t.T.Underlying().(type) {
	case *types.Pointer:
		if x.knownNil(st, t) {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Slice, *types.Map:
			return x.knownNonNil(st, t) && n.empty(st, x.load(st, t))
		}
		return false
	case *types.Interface:
		return x.knownNil(st, t)
	case *types.Slice, *types.Map:
		return x.knownNil(st, t) || n.empty(st, t)
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			v, k := x.decide(st, t)
			return k && !v
		}
		b := types.Typ[types.Bool]
		if u.Info()&types.IsString != 0 {
			v, k := x.decide(st, x.bin("==", x.lenOf(st, t), x.T.Int(0), b))
			return k && v
		}
	}
	return false
}

func (n *notRun) empty(st *State, t *Term) bool {
	_, hi := n.x.interval(st, n.x.lenOf(st, t))
	return hi != nil && constant.Sign(hi) <= 0
}

func (n *notRun) result(o Outcome) {
	if o.st.mon["failed"] != "" {
		n.r.ok("kept", n.word+" unless an error is returned "+trailKey(o.st))
		return
	}
	var v *Term
	for i, t := range o.rets {
		if isNodeT(n.f.Signature.Results().At(i).Type()) {
			v = t
		}
	}
	if why := n.judge(o.st, v); why != "" {
		n.r.bad("kept", n.word, n.p.instrPos(o.at), "%s of the schema is lost when a not is applied: %s (%s)", n.word, why, trailOf(o.st))
	} else {
		n.r.ok("kept", n.word+" "+trailKey(o.st))
	}
}

func (n *notRun) judge(st *State, node *Term) string {
	x := n.x
	v := x.field(node, n.st, n.idx[0])
	own := n.ownField(n.idx[0])
	if v == own {
		if len(n.idx) == 1 || n.kind == "from" || n.kind == "same" {
			if n.word != "schemaNode" {
				return ""
			}
		}
	}
	switch n.kind {
	case "same":
		if n.absent(st, own) || n.sameContent(st, v, own) || x.knownNil(st, v) && st.mon["precomputed"] != "" {
			return ""
		}
		return "it is " + v.String() + ", not the schema's own"
	case "names":
		if n.absent(st, own) || n.reach(st, v, 4, func(t *Term) bool { return n.isOwn(t) || n.puts[t] }) {
			return ""
		}
		for f := range st.facts {
			if x.knownNil(st, v) && f.any(func(t *Term) bool { return nodeMap(t) && n.empty(st, t) }) {
				return ""
			}
		}
		return "it is " + v.String() + ", which is not made from the schema's own"
	case "from":
		for _, i := range n.idx {
			of := n.ownField(i)
			if n.absent(st, of) || n.made(st, v, 5, func(t *Term) bool { return n.ownIdx(t) == i }) {
				continue
			}
			return "it is " + v.String() + ", which is not made from the schema's own"
		}
		return ""
	case "parts":
		return n.parts(st, v, own)
	case "lower", "upper":
		if v == n.kept {
			return ""
		}
		if v == n.gone {
			return n.lost
		}
		return n.bound(st, v)
	}
	return "?"
}

// reach: such a term can be got to from this one, through lists and cells.
func (n *notRun) reach(st *State, t *Term, d int, is func(*Term) bool) bool {
	seen := map[*Term]int{}
	var walk func(t *Term, d int) bool
	walk = func(t *Term, d int) bool {
		if t == nil {
			return false
		}
		if k, ok := seen[t]; ok && k >= d {
			return false
		}
		seen[t] = d
		if is(t) {
			return true
		}
		for _, a := range t.A {
			if walk(a, d) {
				return true
			}
		}
		if d == 0 {
			return false
		}
		if l, ok := n.x.asList(st, t); ok && l != t && walk(l, d-1) {
			return true
		}
		if t.Op == "havoc" && len(t.A) > 0 {
			for _, c := range n.m.cells[t.A[0]] {
				if walk(c, d-1) {
					return true
				}
			}
		}
		if t.Op == "alloc" {
			if v, ok := n.x.cell(st, t); ok && walk(v, d-1) {
				return true
			}
		}
		return false
	}
	return walk(t, d)
}

// made: v contains, points to, or is put together in a loop from such a term.
func (n *notRun) made(st *State, v *Term, d int, is func(*Term) bool) bool {
	return n.reach(st, v, d, func(t *Term) bool {
		if is(t) {
			return true
		}
		if d > 0 && (t.Op == "loopvar" || t.Op == "havoc") {
			for _, q := range n.inits[t] {
				if n.made(st, q, d-1, is) {
					return true
				}
			}
			for _, it := range n.acc.iters[t] {
				for _, q := range it.added {
					if n.made(it.st, q, d-1, is) {
						return true
					}
				}
			}
		}
		return false
	})
}

// sameContent: another pointer to the same value.
func (n *notRun) sameContent(st *State, v, own *Term) bool {
	if v == own {
		return true
	}
	x := n.x
	if _, ok := own.T.Underlying().(*types.Pointer); !ok || !x.knownNonNil(st, v) {
		if b, ok := v.T, true; ok && b != nil && n.reach(st, v, 3, n.isOwn) {
			// combined with the not's, as a flag is
			return true
		}
		return false
	}
	c, k := x.load(st, v), x.load(st, own)
	if c == k {
		return true
	}
	val, known := x.decide(st, x.bin("==", c, k, types.Typ[types.Bool]))
	if known && val {
		return true
	}
	return n.reach(st, c, 3, n.isOwn)
}

func (n *notRun) parts(st *State, v, own *Term) string {
	x := n.x
	if n.absent(st, own) || n.sameContentPtr(st, v, own) {
		return ""
	}
	s, ok := deref(own.T).Underlying().(*types.Struct)
	if !ok {
		return "it is kept in an unknown form"
	}
	oc := x.load(st, own)
	var vc *Term
	if x.knownNonNil(st, v) {
		vc = x.load(st, v)
	}
	for i := 0; i < s.NumFields(); i++ {
		of := x.field(oc, s, i)
		if n.absent(st, of) {
			continue
		}
		if vc == nil {
			return s.Field(i).Name() + " is dropped"
		}
		vf := x.field(vc, s, i)
		if vf == of || n.reach(st, vf, 5, func(t *Term) bool { return t == of || t.Op == "load" && t.A[0] == of }) {
			continue
		}
		if isBoolT(of.T) {
			if val, known := x.decide(st, vf); known && val {
				continue
			}
			// a schema that rules everything out has no other part
		}
		return s.Field(i).Name() + " becomes " + vf.String()
	}
	return ""
}

func (n *notRun) sameContentPtr(st *State, v, own *Term) bool {
	return v == own || n.x.knownNonNil(st, v) && n.x.knownNonNil(st, own) && n.x.load(st, v) == n.x.load(st, own)
}

// bound: the new bound is at least as tight as each own one.
func (n *notRun) bound(st *State, v *Term) string {
	x := n.x
	for k, i := range n.idx {
		if k >= n.own2 {
			break
		}
		own := n.ownField(i)
		if n.absent(st, own) || v == own || n.noneOf(st, own) {
			continue
		}
		oc := x.load(st, own)
		if n.picks(v) == n.kind && n.among(st, v, own, oc) {
			continue
		}
		if st.mon["reported"] != "" && !x.knownNil(st, v) {
			continue
		}
		if !x.knownNonNil(st, v) {
			if x.knownNil(st, v) && st.mon["precomputed"] != "" {
				continue
			}
			if x.knownNil(st, v) && n.far(st, oc) {
				continue
			}
			return n.st.Field(i).Name() + " is dropped (" + v.String() + ")"
		}
		vc := x.load(st, v)
		if n.tight(st, vc, oc) {
			continue
		}
		return "the path does not show that " + vc.String() + " is at least as tight as " + oc.String()
	}
	return ""
}

// noneOf: the largest or smallest of several is known not to exist, the own one among them.
func (n *notRun) noneOf(st *State, own *Term) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || !v || !l.isNil() && !e.isNil() {
			continue
		}
		q := l
		if q.isNil() {
			q = e
		}
		if n.picks(q) == "" {
			continue
		}
		for _, t := range q.A[0].A {
			if n.x.knownNonNil(st, t) {
				return true // the path does not exist
			}
			if t == own || n.reach(st, t, 2, func(z *Term) bool { return z == own }) {
				return true
			}
		}
	}
	return false
}

// among: the own bound, or one as tight, is among those the extreme is picked from.
func (n *notRun) among(st *State, v, own, oc *Term) bool {
	for _, q := range v.A[0].A {
		if q == own {
			return true
		}
		if q.Op == "alloc" && n.tight(st, n.x.load(st, q), oc) {
			return true
		}
	}
	return false
}

// picks: the term is the largest or smallest of a list.
func (n *notRun) picks(t *Term) string {
	if t.Op != "pcall" || len(t.A) != 1 || t.A[0].Op != "list" {
		return ""
	}
	f, ok := t.Aux.(*ssa.Function)
	if !ok {
		return ""
	}
	return n.extreme(f)
}

// far: the own bound lies at the end of the range, where it has no effect.
func (n *notRun) far(st *State, oc *Term) bool {
	g := newOrderWith(n.x, st, n.picks, n.holds, oc)
	for _, c := range g.consts {
		f, _ := constant.Float64Val(constant.ToFloat(c.cv()))
		if n.kind == "lower" && f <= -(1<<30) && g.leq(oc, c) {
			return true
		}
		if n.kind == "upper" && f >= 1<<30 && g.leq(c, oc) {
			return true
		}
	}
	return false
}

func (n *notRun) tight(st *State, v, own *Term) bool {
	if v == own {
		return true
	}
	if isNum(v) { // nothing is tighter than the end of the range
		far := 1e300
		if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			far = 1 << 30
		}
		f, _ := constant.Float64Val(constant.ToFloat(v.cv()))
		if n.kind == "lower" && f >= far || n.kind == "upper" && f <= -far {
			return true
		}
	}
	g := newOrderWith(n.x, st, n.picks, n.holds, v, own)
	if n.kind == "lower" {
		return g.leq(own, v)
	}
	return g.leq(v, own)
}

// order: what the comparisons on a path say about the order of values.
type order struct {
	x      *Exec
	id     map[*Term]int
	ts     []*Term
	d      [][]float64 // ts[i] <= ts[j] + d[i][j]
	consts []*Term
}

const inf = 1e300

// base: t is base + k.
func base(t *Term) (*Term, float64) {
	k := 0.0
	for t.Op == "bin" && (t.Aux == "+" || t.Aux == "-") {
		a, b := t.A[0], t.A[1]
		if isNum(b) {
			f, _ := constant.Float64Val(constant.ToFloat(b.cv()))
			if t.Aux == "-" {
				f = -f
			}
			k += f
			t = a
			continue
		}
		if isNum(a) && t.Aux == "+" {
			f, _ := constant.Float64Val(constant.ToFloat(a.cv()))
			k += f
			t = b
			continue
		}
		break
	}
	return t, k
}

func newOrder(x *Exec, st *State, more ...*Term) *order {
	return newOrderWith(x, st, nil, nil, more...)
}

func newOrderWith(x *Exec, st *State, picks func(*Term) string, held func(q, c *Term, k string) *Term, more ...*Term) *order {
	g := &order{x: x, id: map[*Term]int{}}
	type edge struct {
		a, b *Term
		k    float64
	}
	var es []edge
	node := func(t *Term) {
		if _, ok := g.id[t]; !ok {
			g.id[t] = len(g.ts)
			g.ts = append(g.ts, t)
			if isNum(t) {
				g.consts = append(g.consts, t)
			}
		}
	}
	le := func(a, b *Term, k float64) { // a <= b + k
		ba, ka := base(a)
		bb, kb := base(b)
		node(ba)
		node(bb)
		es = append(es, edge{ba, bb, kb - ka + k})
	}
	isInt := func(t *Term) bool {
		if t.T == nil {
			return false
		}
		b, ok := t.T.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	}
	for a, v := range st.facts {
		if a.Op != "bin" {
			continue
		}
		l, r := a.A[0], a.A[1]
		op := a.Aux
		switch op { // not a number is left aside
		case ">":
			l, r, op = r, l, "<"
		case ">=":
			l, r, op = r, l, "<="
		}
		if op == "<=" {
			l, r, op, v = r, l, "<", !v
		}
		switch op {
		case "<":
			if v {
				k := 0.0
				if isInt(l) || isInt(r) {
					k = -1
				}
				le(l, r, k)
			} else {
				le(r, l, 0)
			}
		case "==":
			if v && l.T != nil && r.T != nil && !l.isNil() && !r.isNil() && (isInt(l) || isNum(l) || isNum(r)) {
				le(l, r, 0)
				le(r, l, 0)
			}
		}
	}
	for _, t := range more {
		b, _ := base(t)
		node(b)
	}
	if picks != nil {
		for _, t := range append([]*Term(nil), g.ts...) {
			if t.Op != "load" {
				continue
			}
			k := picks(t.A[0])
			if k == "" {
				continue
			}
			for _, q := range t.A[0].A[0].A {
				if x.knownNil(st, q) || q.isNil() {
					continue
				}
				c := x.load(st, q)
				if c.Op == "load" && held != nil {
					c = held(q, c, k)
				}
				if k == "lower" {
					le(c, t, 0)
				} else {
					le(t, c, 0)
				}
			}
		}
	}
	// constants among themselves
	for i, a := range g.consts {
		for _, b := range g.consts[i+1:] {
			fa, _ := constant.Float64Val(constant.ToFloat(a.cv()))
			fb, _ := constant.Float64Val(constant.ToFloat(b.cv()))
			if fa <= fb {
				es = append(es, edge{a, b, 0})
			} else {
				es = append(es, edge{b, a, 0})
			}
		}
	}
	m := len(g.ts)
	g.d = make([][]float64, m)
	for i := range g.d {
		g.d[i] = make([]float64, m)
		for j := range g.d[i] {
			if i != j {
				g.d[i][j] = inf
			}
		}
	}
	for _, e := range es {
		i, j := g.id[e.a], g.id[e.b]
		if e.k < g.d[i][j] {
			g.d[i][j] = e.k
		}
	}
	for k := 0; k < m; k++ {
		for i := 0; i < m; i++ {
			if g.d[i][k] >= inf {
				continue
			}
			for j := 0; j < m; j++ {
				if g.d[k][j] < inf && g.d[i][k]+g.d[k][j] < g.d[i][j] {
					g.d[i][j] = g.d[i][k] + g.d[k][j]
				}
			}
		}
	}
	return g
}

// leq: a <= b.
func (g *order) leq(a, b *Term) bool {
	ba, ka := base(a)
	bb, kb := base(b)
	i, ok1 := g.id[ba]
	j, ok2 := g.id[bb]
	if !ok1 || !ok2 || g.d[i][j] >= inf {
		return false
	}
	// ba <= bb + d, so a = ba + ka <= bb + d + ka = b - kb + d + ka
	return g.d[i][j]+ka-kb <= 1e-9
}

// sequence: every not is applied to what the one before left.
func sequence(r *R, f *ssa.Function) {
	p := r.p
	ni := -1
	for i, q := range f.Params {
		if isNodeT(q.Type()) {
			ni = i
			break
		}
	}
	for _, c := range p.callersOf(f) {
		fn := c.Parent()
		cv, ok := c.(*ssa.Call)
		if !ok || ni < 0 || ni >= len(c.Common().Args) {
			continue
		}
		if !inCycle(cv.Block()) {
			continue
		}
		arg := c.Common().Args[ni]
		key := shortFn(fn) + ":" + p.instrPos(cv)
		if feeds(cv, arg) {
			r.ok("one after the other", key)
		} else {
			r.bad("one after the other", shortFn(fn), p.instrPos(cv), "in %s each not is applied to the same schema, so that only the last one has an effect", shortFn(fn))
		}
	}
}

func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(q *ssa.BasicBlock) bool
	walk = func(q *ssa.BasicBlock) bool {
		for _, s := range q.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

// feeds: the result of the call reaches the operand of the next one.
func feeds(c *ssa.Call, arg ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value) bool
	back = func(v ssa.Value) bool {
		if v == ssa.Value(c) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch u := v.(type) {
		case *ssa.Phi:
			for _, e := range u.Edges {
				if back(e) {
					return true
				}
			}
		case *ssa.Extract:
			return back(u.Tuple)
		case *ssa.UnOp:
			if u.Op == token.MUL {
				return stored(u.X, back, map[ssa.Value]bool{})
			}
		}
		return false
	}
	return back(arg)
}

func stored(addr ssa.Value, back func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	if seen[addr] || addr.Referrers() == nil {
		return false
	}
	seen[addr] = true
	for _, r := range *addr.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == addr && back(s.Val) {
			return true
		}
	}
	if ia, ok := addr.(*ssa.IndexAddr); ok {
		return stored(ia.X, back, seen)
	}
	return false
}
