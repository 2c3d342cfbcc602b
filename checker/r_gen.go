package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C05", "Every Generate method is interpreted on all paths with its helpers inlined. Where a generator found in the table of references is run, the path must have established that the number of references being followed does not exceed MaximumReferenceDepth, and that the key of this very reference is not among them (or BypassCyclicReferenceCheck is set), and the key must have been added before. Every change of the list adds the key of the reference or takes one entry off, and the sum of changes is zero on every way out of every Generate and Apply method.",
		"whether two differently spelled references name the same schema.", runC05)
	register("C08", "In the Generate method of every generator that owns a collection of sub-generators or a table of references, each path adds at least one step to the step counter and then establishes that the cutoff is not passed (not 0 < CutoffGenerationSteps < counter) before it calls Generate on anything; every path on which the cutoff is passed returns null. Every store to the counter anywhere adds a non-negative constant to it or initialises a fresh options value.",
		"generators outside of the repository; work done inside one step.", runC08)
}

// generatorIface: the interface of things that generate values.
func (p *Prog) generatorIface() *types.Interface { return p.iface("", "Generator") }

func (p *Prog) generateImpls() []*ssa.Function {
	it := p.generatorIface()
	if it == nil {
		return nil
	}
	return p.implementations(it, "Generate")
}

// constraintIface: the interface with an Apply method over generated values.
func (p *Prog) constraintApplies() []*ssa.Function {
	sc := p.Repo[""].Pkg.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "Apply" {
				return p.implementations(it, "Apply")
			}
		}
	}
	return nil
}

// genInline: helpers of the generating side that do not themselves run sub-generators through recursion.
func (p *Prog) genInline(f *ssa.Function) bool {
	if f.Name() == "Generate" || f.Name() == "String" {
		return false
	}
	return !p.recursive(f) || p.ownCycle(f)
}

// ownCycle: the function is only recursive through Generate methods of generators.
func (p *Prog) ownCycle(f *ssa.Function) bool {
	if !p.inRepo(f) {
		return false
	}
	it := p.generatorIface()
	if it == nil {
		return false
	}
	// reaches itself without passing a Generate method?
	from := p.reach(p.callGraph()[f], func(g *ssa.Function) bool { return g.Name() == "Generate" })
	_, self := from[f]
	return !self
}

func isGenerate(f *ssa.Function) bool { return f.Name() == "Generate" }

// relevantFacts keeps only branch facts that mention something the rule is about.
func relevantFacts(rel func(*Term) bool) func(*Term) int {
	memo := map[*Term]int{}
	return func(a *Term) int {
		if v, ok := memo[a]; ok {
			return v
		}
		v := -1
		if a.any(rel) {
			v = 1
		}
		memo[a] = v
		return v
	}
}

func optField(t *Term, name string) bool { return isField(strip(t), "GeneratorOptions", name) }

// isResolutions: the list of references being followed.
func isResolutions(t *Term) bool {
	o, n, _, ok := fieldRead(t)
	return ok && o == "referenceResolver" && n == "resolutions"
}

func isResolutionsAddr(a *Term) bool {
	return a.Op == "faddr" && ownerName(a) == "referenceResolver" && fieldName(a) == "resolutions"
}

// resolutionsMonitor counts additions to and removals from the list of references being followed.
type resMon struct {
	x   *Exec
	r   *R
	key string
	// called for every added key
	onPush func(st *State, key *Term, at ssa.Instruction)
	init   map[*Term]bool
}

const monRes = "resolutions"

func (m *resMon) instr(st *State, fr *frame, in ssa.Instruction) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	x := m.x
	a := x.val(st, s.Addr)
	if !isResolutionsAddr(a) {
		return
	}
	if rootTerm(a).Op == "alloc" {
		return // a fresh resolver
	}
	v := x.val(st, s.Val)
	cur := x.load(st, a)
	pos := x.P.instrPos(in)
	switch {
	case v == cur:
	case v.Op == "append" && v.A[0] == cur:
		l, isL := x.asList(st, v.A[1])
		if !isL {
			m.r.bad("resolutions changed", m.key, pos, "an unknown number of entries (%s) is added to the references being followed", v.A[1])
			return
		}
		for _, e := range l.A {
			st.mon[monRes] = inc(st.mon[monRes], 1)
			if m.onPush != nil {
				m.onPush(st, strip(e), in)
			}
		}
	case v.Op == "slice" && v.A[0] == cur && (v.A[1] == nil || isZeroC(v.A[1])) && v.A[2] != nil:
		b, c := splitAdd(v.A[2])
		if b == nil || b.Op != "len" || b.A[0] != cur || c > 0 {
			m.r.bad("resolutions changed", m.key, pos, "the references being followed are cut to %s", v)
			return
		}
		st.mon[monRes] = inc(st.mon[monRes], int(c))
	case isResolutions(v):
		// the list as it was on entry is put back
		if v.Op == "load" && v.A[0] == a {
			delete(st.mon, monRes)
			return
		}
		m.r.bad("resolutions changed", m.key, pos, "the references being followed are replaced by %s", v)
	default:
		m.r.bad("resolutions changed", m.key, pos, "the references being followed are set to %s (%s)", v, trailOf(st))
	}
}

func inc(s string, d int) string {
	n := 0
	neg := false
	for _, c := range s {
		if c == '-' {
			neg = true
			continue
		}
		n = n*10 + int(c-'0')
	}
	if neg {
		n = -n
	}
	n += d
	if n == 0 {
		return ""
	}
	out := ""
	if n < 0 {
		out = "-"
		n = -n
	}
	ds := ""
	for n > 0 {
		ds = string(rune('0'+n%10)) + ds
		n /= 10
	}
	return out + ds
}

func runC05(r *R) {
	p := r.p
	roots := append(append([]*ssa.Function{}, p.generateImpls()...), p.constraintApplies()...)
	if len(roots) == 0 {
		r.missing("generators")
		return
	}
	touch := p.touching(func(in ssa.Instruction) bool {
		return callsMethod(in, "Generate") || usesField(in, "referenceResolver", "resolutions") || usesField(in, "GeneratorOptions", "MaximumReferenceDepth", "BypassCyclicReferenceCheck") || usesField(in, "referenceHandler", "References")
	}, isGenerate)
	rel := func(t *Term) bool {
		return isResolutions(t) || optField(t, "MaximumReferenceDepth") || optField(t, "BypassCyclicReferenceCheck") || t.Op == "lookupok"
	}
	for _, root := range roots {
		key := shortFn(root)
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return touch[f] && p.genInline(f) }, Fact: relevantFacts(rel)})
		m := &resMon{x: x, r: r, key: key}
		x.cfg.OnInstr = m.instr
		x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
			if st.mon[monRes] != "" {
				r.bad("balance", key+":loop", p.instrPos(l.Header.Instrs[0]), "the number of references being followed changes by %s with every round of a loop", st.mon[monRes])
			}
		}
		pushed := map[*Term]bool{}
		m.onPush = func(st *State, k *Term, at ssa.Instruction) { pushed[k] = true }
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.name() != "invoke.Generate" || ev.Defer {
				return false
			}
			o, n, base, ok := fieldRead(strip(ev.Recv))
			if !ok || o != "reference" || n != "Generator" {
				return false
			}
			pos := p.instrPos(ev.In)
			st := ev.St
			good := true
			fail := func(k, f string, a ...interface{}) {
				good = false
				r.bad("followed", key+":"+k, pos, f, a...)
			}
			doc, path, isL := refLookup(base)
			if !isL {
				fail("lookup", "the generator that is run comes from %s, not from the table of references", base)
			}
			// the entry was found
			// depth
			depth := false
			var orig *Term
			for f, v := range st.facts {
				if f.Op != "bin" || f.Aux != "<" {
					continue
				}
				for _, a := range f.A {
					b, _ := splitAdd(a)
					if b == nil || b.Op != "len" {
						continue
					}
					if !isResolutions(baseList(b.A[0])) {
						continue
					}
					for _, q := range f.A {
						qb, _ := splitAdd(q)
						if qb != nil && optField(qb, "MaximumReferenceDepth") {
							if dv, known := x.decide(st, x.bin("<", qb, x.lenOf(st, baseList(b.A[0])), types.Typ[types.Bool])); known && !dv {
								depth = true
							}
						}
					}
					_ = v
				}
			}
			if !depth {
				fail("depth", "a reference is followed although the path has not established that MaximumReferenceDepth is not exceeded (%s)", trailOf(st))
			}
			// cycle
			cyc := false
			for f, v := range st.facts {
				if optField(f, "BypassCyclicReferenceCheck") && v {
					cyc = true
				}
				if c, e, ok := membership(f); ok && !v && isResolutions(baseList(c)) && isL {
					if x.isRefKey(st, e, doc, path) {
						cyc = true
						orig = e
					}
				}
			}
			if !cyc {
				fail("cycle", "a reference is followed although the path has not established that it is not being followed already (%s)", trailOf(st))
			}
			if st.mon[monRes] != "1" {
				fail("push", "the reference is not among the references being followed while its generator runs (%s)", trailOf(st))
			}
			// what was added is the key that is tested
			cur := x.currentResolutions(st)
			if cur != nil && isL {
				if l, k := unwind(cur); len(k) == 1 && isResolutions(l) {
					if e, okL := x.asList(st, k[0]); !okL || len(e.A) != 1 || !x.isRefKey(st, strip(e.A[0]), doc, path) {
						fail("key", "the entry added to the references being followed is %s, which does not name this reference", k[0])
					} else if orig != nil && strip(e.A[0]) != orig {
						fail("key2", "the entry that is added (%s) is not the one that is tested for (%s)", e.A[0], orig)
					}
				}
			} else {
				fail("key", "the list of references being followed is not known here")
			}
			if good {
				r.ok("followed", key+" "+pos)
			}
			return false
		}
		outs := x.Root(root, nil)
		r.exec(x, key)
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			if o.st.mon[monRes] != "" {
				r.bad("balance", key, p.instrPos(o.at), "the number of references being followed has changed by %s on a way out (%s)", o.st.mon[monRes], trailOf(o.st))
			} else {
				r.ok("balance", key)
			}
		}
	}
	// the list is changed nowhere else on the generating side
	r.need("followed", 1)
	r.need("balance", 10)
}

func baseList(t *Term) *Term {
	b, _ := unwind(strip(t))
	return strip(b)
}

// currentResolutions: the list as it is on this path
func (x *Exec) currentResolutions(st *State) *Term {
	for k, v := range st.heap {
		if isResolutionsAddr(k) && rootTerm(k).Op != "alloc" {
			return v
		}
	}
	return nil
}

// refLookup: an entry of a two-level table of references; returns the document and path it is looked up by.
func refLookup(t *Term) (doc, path *Term, ok bool) {
	t = strip(t)
	for t != nil && t.Op == "load" {
		t = strip(t.A[0])
	}
	if t == nil || t.Op != "lookup" {
		return nil, nil, false
	}
	in := strip(t.A[0])
	if in.Op != "lookup" {
		return nil, nil, false
	}
	return strip(in.A[1]), strip(t.A[1]), true
}

// isRefKey: the text is built injectively enough from the document and the path: it contains both, in one order, with a separator.
func (x *Exec) isRefKey(st *State, e, doc, path *Term) bool {
	parts := x.catParts(strip(e))
	if len(parts) != 3 {
		return false
	}
	s, isS := strConst(parts[1])
	return isS && s != "" && strip(parts[0]) == doc && strip(parts[2]) == path
}

// ---- C08

// ownsChildren: the struct holds a collection of generators or a table of references.
func (p *Prog) ownsChildren(t types.Type) bool {
	st := structOf(t)
	if st == nil {
		return false
	}
	it := p.generatorIface()
	isGen := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && types.Identical(i, it)
	}
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if isGen(u.Elem()) {
				return true
			}
		case *types.Map:
			if isGen(u.Elem()) {
				return true
			}
		}
		if isGen(ft) {
			n++
		}
		if typeName(ft) == "referenceHandler" {
			return true
		}
	}
	return n > 1
}

func runC08(r *R) {
	p := r.p
	n := 0
	touch := p.touching(func(in ssa.Instruction) bool {
		return callsMethod(in, "Generate") || usesField(in, "GeneratorOptions", "overallComplexity", "CutoffGenerationSteps")
	}, isGenerate)
	for _, root := range p.generateImpls() {
		rt := recvName(root)
		if tn, ok := deref(root.Signature.Recv().Type()).(*types.Named); ok && tn.Obj().Exported() {
			continue // the root hands over to its one generator
		}
		if !p.ownsChildren(root.Signature.Recv().Type()) || rt == "multipleTypeGenerator" {
			// a list of types has no children below it: each of its generators stands for the value itself
			continue
		}
		n++
		key := shortFn(root)
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return touch[f] && p.genInline(f) }, Fact: relevantFacts(func(t *Term) bool { return optField(t, "CutoffGenerationSteps") })})
		const mon = "steps"
		x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a := x.val(st, s.Addr)
			if a.Op != "faddr" || fieldName(a) != "overallComplexity" || rootTerm(a).Op == "alloc" {
				return
			}
			v := x.val(st, s.Val)
			cur := x.load(st, a)
			vb, vc := splitAdd(v)
			cb, cc := splitAdd(cur)
			if vb == cb && vc > cc {
				st.mon[mon] = "1"
			}
		}
		cutoffState := func(st *State, cur *Term) (val, known bool) {
			// 0 < Cutoff && Cutoff < cur
			var cut *Term
			for f := range st.facts {
				f.any(func(t *Term) bool {
					if optField(t, "CutoffGenerationSteps") {
						cut = t
					}
					return false
				})
			}
			if cut == nil {
				return false, false
			}
			on, k1 := x.decide(st, x.bin("<", x.T.Int(0), cut, types.Typ[types.Bool]))
			if k1 && !on {
				return false, true
			}
			ov, k2 := x.decide(st, x.bin("<", cut, cur, types.Typ[types.Bool]))
			if k2 && !ov {
				return false, true
			}
			return k1 && k2 && on && ov, k1 && k2
		}
		cur := func(st *State) *Term {
			for k, v := range st.heap {
				if k.Op == "faddr" && fieldName(k) == "overallComplexity" && rootTerm(k).Op != "alloc" {
					return v
				}
			}
			return nil
		}
		const checked = "checked"
		x.cfg.OnFact = func(st *State, atom *Term, val bool, at ssa.Instruction) {
			if st.mon[mon] == "" || st.mon[checked] != "" || !atom.any(func(t *Term) bool { return optField(t, "CutoffGenerationSteps") }) {
				return
			}
			t := st.clone()
			t.facts[atom] = val
			if c := cur(t); c != nil {
				if v, known := cutoffState(t, c); known {
					st.mon[checked] = "below"
					if v {
						st.mon[checked] = "past"
					}
				}
			}
		}
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.name() != "invoke.Generate" || ev.Defer {
				return false
			}
			pos := p.instrPos(ev.In)
			st := ev.St
			if st.mon[mon] == "" {
				r.bad("children", key+":step", pos, "a sub-generator is run before a generation step was counted (%s)", trailOf(st))
				return false
			}
			switch st.mon[checked] {
			case "below":
				r.ok("children", key+" "+pos)
			case "past":
				r.bad("children", key+":past", pos, "a sub-generator is run past the cutoff (%s)", trailOf(st))
			default:
				r.bad("children", key+":cutoff", pos, "a sub-generator is run although the path has not established that the cutoff is not passed (%s)", trailOf(st))
			}
			return false
		}
		outs := x.Root(root, nil)
		r.exec(x, key)
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			if o.st.mon[checked] == "past" {
				if o.rets[0].isNil() {
					r.ok("cutoff yields null", key)
				} else {
					r.bad("cutoff yields null", key, p.instrPos(o.at), "past the cutoff %s is produced", o.rets[0])
				}
			}
		}
	}
	r.need("children", 4)
	r.need("cutoff yields null", 4)
	// the counter only grows
	for _, fn := range p.allBodies() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				key := shortFn(fn)
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if typeName(deref(fa.X.Type())) != "GeneratorOptions" || structOf(fa.X.Type()).Field(fa.Field).Name() != "overallComplexity" {
						continue
					}
					if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 && freshAlloc(fa.X) {
						r.ok("counter store", key)
						continue
					}
					if p.growing(s, s.Val, fa) {
						r.ok("counter store", key)
						continue
					}
					r.bad("counter store", key, p.instrPos(in), "the step counter is set to %s, which is not its old value plus a constant", s.Val.String())
					continue
				}
				// whole options values
				if typeName(deref(s.Addr.Type())) == "GeneratorOptions" {
					if _, isP := deref(s.Addr.Type()).Underlying().(*types.Struct); isP && !freshAlloc(s.Addr) {
						r.bad("counter store", key, p.instrPos(in), "a whole options value is overwritten while it may be in use")
					}
				}
			}
		}
	}
	r.need("counter store", 5)
}

func freshAlloc(v ssa.Value) bool {
	_, ok := v.(*ssa.Alloc)
	return ok
}

// growing: v is the current value of the field plus non-negative constants.
func (p *Prog) growing(at *ssa.Store, v ssa.Value, fa *ssa.FieldAddr) bool {
	switch w := v.(type) {
	case *ssa.BinOp:
		if w.Op != token.ADD {
			return false
		}
		for _, q := range [][2]ssa.Value{{w.X, w.Y}, {w.Y, w.X}} {
			if p.nonNeg(q[1]) && p.growing(at, q[0], fa) {
				return true
			}
		}
	case *ssa.UnOp:
		if w.Op != token.MUL {
			return false
		}
		f2, ok := w.X.(*ssa.FieldAddr)
		return ok && f2.Field == fa.Field && (f2.X == fa.X || sameLoad(f2.X, fa.X)) && noneBetween(w, at)
	}
	return false
}

// noneBetween: nothing between the read and the store (in one block) can change the field.
func noneBetween(from *ssa.UnOp, to *ssa.Store) bool {
	if from.Block() != to.Block() {
		return false
	}
	on := false
	for _, in := range from.Block().Instrs {
		if in == ssa.Instruction(from) {
			on = true
			continue
		}
		if in == ssa.Instruction(to) {
			return on
		}
		if !on {
			continue
		}
		switch v := in.(type) {
		case *ssa.Store:
			return false
		case ssa.CallInstruction:
			if _, isB := v.Common().Value.(*ssa.Builtin); !isB {
				return false
			}
		}
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

func (p *Prog) nonNeg(v ssa.Value) bool {
	switch w := v.(type) {
	case *ssa.Const:
		return w.Value != nil && constant.Sign(w.Value) >= 0
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	case *ssa.Parameter:
		// every caller passes a non-negative constant
		for _, o := range p.origins(w, nil) {
			if c, ok := o.(*ssa.Const); !ok || c.Value == nil || constant.Sign(c.Value) < 0 {
				return false
			}
		}
		return true
	}
	return false
}
