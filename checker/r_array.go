package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C26: generated arrays.

func init() {
	register("C26", "The Generate method of the array generator is interpreted with its helpers. Every append to the result is judged: first the loop over the tuple generators appends one value of each and runs to its end; after that nothing is appended unless the path knows that additional items are allowed; every further item comes from the contains generator or from the first of item, additional-items and unevaluated-items generators that exists (facts of the path); under uniqueItems it was compared with the items so far or is a diagnostic. An array is only returned when the path's comparisons entail that it has at least the minimum number of items and the loop over the required contains items took place; null only after the cutoff. The parse side is interpreted as well: bounds, flags and sub-generators arrive from the schema's own keywords.",
		"whether the items are valid, maxContains, maxItems (only the parse side), contains items beyond the required number, generated equality beyond the JSON text.", ruleC26)
}

func ruleC26(r *R) {
	p := r.p
	gen := p.method("", "arrayGenerator", "Generate")
	if gen == nil {
		r.missing("arrayGenerator.Generate")
		return
	}
	arrayGenerate(r, gen)
	found := 0
	for _, f := range p.Funcs {
		if p.makesGenerator(f, "arrayGenerator") {
			found++

			arrayParser(r, f)
		}
	}
	if found == 0 {
		r.missing("a function that parses array schemas")
	}
	r.need("append", 3)
	r.need("return", 2)
	r.need("parsed", 7)
}

func isDynList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	i, ok := s.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

func arrayGenerate(r *R, gen *ssa.Function) {
	p := r.p
	const T = "arrayGenerator"
	var x *Exec
	var la *loopAcc
	isG := func(t *Term, n string) bool { return isField(strip(t), T, n) }
	flag := func(st *State, n string) (v, known bool) {
		for a, v := range st.facts {
			if isG(a, n) {
				return v, true
			}
		}
		return false, false
	}
	nilG := func(st *State, n string) (isNil, known bool) {
		for a, v := range st.facts {
			l, e, ok := eqOperands(a)
			if !ok {
				continue
			}
			if l.isNil() {
				l, e = e, l
			}
			if e.isNil() && isG(l, n) {
				return v, true
			}
		}
		return false, false
	}
	noTuple := func(st *State) bool {
		for a, v := range st.facts {
			l, e, ok := eqOperands(a)
			if !ok || !v {
				continue
			}
			if l.isNil() || isZeroC(l) {
				l, e = e, l
			}
			if e.isNil() && isG(l, "TupleGenerators") || isZeroC(e) && l.Op == "len" && isG(l.A[0], "TupleGenerators") {
				return true
			}
		}
		return false
	}
	// the generator of a value
	made := func(e *Term) *Term {
		e = stripI(e)
		if e.Op == "call" && e.Aux == "invoke.Generate" {
			return strip(e.A[0])
		}
		if e.Op == "call" {
			if f, ok := e.Aux.(*ssa.Function); ok && f.Name() == "Generate" && len(e.A) > 0 {
				return strip(e.A[0])
			}
		}
		return nil
	}
	allNil := func(st *State, ns ...string) bool {
		for _, n := range ns {
			if v, k := nilG(st, n); !k || !v {
				return false
			}
		}
		return true
	}
	// what a further item may be made by
	source := func(st *State, g *Term) string {
		if g.Op == "iface" {
			g = strip(g.A[0])
		}
		switch {
		case isG(g, "ContainsGenerator"), isG(g, "ItemGenerator"):
			return ""
		case isG(g, "AdditionalItemsGenerator"):
			if allNil(st, "ItemGenerator") {
				return ""
			}
		case isG(g, "UnevaluatedItemsGenerator"):
			if allNil(st, "ItemGenerator", "AdditionalItemsGenerator") {
				return ""
			}
		default:
			if _, name, _, ok := fieldRead(g); !ok || name == "" {
				if allNil(st, "ItemGenerator", "AdditionalItemsGenerator", "UnevaluatedItemsGenerator") {
					return ""
				}
			}
		}
		return "an item is made by " + g.String() + " although another generator may be declared for it"
	}
	// sets of texts, by map and list: the loop that fills them
	taken := map[string]*Loop{}
	partial := map[*Loop]bool{}
	type later struct{ key, pos, trail string }
	var pending []later
	differs := func(st *State, e, base *Term, pos string) bool {
		for a, v := range st.facts {
			c, el, ok := membership(a)
			if a.Op == "lookup" {
				c, el, ok = a.A[0], a.A[1], true
			}
			if !ok || !el.any(func(t *Term) bool { return stripI(t) == stripI(e) }) {
				continue
			}
			if v {
				return false
			}
			part := c.any(func(t *Term) bool { return t.Op == "slice" && t.A[0] == base })
			if !part && c.any(func(t *Term) bool { return t == base }) || la.coversTexts(c, base) {
				return true
			}
			if a.Op == "lookup" || a.Op == "lookupok" {
				pending = append(pending, later{mon(strip(c)) + " " + mon(base), pos, trailOf(st)})
				return true
			}
		}
		// a look into a set that has no entries yet
		for k, m := range st.mon {
			if strings.HasPrefix(k, "look:") && strings.Contains(k, mon(stripI(e))) {
				pending = append(pending, later{m + " " + mon(base), pos, trailOf(st)})
				return true
			}
		}
		return false
	}
	tupleLoop := func(st *State, l *Loop) string {
		if c := x.loopOver(st, l); c != nil && isG(c, "TupleGenerators") {
			return x.sweepKey(l, st)
		}
		return ""
	}
	judge := func(st *State, fr *frame, in ssa.Instruction, base, piece *Term) {
		pos := p.instrPos(in)
		es := []*Term{piece}
		if piece.Op == "list" {
			es = piece.A
		} else if l, ok := x.asList(st, piece); ok {
			es = l.A
		}
		for _, e := range es {
			g := made(e)
			if g != nil {
				if c, ok := elemOf(g); ok && isG(c, "TupleGenerators") {
					switch {
					case !loopIndexed(g):
						r.bad("append", pos, pos, "the tuple value %s is not that of the position at hand (path: %s)", e, trailOf(st))
					case st.mon["other"] != "":
						r.bad("append", pos, pos, "a tuple value is appended after other items (path: %s)", trailOf(st))
					case st.mon["tuple"] == "done":
						r.bad("append", pos, pos, "a tuple value is appended again (path: %s)", trailOf(st))
					default:
						st.mon["round"] += "+"
						r.ok("append", "tuple "+pos)
					}
					continue
				}
			}
			fine := true
			if st.mon["tuple"] != "done" && !noTuple(st) {
				fine = false
				r.bad("append", pos, pos, "%s is appended before all tuple values are in the array (path: %s)", e, trailOf(st))
			}
			if v, k := flag(st, "DisallowAdditional"); !k || v {
				fine = false
				r.bad("append", "closed "+pos, pos, "%s is appended after the tuple although additional items may be disallowed (path: %s)", e, trailOf(st))
			}
			st.mon["other"] = "yes"
			diag := g == nil && stripI(e).typ() != nil && isStringT(stripI(e).typ())
			uniq, known := flag(st, "UniqueItems")
			if g == nil && !(diag && (!known || uniq)) {
				fine = false
				r.bad("append", "source "+pos, pos, "the item %s does not come from a generator (path: %s)", e, trailOf(st))
			}
			if g != nil {
				if why := source(st, g); why != "" {
					fine = false
					r.bad("append", "source "+pos, pos, "%s (path: %s)", why, trailOf(st))
				}
				if isG(g, "ContainsGenerator") {
					st.mon["contained"] = "yes"
				}
				if !(known && !uniq) && !differs(st, e, base, pos) {
					fine = false
					r.bad("append", "unique "+pos, pos, "%s is appended under uniqueItems without having been compared with the items so far (path: %s)", e, trailOf(st))
				}
			} else if diag && strings.Contains(st.mon["for"], "contains") {
				st.mon["contained"] = "yes"
			}
			if fine {
				r.ok("append", "item "+pos)
			}
		}
	}
	// the number of contains items demanded: bound of a counting loop
	demanded := func(st *State, l *Loop) *Term {
		iff, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
		if !ok {
			return nil
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || !inductive(cmp.X, l) {
			return nil
		}
		return x.boundTerm(st, cmp.Y, l)
	}
	enough := func(st *State, b *Term) bool {
		if b == nil {
			return false
		}
		en := &entail{x, st}
		for a := range st.facts {
			var mc *Term
			a.any(func(t *Term) bool {
				if isG(t, "MinContains") {
					mc = strip(t)
				}
				return mc != nil
			})
			if mc != nil {
				return b == mc || en.eqZero(mc) || en.whenSet(mc).leq(mc, b)
			}
		}
		return isG(b, "MinContains")
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Blur: func(st *types.Struct, i int) bool {
			return fieldIndex(st, "TupleGenerators") < 0 && fieldIndex(st, "Rand") < 0
		},
		Inline: func(f *ssa.Function) bool {
			return f.Name() != "ShouldCutoff" && f.Name() != "ShouldMinimize" && f.Pkg == gen.Pkg && f.Name() != "Generate"
		},
		OnInstr: func(st *State, fr *frame, in ssa.Instruction) {
			if lu, ok := in.(*ssa.Lookup); ok {
				st.mon["look:"+mon(strip(x.val(st, lu.Index)))] = mon(strip(x.val(st, lu.X)))
			}
			if mu, ok := in.(*ssa.MapUpdate); ok {
				x.val(st, mu.Key).any(func(t *Term) bool {
					if c, ok := elemOf(t); ok && c.typ() != nil && isDynList(c.typ()) && loopIndexed(t) {
						st.mon["mu:"+mon(strip(x.val(st, mu.Map)))] = mon(c)
						return true
					}
					return false
				})
			}
			c, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && isDynList(c.Type()) {
				judge(st, fr, in, strip(x.val(st, c.Call.Args[0])), x.val(st, c.Call.Args[1]))
			}
		},
		OnHead: func(st *State, fr *frame, l *Loop) {
			if tupleLoop(st, l) != "" {
				delete(st.mon, "round")
			}
			delete(st.mon, "contained")
		},
		OnBack: func(st *State, fr *frame, l *Loop) {
			if tupleLoop(st, l) != "" {
				if st.mon["round"] != "+" {
					st.mon["missed"] = "yes"
				}
				delete(st.mon, "round")
			}
			la.onBack(st, fr, l)
			delete(st.mon, "contained")
			if c := x.loopOver(st, l); c != nil && c.typ() != nil && isDynList(c.typ()) {
				any := false
				for k := range st.mon {
					if strings.HasPrefix(k, "mu:") {
						taken[k[3:]+" "+st.mon[k]] = l
						delete(st.mon, k)
						any = true
					}
				}
				if !any {
					partial[l] = true
				}
			}
		},
		OnExit: func(st *State, fr *frame, l *Loop, end bool) {
			if tupleLoop(st, l) != "" && end && st.mon["missed"] == "" {
				st.mon["tuple"] = "done"
			}
			if b := demanded(st, l); b != nil && enough(st, b) {
				full := end
				if !end {
					iff := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
					i := x.val(st, iff.Cond.(*ssa.BinOp).X)
					en := &entail{x, st}
					full = en.leq(b, i)
				}
				if full {
					st.mon["loop:"+x.sweepKey(l, st)] = "full"
				}
			}
			delete(st.mon, "round")
			delete(st.mon, "missed")
			delete(st.mon, "contained")
			if !end {
				partial[l] = true
			}
			for k := range st.mon {
				if strings.HasPrefix(k, "mu:") {
					delete(st.mon, k)
				}
			}
		},
	})
	la = newLoopAcc(x)
	type ret struct {
		o Outcome
		v *Term
	}
	var rets []ret
	for _, o := range x.Root(gen, nil) {
		if o.kind == "return" {
			rets = append(rets, ret{o, stripI(o.rets[0])})
		}
	}
	for _, w := range pending {
		if l := taken[w.key]; l == nil || partial[l] {
			r.bad("append", "unique "+w.pos, w.pos, "an item is appended under uniqueItems after a look into a set that does not hold all items so far (path: %s)", w.trail)
		}
	}
	// loops that take a contains item in every round
	takes := map[string]bool{}
	for lv, its := range la.iters {
		_ = lv
		byLoop := map[*Loop]bool{}
		for _, it := range its {
			good := !it.reset && len(it.added) == 1
			if good {
				good = false
				for _, e := range pieces(it.added[0]) {
					g := made(e)
					if g != nil && isG(g, "ContainsGenerator") {
						good = true
					} else if g == nil && isStringT(stripI(e).typ()) {
						good = true // a diagnostic
					}
				}
			}
			if was, seen := byLoop[it.loop]; seen {
				byLoop[it.loop] = was && good
			} else {
				byLoop[it.loop] = good
			}
		}
		for l, good := range byLoop {
			if good {
				takes[x.sweepKey(l, its[0].st)] = true
			}
		}
	}
	sort.SliceStable(rets, func(i, j int) bool { return p.instrPos(rets[i].o.at) < p.instrPos(rets[j].o.at) })
	for _, rt := range rets {
		st, v := rt.o.st, rt.v
		pos := p.instrPos(rt.o.at)
		if v.isNil() {
			cut := false
			for a, val := range st.facts {
				if val && a.Op == "call" {
					if f, ok := a.Aux.(*ssa.Function); ok && f.Name() == "ShouldCutoff" {
						cut = true
					}
				}
			}
			if cut {
				r.ok("return", pos)
			} else {
				r.bad("return", pos, pos, "null is returned instead of an array although the cutoff was not reached (path: %s)", trailOf(st))
			}
			continue
		}
		if v.typ() == nil || !isDynList(v.typ()) {
			r.bad("return", pos, pos, "%s is returned instead of an array (path: %s)", v, trailOf(st))
			continue
		}
		fine := true
		if st.mon["tuple"] != "done" && !noTuple(st) {
			fine = false
			r.bad("return", "tuple "+pos, pos, "an array is returned although not every tuple generator has given a value (path: %s)", trailOf(st))
		}
		if root, _ := unwind(v); root.Op == "slice" && !la.empty(root) && !isZeroC(x.lenOf(st, root)) {
			fine = false
			r.bad("return", "cut "+pos, pos, "a part of the array is returned: %s (path: %s)", v, trailOf(st))
		}
		if d, k := flag(st, "DisallowAdditional"); k && d {
			if fine {
				r.ok("return", pos)
			}
			continue
		}
		if nilv, k := nilG(st, "ContainsGenerator"); !k || !nilv {
			done := false
			for k := range st.mon {
				if strings.HasPrefix(k, "loop:") && takes[k[5:]] {
					done = true
				}
			}
			if !done {
				fine = false
				r.bad("return", "contains "+pos, pos, "an array is returned without the demanded number of items from the contains generator (path: %s)", trailOf(st))
			}
		}
		if why := reaches(x, la, st, v, isG); why != "" {
			fine = false
			r.bad("return", "minimum "+pos, pos, "%s (path: %s)", why, trailOf(st))
		}
		if fine {
			r.ok("return", pos)
		}
	}
	r.exec(x, fullName(gen))
}

func pieces(t *Term) []*Term {
	if t.Op == "list" {
		return t.A
	}
	return []*Term{t}
}

// reaches: the list has at least MinItems elements.
func reaches(x *Exec, la *loopAcc, st *State, v *Term, isG func(*Term, string) bool) string {
	en := &entail{x, st}
	var mi *Term
	for a := range st.facts {
		a.any(func(t *Term) bool {
			if isG(t, "MinItems") {
				mi = strip(t)
			}
			return mi != nil
		})
	}
	if mi == nil {
		return "an array is returned without its number of items having been compared with the minimum"
	}
	if en.eqZero(mi) {
		return ""
	}
	en = en.whenSet(mi)
	n := x.lenOf(st, v)
	if en.leq(mi, n) {
		return ""
	}
	// a loop that adds an item in every round was left after at least as many rounds
	base, _ := unwind(v)
	its := la.iters[base]
	for _, it := range its {
		if it.reset || len(it.added) == 0 {
			its = nil
		}
	}
	if len(its) > 0 {
		l := its[0].loop
		for _, in := range l.Header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !inductive(ph, l) {
				continue
			}
			if i := st.env[ph]; i != nil && en.leq(mi, i) {
				return ""
			}
			if i := x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx); en.leq(mi, i) {
				return ""
			}
		}
	}
	return "an array of " + n.String() + " items is returned, which may be fewer than the minimum"
}

// coversTexts: the collection was built by a loop over the list.
func (la *loopAcc) coversTexts(c, base *Term) bool {
	ok, _ := la.coversAll(c, func(t *Term) bool { return t == base }, func(e, el *Term) bool { return true })
	return ok
}

// arrayParser interprets the parser once per group of keywords, with the others left open.
func arrayParser(r *R, f *ssa.Function) {
	arrayParse(r, f, "tuple", "Items", "PrefixItems", "AdditionalItems")
	arrayParse(r, f, "bounds", "Items", "PrefixItems", "AdditionalItems", "MinItems", "MaxItems")
	arrayParse(r, f, "contains", "Contains", "MinContains", "Items")
	arrayParse(r, f, "unique", "UniqueItems")
}

func arrayParse(r *R, f *ssa.Function, group string, keep ...string) {
	p := r.p
	var x *Exec
	var la *loopAcc
	isN := func(t *Term, name string) bool { return isField(strip(t), "schemaNode", name) }
	val := func(t *Term, name string) bool {
		t = strip(t)
		if t.Op == "call" && len(t.A) == 2 {
			// the value or a default
			if f, ok := t.Aux.(*ssa.Function); ok && orDefault(f) {
				return isN(t.A[0], name) && (isZeroC(t.A[1]) || t.A[1].isConst() && t.A[1].cv().ExactString() == "false")
			}
		}
		return (t.Op == "load" || t.Op == "sload") && isN(t.A[0], name)
	}
	under := func(t *Term, kw, sub string) bool {
		t = strip(t)
		_, n, b, ok := fieldRead(t)
		return ok && n == sub && b != nil && b.any(func(u *Term) bool { return isN(u, kw) })
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact: func(a *Term) int {
			if a.any(func(t *Term) bool {
				if t.Op == "call" {
					return isErrT(t.T)
				}
				_, n, _, ok := fieldRead(t)
				for _, k := range keep {
					if ok && k == n {
						return true
					}
				}
				return false
			}) {
				l, e, ok := eqOperands(a)
				if ok && (l.Op == "call" && isErrT(l.T) || e.Op == "call" && isErrT(e.T)) {
					return -1
				}
				return 1
			}
			return 0
		},
		Blur: func(st *types.Struct, i int) bool {
			if fieldIndex(st, "PatternProperties") < 0 {
				return false
			}
			for _, k := range keep {
				if st.Field(i).Name() == k {
					return false
				}
			}
			return true
		},
		Inline: func(g *ssa.Function) bool {
			return (g.Pkg == f.Pkg || g.Pkg == nil || strings.HasSuffix(g.Pkg.Pkg.Path(), "/util")) && !p.leavesParser(g) && g.Name() != "mergeSchemaNodes" && g.Name() != "assertLowerUpperBound" && g.Name() != "GetInt" && !(orDefault(g) && !isSliceT(g.Signature.Results().At(0).Type()))
		},
		OnCall: func(ev *CallEvent) bool { return parsesNode(ev) },
		OnBack: func(st *State, fr *frame, l *Loop) { la.onBack(st, fr, l) },
	})
	la = newLoopAcc(x)
	outs := x.Root(f, nil)
	for _, o := range outs {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		g := strip(o.rets[0])
		if _, ok := g.typ().Underlying().(*types.Pointer); ok {
			g = x.load(o.st, g)
		}
		if !isRepoType(g.typ(), "arrayGenerator") {
			continue
		}
		st := o.st
		pos := p.instrPos(o.at)
		gs := structOf(g.T)
		get := func(n string) *Term { return strip(x.fieldNamed(g, gs, n)) }
		en := &entail{x, st}
		nilTerm := func(is func(*Term) bool) tri {
			for a, v := range st.facts {
				l, e, ok := eqOperands(a)
				if !ok {
					continue
				}
				if l.isNil() {
					l, e = e, l
				}
				if e.isNil() && is(l) {
					return triOf(v)
				}
			}
			return triU
		}
		nilKw := func(n string) tri { return nilTerm(func(t *Term) bool { return isN(t, n) }) }
		nilSub := func(n, sub string) tri { return nilTerm(func(t *Term) bool { return under(t, n, sub) }) }
		truth := func(n, sub string) tri {
			for a, v := range st.facts {
				if under(a, n, sub) {
					return triOf(v)
				}
			}
			return triU
		}
		filled := func(is func(*Term) bool) tri {
			for a := range st.facts {
				var ln *Term
				a.any(func(t *Term) bool {
					if t.Op == "len" && is(strip(t.A[0])) {
						ln = t
					}
					return ln != nil
				})
				if ln == nil {
					continue
				}
				if v, k := x.decide(st, x.bin("==", ln, x.T.Int(0), types.Typ[types.Bool])); k {
					return triOf(!v)
				}
				if lo, _ := x.interval(st, ln); lo != nil && lo.ExactString() != "0" && !strings.HasPrefix(lo.ExactString(), "-") {
					return triT
				}
			}
			return triU
		}
		itemNodes := func(t *Term) bool {
			t = strip(t)
			return (t.Op == "load" || t.Op == "sload") && under(t.A[0], "Items", "Nodes")
		}
		prefix := func(t *Term) bool { return val(t, "PrefixItems") }
		hasPrefix := nilKw("PrefixItems").not().and(filled(prefix))
		hasNodes := nilKw("Items").not().and(nilSub("Items", "Nodes").not()).and(filled(itemNodes))
		check := func(what string, good bool, format string, args ...interface{}) {
			if good {
				r.ok("parsed", what+" "+pos)
				return
			}
			r.bad("parsed", what+" "+pos, pos, format+" (path: %s)", append(args, trailOf(st))...)
		}
		is := func(gs ...string) bool {
			for _, g := range gs {
				if g == group {
					return true
				}
			}
			return false
		}
		// tuple
		tup := get("TupleGenerators")
		parsedFromList := func(src func(*Term) bool) (bool, string) {
			base, _ := unwind(tup)
			for _, it := range la.iters[base] {
				if it.reset {
					return false, "they are not kept in the order of the schemas"
				}
			}
			return la.coversAll(tup, func(t *Term) bool { return src(t) }, func(e, el *Term) bool {
				n, ok := parsedFrom(e)
				return ok && strip(n) == el && loopIndexed(el)
			})
		}
		switch {
		case !is("tuple"):
		case hasPrefix == triT:
			good, why := parsedFromList(prefix)
			check("tuple", good, "the tuple generators are not those of prefixItems: %s", why)
		case hasPrefix == triF && hasNodes == triT:
			good, why := parsedFromList(itemNodes)
			check("tuple", good, "the tuple generators are not those of the items array: %s", why)
		case hasPrefix == triF && hasNodes == triF:
			check("tuple", emptyList(x, st, tup), "the schema has no tuple but the generator's is %s", tup)
		default:
			check("tuple", false, "the generator's tuple is %s although it was not established whether the schema has prefixItems or an items array", tup)
		}
		// additional items
		hasTuple := hasPrefix.or(hasNodes)
		closed := nilKw("Items").not().and(truth("Items", "DisallowAdditionalItems")).or(
			hasTuple.and(nilKw("Items").or(nilSub("Items", "Node"))).and(nilKw("AdditionalItems").not().and(truth("AdditionalItems", "IsFalse"))))
		dis := get("DisallowAdditional")
		isClosed := triU
		switch {
		case dis.isConst():
			isClosed = triOf(dis.cv().ExactString() == "true")
		default:
			if v, k := x.decide(st, dis); k {
				isClosed = triOf(v)
			} else if under(dis, "Items", "DisallowAdditionalItems") && nilKw("Items") == triF || under(dis, "AdditionalItems", "IsFalse") {
				isClosed = triU
				closed = triU
			}
		}
		if !is("tuple") {
		} else if isClosed == triU {
			// the flag itself: true exactly if the keyword is false
			direct := under(dis, "Items", "DisallowAdditionalItems") && hasTuple.and(nilKw("AdditionalItems").not()) == triF ||
				under(dis, "AdditionalItems", "IsFalse") && hasTuple.and(nilKw("Items").or(nilSub("Items", "Node"))) == triT
			check("closed", direct, "whether additional items are disallowed is %s", dis)
		} else {
			check("closed", closed == isClosed, "additional items are %s although the schema says otherwise", map[bool]string{true: "disallowed", false: "allowed"}[isClosed == triT])
		}
		// minimum
		if is("bounds") && isClosed != triT {
			min := get("MinItems")
			kw := findTerm(st, min, func(t *Term) bool { return val(t, "MinItems") })
			good := val(min, "MinItems") || nilKw("MinItems") == triT || kw != nil && (en.eqZero(kw) || en.whenSet(kw).leq(kw, min))
			check("minimum", good, "the generator's minimum number of items is %s, which may be below minItems", min)
		}
		if is("bounds") && isClosed != triT {
			max := get("MaxItems")
			kw := findTerm(st, max, func(t *Term) bool { return val(t, "MaxItems") })
			good := val(max, "MaxItems") || nilKw("MaxItems") == triT || kw != nil && (en.eqZero(kw) || en.whenSet(kw).leq(max, kw))
			check("maximum", good, "the generator's maximum number of items is %s, which may be above maxItems", max)
		}
		// contains
		if is("contains") && nilKw("Contains") != triT {
			mc := get("MinContains")
			kw := findTerm(st, mc, func(t *Term) bool { return val(t, "MinContains") })
			one := en.leq(x.T.Int(1), mc) || en.x.neqZero(st, mc)
			good := one && (val(mc, "MinContains") || nilKw("MinContains") == triT || kw != nil && (en.leq(kw, mc) || en.eqZero(kw)))
			check("minContains", good, "the number of contains items demanded is %s, which may be below minContains or zero", mc)
		}
		sub := func(field string, is func(*Term) bool, absent tri, ignored ...tri) {
			gg := get(field)
			n, ok := parsedFrom(gg)
			switch {
			case gg.isNil():
				none := absent
				for _, i := range ignored {
					none = none.or(i)
				}
				check(field, none == triT, "the generator has no %s although the schema may have a schema for it", field)
			case ok && n.any(is):
				check(field, absent != triT, "there is a %s without a schema for it", field)
			default:
				check(field, false, "%s is %s, not parsed from its own keyword", field, gg)
			}
		}
		if is("contains") {
			sub("ContainsGenerator", func(t *Term) bool { return isN(t, "Contains") }, nilKw("Contains"))
		}
		if is("tuple") {
			sub("ItemGenerator", func(t *Term) bool { return under(t, "Items", "Node") }, nilKw("Items").or(nilSub("Items", "Node")), truth("Items", "DisallowAdditionalItems"))
			sub("AdditionalItemsGenerator", func(t *Term) bool { return under(t, "AdditionalItems", "Schema") }, nilKw("AdditionalItems").or(nilSub("AdditionalItems", "Schema")), truth("AdditionalItems", "IsFalse"))
		}
		if !is("unique") {
			continue
		}
		u := get("UniqueItems")
		check("uniqueItems", val(u, "UniqueItems") || nilKw("UniqueItems") == triT && (u.Op == "zero" || u.isConst() && u.cv().ExactString() == "false") || x.sameBool(st, u, func(t *Term) bool { return val(t, "UniqueItems") }), "whether items must be unique is %s", u)
	}
	r.exec(x, fullName(f))
}

// three-valued truth
type tri int

const (
	triU tri = iota
	triT
	triF
)

func triOf(v bool) tri {
	if v {
		return triT
	}
	return triF
}

func (t tri) not() tri {
	switch t {
	case triT:
		return triF
	case triF:
		return triT
	}
	return triU
}

func (t tri) and(u tri) tri {
	if t == triF || u == triF {
		return triF
	}
	if t == triT && u == triT {
		return triT
	}
	return triU
}

func (t tri) or(u tri) tri { return t.not().and(u.not()).not() }

func findTerm(st *State, in *Term, is func(*Term) bool) (found *Term) {
	in.any(func(t *Term) bool {
		if found == nil && is(t) {
			found = strip(t)
		}
		return found != nil
	})
	for a := range st.facts {
		a.any(func(t *Term) bool {
			if found == nil && is(t) {
				found = strip(t)
			}
			return found != nil
		})
	}
	return
}

func (x *Exec) neqZero(st *State, t *Term) bool {
	v, k := x.decide(st, x.bin("==", t, x.T.Int(0), types.Typ[types.Bool]))
	return k && !v
}

// sameBool: the constant agrees with what the path knows about a value.
func (x *Exec) sameBool(st *State, u *Term, is func(*Term) bool) bool {
	if !u.isConst() {
		return false
	}
	for a, v := range st.facts {
		if is(a) {
			return (u.cv().ExactString() == "true") == v
		}
	}
	return false
}

// orDefault: func(*T, T) T, the value of a pointer or a default.
func orDefault(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Params().Len() != 2 || sig.Results().Len() != 1 || sig.Recv() != nil {
		return false
	}
	pt, ok := sig.Params().At(0).Type().(*types.Pointer)
	return ok && types.Identical(pt.Elem(), sig.Params().At(1).Type()) && types.Identical(pt.Elem(), sig.Results().At(0).Type()) && originOf(f).Name() == "GetZeroIfNil"
}

// loopIndexed: the element is read at the index of a loop.
func loopIndexed(t *Term) bool {
	t = strip(t)
	if (t.Op == "load" || t.Op == "sload") && t.A[0].Op == "iaddr" && len(t.A[0].A) > 1 {
		return t.A[0].A[1].any(func(u *Term) bool { return u.Op == "loopvar" })
	}
	return true
}
