package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: generated objects.

func init() {
	register("C25", "The Generate method of the object generator is interpreted with its helpers. Every value put under a key either comes from the generator declared for that very key or the path has established that the key is not declared; the loop over the required keys stores a value under each of them and runs to its end; nothing is taken out again; an object is given up only after the cutoff was reached; and while additional properties are disallowed and there are no pattern properties, every key is an element of the required list or a key of the declared properties (slice through lists, copies and library calls). The parse side is interpreted as well: required keys and the additionalProperties flag arrive unchanged and every declared property is stored under its own name with a generator parsed from its own schema.",
		"whether the declared generators' values are valid, property counts, values of required keys without a declared schema.", ruleC25)
}

func ruleC25(r *R) {
	p := r.p
	gen := p.method("", "objectGenerator", "Generate")
	if gen == nil {
		r.missing("objectGenerator.Generate")
		return
	}
	objectGenerate(r, gen)
	objectParse(r)
	r.need("store", 3)
	r.need("required", 1)
	r.need("return", 2)
	r.need("parsed", 3)
}

func isDynMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.Empty() && isStringT(m.Key())
}

func objectGenerate(r *R, gen *ssa.Function) {
	p := r.p
	const T = "objectGenerator"
	var x *Exec
	isProps := func(t *Term) bool { return isField(strip(t), T, "Properties") }
	// the generator declared for the key
	own := func(t, key *Term) bool {
		t = strip(t)
		return t.Op == "lookup" && isProps(t.A[0]) && strip(t.A[1]) == key
	}
	declared := func(st *State, key *Term) (val, known bool) {
		for a, v := range st.facts {
			switch {
			case a.Op == "lookupok" && isProps(a.A[0]) && strip(a.A[1]) == key:
				return v, true
			case a.Op == "bin":
				l, e, ok := eqOperands(a)
				if !ok || !v {
					continue
				}
				if l.isNil() {
					l, e = e, l
				}
				if e.isNil() && (isProps(l) || own(l, key)) {
					return false, true
				}
				if isZeroC(e) && l.Op == "len" && isProps(l.A[0]) {
					return false, true
				}
			}
		}
		return false, false
	}
	open := func(st *State) bool {
		for a, v := range st.facts {
			if isField(strip(a), T, "DisallowAdditionalProperties") && !v {
				return true
			}
		}
		var pats *Term
		for a := range st.facts {
			a.any(func(t *Term) bool {
				if t.Op == "len" && isField(strip(t.A[0]), T, "PatternProperties") {
					pats = t
				}
				return false
			})
		}
		if pats != nil {
			if lo, _ := x.interval(st, pats); lo != nil && lo.ExactString() != "0" && !strings.HasPrefix(lo.ExactString(), "-") {
				return true
			}
		}
		return false
	}
	// keys that are neither required nor declared get the value of the schema that covers them
	further := func(st *State, key, val *Term, from []string) string {
		other := false
		for _, s := range from {
			other = other || s != "elem "+T+".Required" && s != "key "+T+".Properties"
		}
		if !other {
			return ""
		}
		if isStr(key, "") && val.isNil() {
			return "" // a pattern that cannot be used
		}
		if val.Op != "call" || val.Aux != "invoke.Generate" {
			return "a key that is neither required nor declared gets the value " + val.String()
		}
		g := strip(val.A[0])
		switch {
		case isField(g, T, "AdditionalProperties"):
			return ""
		case g.Op == "lookup" && isField(strip(g.A[0]), T, "PatternProperties"):
			if key.Op == "call" && key.Aux == "invoke.Generate" {
				k := strip(key.A[0])
				if k.Op == "lookup" && isField(strip(k.A[0]), T, "PatternPropertiesRegex") && strip(k.A[1]) == strip(g.A[1]) {
					return ""
				}
			}
			return "the value of a pattern property is stored under the key " + key.String() + ", which was not made from the same pattern"
		}
		for a, v := range st.facts {
			l, e, ok := eqOperands(a)
			if ok && v && (isField(strip(l), T, "AdditionalProperties") && e.isNil() || isField(strip(e), T, "AdditionalProperties") && l.isNil()) {
				return ""
			}
		}
		return "a further key gets a value of " + g.String() + " although additionalProperties may have a schema"
	}
	onInstr := func(st *State, fr *frame, in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok {
			if b, ok := c.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") && isDynMap(c.Common().Args[0].Type()) {
				r.bad("store", p.instrPos(in), p.instrPos(in), "a generated property is taken out again (path: %s)", trailOf(st))
			}
			return
		}
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isDynMap(mu.Map.Type()) {
			return
		}
		key, val := strip(x.val(st, mu.Key)), strip(x.val(st, mu.Value))
		pos := p.instrPos(in)
		// a round of a loop over the required keys
		if coll, ok := elemOf(key); ok && isField(strip(coll), T, "Required") {
			st.mon["stored"] = "yes"
		}
		fine := true
		// copied from one map of generated values to another
		copied := false
		if val.Op == "call" || val.Op == "lookup" || val.Op == "next" {
			copied = val.Op != "call" && val.any(func(t *Term) bool { return t.Op == "makemap" && isDynMap(t.T) }) && key.any(func(t *Term) bool { return t.Op == "makemap" && isDynMap(t.T) })
		}
		if copied {
			return
		}
		d, known := declared(st, key)
		isOwn := val.Op == "call" && val.Aux == "invoke.Generate" && own(val.A[0], key)
		if !isOwn && (!known || d) {
			fine = false
			r.bad("store", pos, pos, "the value %s is stored under the key %s, which may be a declared property: it does not come from the generator of that property (path: %s)", val, key, trailOf(st))
		}
		if !open(st) && !(known && d) && !isOwn {
			for _, s := range p.provenance(mu.Key, ctxOf(fr)) {
				if s == "elem "+T+".Required" || s == "key "+T+".Properties" {
					continue
				}
				fine = false
				r.bad("store", "key "+pos, pos, "a key that is neither required nor declared (%s) is stored although additional properties may be disallowed and there may be no pattern properties (path: %s)", s, trailOf(st))
			}
		}
		if why := further(st, key, val, p.provenance(mu.Key, ctxOf(fr))); why != "" {
			fine = false
			r.bad("store", "value "+pos, pos, "%s (path: %s)", why, trailOf(st))
		}
		if fine {
			r.ok("store", pos)
		}
	}
	loop := func(st *State, l *Loop) string {
		c := x.loopOver(st, l)
		if c != nil && isField(strip(c), T, "Required") {
			return x.sweepKey(l, st)
		}
		return ""
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Blur: func(st *types.Struct, i int) bool {
			return fieldIndex(st, "DisallowAdditionalProperties") < 0 && fieldIndex(st, "Rand") < 0
		},
		Inline: func(f *ssa.Function) bool {
			return f.Name() != "ShouldCutoff" && f.Pkg == gen.Pkg
		},
		OnInstr: onInstr,
		OnHead: func(st *State, fr *frame, l *Loop) {
			if loop(st, l) != "" {
				delete(st.mon, "stored")
			}
		},
		OnBack: func(st *State, fr *frame, l *Loop) {
			if k := loop(st, l); k != "" {
				if st.mon["stored"] == "" {
					st.mon["missed"] = "yes"
				}
				delete(st.mon, "stored")
			}
		},
		OnExit: func(st *State, fr *frame, l *Loop, end bool) {
			if loop(st, l) != "" && end && st.mon["missed"] == "" {
				st.mon["required"] = "done"
			}
			delete(st.mon, "stored")
			delete(st.mon, "missed")
		},
	})
	outs := x.Root(gen, nil)
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		pos := p.instrPos(o.at)
		v := strip(o.rets[0])
		if v.Op == "makemap" && isDynMap(v.T) {
			if o.st.mon["required"] != "done" {
				r.bad("required", pos, pos, "an object is returned although not every required key has been given a value (path: %s)", trailOf(o.st))
				continue
			}
			r.ok("required", pos)
			r.ok("return", pos)
			continue
		}
		if v.isNil() {
			cut := false
			for a, val := range o.st.facts {
				if val && a.Op == "call" {
					if f, ok := a.Aux.(*ssa.Function); ok && f.Name() == "ShouldCutoff" {
						cut = true
					}
				}
			}
			if cut {
				r.ok("return", pos)
				continue
			}
		}
		r.bad("return", pos, pos, "%s is returned instead of an object although the cutoff was not reached (path: %s)", v, trailOf(o.st))
	}
	r.exec(x, fullName(gen))
}

// objectParse: what the generator is built from.
func objectParse(r *R) {
	p := r.p
	found := 0
	for _, f := range p.Funcs {
		if !p.makesGenerator(f, "objectGenerator") {
			continue
		}
		found++
		objectParser(r, f)
	}
	if found == 0 {
		r.missing("a function that parses object schemas")
	}
}

// makesGenerator: a function that takes a schema node and returns a generator of the named type.
func (p *Prog) makesGenerator(f *ssa.Function, name string) bool {
	sig := f.Signature
	if f.Blocks == nil || !p.isLib(f) || sig.Results().Len() != 2 || !isErrT(sig.Results().At(1).Type()) {
		return false
	}
	takes := false
	for i := 0; i < sig.Params().Len(); i++ {
		takes = takes || isRepoType(deref(sig.Params().At(i).Type()), "schemaNode")
	}
	if !takes {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if mi, ok := in.(*ssa.MakeInterface); ok && isRepoType(deref(mi.X.Type()), name) {
				if refs := mi.Referrers(); refs != nil {
					for _, u := range *refs {
						switch u.(type) {
						case *ssa.Return, *ssa.Phi, *ssa.Store:
							return true
						}
					}
				}
			}
		}
	}
	return isRepoType(deref(sig.Results().At(0).Type()), name)
}

func objectParser(r *R, f *ssa.Function) {
	p := r.p
	var x *Exec
	isN := func(t *Term, name string) bool { return isField(strip(t), "schemaNode", name) }
	// the keyword's value, through its pointer
	val := func(t *Term, name string) bool {
		t = strip(t)
		return (t.Op == "load" || t.Op == "sload") && isN(t.A[0], name)
	}
	loop := func(st *State, l *Loop) string {
		c := x.loopOver(st, l)
		if c == nil {
			return ""
		}
		if c = strip(c); c.Op == "call" && len(c.A) == 1 {
			if f, ok := c.Aux.(*ssa.Function); ok && p.listsKeys(f) {
				c = strip(c.A[0])
			}
		}
		if val(c, "Properties") {
			return x.sweepKey(l, st)
		}
		return ""
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Blur: func(st *types.Struct, i int) bool {
			if fieldIndex(st, "PatternProperties") < 0 {
				return false
			}
			n := st.Field(i).Name()
			return n != "Properties" && n != "Required" && n != "AdditionalProperties" && n != "DisallowAdditionalProperties" && n != "PatternProperties"
		},
		Inline: func(g *ssa.Function) bool {
			return (g.Pkg == f.Pkg || g.Pkg == nil || strings.HasSuffix(g.Pkg.Pkg.Path(), "/util")) && !p.leavesParser(g) && !p.listsKeys(g)
		},
		OnCall: func(ev *CallEvent) bool { return parsesNode(ev) },
		OnInstr: func(st *State, fr *frame, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			key, v := strip(x.val(st, mu.Key)), strip(x.val(st, mu.Value))
			m := x.val(st, mu.Map)
			if !isGenMap(mu.Map.Type()) {
				// the generators of keys
				if mm, ok := mu.Map.Type().Underlying().(*types.Map); ok && hasGenerate(mm.Elem()) && !v.isNil() && !throughCalls(v, key) {
					r.bad("parsed", "pattern keys "+p.instrPos(in), p.instrPos(in), "the generator of the keys of a pattern property is %s, which was not made from the pattern (path: %s)", v, trailOf(st))
				}
				return
			}
			pattern := x.keyOver(st, key, func(c *Term) bool { return val(c, "PatternProperties") })
			if !pattern && !x.keyOver(st, key, func(c *Term) bool { return val(c, "Properties") }) {
				return // another map
			}
			bad := ""
			// a generator parsed from the value under the same key, or nothing if that failed
			src := v
			if g, ok := parsedFrom(v); ok {
				n := strip(g)
				if x.entryOf(n, key) {
					st.mon["set:"+mon(m)] = "yes"
					return
				}
				bad = "the generator stored under a property's name is parsed from " + n.String()
			} else if isRepoType(deref(v.typ()), "nullGenerator") || v.Op == "zero" {
				for a, t := range st.facts {
					l, e, ok := eqOperands(a)
					if ok && !t && (e.isNil() || l.isNil()) {
						if l.isNil() {
							l = e
						}
						if l.Op == "call" && l.N == 1 && isErrT(l.T) {
							st.mon["set:"+mon(m)] = "yes"
							return
						}
					}
				}
				bad = "a property gets no generator although parsing it did not fail"
			} else {
				bad = "the generator stored under a property's name is " + src.String()
			}
			r.bad("parsed", "properties "+p.instrPos(in), p.instrPos(in), "%s (path: %s)", bad, trailOf(st))
		},
		OnBack: func(st *State, fr *frame, l *Loop) {
			if loop(st, l) == "" {
				return
			}
			n := 0
			for k := range st.mon {
				if strings.HasPrefix(k, "set:") {
					n++
					st.mon["full:"+k[4:]] = "yes"
					delete(st.mon, k)
				}
			}
			if n == 0 {
				st.mon["skipped"] = "yes"
			}
		},
		OnExit: func(st *State, fr *frame, l *Loop, end bool) {
			if loop(st, l) != "" {
				if end && st.mon["skipped"] == "" {
					st.mon["swept"] = "yes"
				}
				delete(st.mon, "skipped")
			}
		},
	})
	for _, o := range x.Root(f, nil) {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		g := strip(o.rets[0])
		if _, ok := g.typ().Underlying().(*types.Pointer); ok {
			g = x.load(o.st, g)
		}
		if !isRepoType(g.typ(), "objectGenerator") {
			continue
		}
		st := o.st
		pos := p.instrPos(o.at)
		gs := structOf(g.T)
		get := func(n string) *Term { return strip(x.fieldNamed(g, gs, n)) }
		nilKw := func(n string) bool {
			for a, v := range st.facts {
				l, e, ok := eqOperands(a)
				if ok && v && (isN(l, n) && e.isNil() || isN(e, n) && l.isNil()) {
					return true
				}
			}
			return false
		}
		req := get("Required")
		if val(req, "Required") || nilKw("Required") && emptyList(x, st, req) {
			r.ok("parsed", "required "+pos)
		} else {
			r.bad("parsed", "required "+pos, pos, "the generator's required keys are %s, not those of the schema (path: %s)", req, trailOf(st))
		}
		dis := get("DisallowAdditionalProperties")
		if why := flagIs(x, st, dis, isN, nilKw); why == "" {
			r.ok("parsed", "additional "+pos)
		} else {
			r.bad("parsed", "additional "+pos, pos, "whether additional properties are disallowed is %s (path: %s)", why, trailOf(st))
		}
		add := get("AdditionalProperties")
		if n, ok := parsedFrom(add); add.isNil() || isRepoType(deref(add.typ()), "nullGenerator") {
			// no schema, or one that cannot be parsed
			if add.isNil() && !nilKw("AdditionalProperties") {
				known := false
				for a, v := range st.facts {
					if _, f, _, ok := fieldRead(a); ok && f == "IsFalse" && v {
						known = true
					}
					if l, e, ok := eqOperands(a); ok && v {
						if l.isNil() {
							l, e = e, l
						}
						if _, f, _, ok := fieldRead(strip(l)); ok && f == "Schema" && e.isNil() {
							known = true
						}
					}
				}
				if !known {
					r.bad("parsed", "additional schema "+pos, pos, "the generator has no additional properties although the schema may have a schema for them (path: %s)", trailOf(st))
				}
			}
			r.ok("parsed", "additional schema "+pos)
		} else if ok && n.any(func(t *Term) bool { return isN(t, "AdditionalProperties") }) {
			r.ok("parsed", "additional schema "+pos)
		} else {
			r.bad("parsed", "additional schema "+pos, pos, "the generator of additional properties is %s, not parsed from their schema (path: %s)", add, trailOf(st))
		}
		props := get("Properties")
		switch {
		case nilKw("Properties") && (props.isNil() || props.Op == "makemap" || props.Op == "zero"):
			r.ok("parsed", "no properties "+pos)
		case props.Op == "makemap" && st.mon["swept"] != "":
			r.ok("parsed", "properties "+pos)
		default:
			r.bad("parsed", "properties "+pos, pos, "the generator's properties are %s, which has not been given a generator for every declared property (path: %s)", props, trailOf(st))
		}
	}
	r.exec(x, fullName(f))
}

func mon(t *Term) string { return t.String() }

func isGenMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok || !isStringT(m.Key()) {
		return false
	}
	return isGeneratorT(m.Elem())
}

// isGeneratorT: the library's own Generator interface (not the one of the pattern package).
func isGeneratorT(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Name() != "Generator" {
		return false
	}
	i, ok := n.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if m := i.Method(j); m.Name() == "Generate" {
			return m.Type().(*types.Signature).Params().Len() == 1
		}
	}
	return false
}

// parsesNode: a call that parses one node into a generator.
func parsesNode(ev *CallEvent) bool {
	f := ev.Callee
	if f == nil || !ev.X.P.isLib(f) {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 2 || !isErrT(rs.At(1).Type()) || !types.IsInterface(rs.At(0).Type()) {
		return false
	}
	if n, ok := rs.At(0).Type().(*types.Named); !ok || n.Obj().Name() != "Generator" {
		return false
	}
	return f.Name() == "ParseNodeInScope" || f.Name() == "parseNode"
}

// leavesParser: functions of the parser that are not looked into from the parsers of single types.
func (p *Prog) leavesParser(g *ssa.Function) bool {
	return g.Name() == "parseRoot" || recvName(g) == "errorCollection"
}

func nodeArg(args []*Term) *Term {
	for _, a := range args {
		if a.T != nil && isRepoType(deref(a.T), "schemaNode") {
			return a
		}
	}
	return nil
}

// parsedFrom: the node a generator was parsed from.
func parsedFrom(t *Term) (*Term, bool) {
	if t.Op == "call" && t.N == 0 && t.T != nil {
		if n, ok := t.T.(*types.Named); ok && n.Obj().Name() == "Generator" {
			if a := nodeArg(t.A); a != nil {
				return a, true
			}
		}
	}
	return nil, false
}

func (x *Exec) fieldNamed(g *Term, gs *types.Struct, n string) *Term {
	i := fieldIndex(gs, n)
	if i < 0 {
		return x.T.nilT()
	}
	return x.field(g, gs, i)
}

// keyOver: the key is one that a loop over the map, or a lookup in it, produced.
func (x *Exec) keyOver(st *State, key *Term, is func(*Term) bool) bool {
	found := false
	key.any(func(t *Term) bool {
		if is(t) {
			found = true
		}
		return found
	})
	return found
}

// entryOf: the node is the entry of a map under the key.
func (x *Exec) entryOf(n, key *Term) bool {
	if n.Op == "lookup" && strip(n.A[1]) == key {
		return true
	}
	// key and value of one round of a range loop
	return n.Op == "next" && key.Op == "next" && n != key && len(n.A) > 0 && len(key.A) > 0 && n.A[0] == key.A[0] && n.Site == key.Site
}

func emptyList(x *Exec, st *State, t *Term) bool {
	if t.isNil() || t.Op == "zero" {
		return true
	}
	l := x.lenOf(st, t)
	return isZeroC(l)
}

// flagIs: the flag equals IsFalse of the additionalProperties keyword.
func flagIs(x *Exec, st *State, t *Term, isN func(*Term, string) bool, nilKw func(string) bool) string {
	under := func(t *Term) bool {
		return t.any(func(u *Term) bool { return isN(u, "AdditionalProperties") })
	}
	_, n, _, ok := fieldRead(t)
	if ok && n == "IsFalse" && under(t) {
		return ""
	}
	if t.isConst() {
		want := t.cv().ExactString() == "true"
		if !want && nilKw("AdditionalProperties") {
			return ""
		}
		for a, v := range st.facts {
			if _, n, _, ok := fieldRead(a); ok && n == "IsFalse" && under(a) && v == want {
				return ""
			}
		}
	}
	return t.String()
}

// throughCalls: the value is what calls make of the term.
func throughCalls(v, t *Term) bool {
	v = strip(v)
	if v == t {
		return true
	}
	if v.Op == "bin" || v.Op == "concat" {
		return false
	}
	for _, a := range v.A {
		if throughCalls(a, t) {
			return true
		}
	}
	return false
}
