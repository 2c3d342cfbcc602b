package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", "The entry points of generation and parsing are interpreted on all paths, once per option: where the options are handed on, each option must hold the value that was passed, or, on paths where that value is known to be unset, its default. Reads of each option are traced to the generators and constraints they are reachable from, which must be those the option is documented for. In the object and array generators a default is only used on paths where the schema's own bound is known to be unset, and lower and upper bounds are not exchanged. Each enabled fetcher is put into the table of fetchers under its schemes with its own options, and the pattern generators stored in string and object generators are built from the pattern at hand and the regex options named after them.",
		"the meaning of the options inside third-party libraries.", runC15)
}

// defaults as documented (README, comments of the options).
var optionDefaults = map[string]constant.Value{
	"DefaultNumberMinimum": constant.MakeInt64(0), "DefaultNumberMaximum": constant.MakeInt64(100),
	"DefaultStringMinLength": constant.MakeInt64(0), "DefaultStringMaxLength": constant.MakeInt64(100),
	"DefaultArrayMinItems": constant.MakeInt64(0), "DefaultArrayMaxItems": constant.MakeInt64(10),
	"DefaultObjectMinProperties": constant.MakeInt64(0), "DefaultObjectMaxProperties": constant.MakeInt64(10),
	"MaximumReferenceDepth": constant.MakeInt64(10), "BypassCyclicReferenceCheck": constant.MakeBool(false),
	"SuppressFallbackValues": constant.MakeBool(true), "MaximumUniqueGeneratorAttempts": constant.MakeInt64(100),
	"MaximumIfAttempts": constant.MakeInt64(100), "MaximumOneOfAttempts": constant.MakeInt64(100),
	"MaximumGenerationSteps": constant.MakeInt64(100), "CutoffGenerationSteps": constant.MakeInt64(2000),
	"MaxParseDepth": constant.MakeInt64(100), "RelativeTo": constant.MakeString(""),
}

// unset: t is known to be the zero value of its type (or known not to be).
func (x *Exec) unset(st *State, t *Term) (zero, known bool) {
	if isZeroC(t) || t.isNil() {
		return true, true
	}
	if t.isConst() {
		switch c := t.cv(); c.Kind() {
		case constant.Bool:
			return !constant.BoolVal(c), true
		case constant.String:
			return constant.StringVal(c) == "", true
		}
		return false, true
	}
	b, ok := t.T.Underlying().(*types.Basic)
	switch {
	case ok && b.Info()&types.IsBoolean != 0:
		v, k := x.decide(st, t)
		return !v, k
	case ok && b.Info()&types.IsString != 0:
		return x.decide(st, x.bin("==", t, x.T.Str(""), types.Typ[types.Bool]))
	case ok && b.Info()&types.IsNumeric != 0:
		return x.decide(st, x.bin("==", t, x.T.zero(t.T), types.Typ[types.Bool]))
	}
	if x.knownNil(st, t) {
		return true, true
	}
	if x.knownNonNil(st, t) {
		return false, true
	}
	return false, false
}

func runC15(r *R) {
	r.generatorOptions()
	r.optionUses()
	r.depthLimit()
	r.optionBounds()
	r.parserOptions()
	r.regexOptions()
}

// checkOption: v is what was passed, or the default where nothing was.
func (r *R) checkOption(x *Exec, st *State, kind, key, name string, v, in *Term, at ssa.Instruction) {
	pos := r.p.instrPos(at)
	def, hasDef := optionDefaults[name]
	if in == nil {
		in = x.T.zero(v.T)
	}
	zero, known := x.unset(st, in)
	switch {
	case v.isConst() && v.cv() != nil:
		if !known || !zero {
			r.bad(kind, key, pos, "%s is set to %s although the caller may have set it (%s)", name, v, trailOf(st))
			return
		}
		if hasDef && v.cv().ExactString() != def.ExactString() {
			r.bad(kind, key, pos, "an unset %s becomes %s, its default is %s (%s)", name, v, def, trailOf(st))
			return
		}
	case v == in:
		isZero := hasDef && (def.Kind() == constant.Bool && !constant.BoolVal(def) || def.Kind() == constant.String && constant.StringVal(def) == "" || def.Kind() == constant.Int && constant.Sign(def) == 0)
		if hasDef && !isZero && (!known || zero) {
			r.bad(kind, key, pos, "an unset %s stays unset, its default is %s (%s)", name, def, trailOf(st))
			return
		}
	default:
		r.bad(kind, key, pos, "%s is given the value %s (%s)", name, v, trailOf(st))
		return
	}
	r.ok(kind, key+" = "+v.String())
}

// generatorOptions: what the root generators hand to the generators below.
func (r *R) generatorOptions() {
	p := r.p
	tn, ok := p.Repo[""].Pkg.Scope().Lookup("GeneratorOptions").(*types.TypeName)
	if !ok {
		r.missing("type GeneratorOptions")
		return
	}
	st := tn.Type().Underlying().(*types.Struct)
	for _, root := range p.libRoots() {
		if recvName(root) != "RootGenerator" || !strings.HasPrefix(root.Name(), "Generate") {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() || f.Name() == "Rand" || f.Name() == "ReferenceResolver" {
				continue
			}
			r.generatorOption(root, st, i)
		}
	}
	r.need("generator option", 30)
}

func (r *R) generatorOption(root *ssa.Function, st *types.Struct, i int) {
	p := r.p
	name := st.Field(i).Name()
	key := shortFn(root) + ":" + name
	x := newExec(p, Config{
		Inline: func(f *ssa.Function) bool { return p.genInline(f) },
		Fact:   relevantFacts(func(t *Term) bool { return optField(t, name) }),
		Track: func(a *Term) bool {
			return a.Op != "faddr" || ownerName(a) != "GeneratorOptions" || fieldName(a) == name
		},
	})
	n := 0
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.name() != "invoke.Generate" {
			return false
		}
		n++
		opt := ev.Args[len(ev.Args)-1]
		v := x.load(ev.St, x.faddr(opt, st, i))
		var in *Term
		for j, pr := range root.Params {
			if typeName(deref(pr.Type())) == "GeneratorOptions" {
				in = x.load(ev.St, x.faddr(x.T.mk("param", pr, j, pr.Type(), nil, nil), st, i))
			}
		}
		r.checkOption(x, ev.St, "generator option", key, name, v, in, ev.In)
		return false
	}
	x.Root(root, nil)
	r.exec(x, key)
}

// optionUsers: the generators and constraints an option is documented for.
var optionUsers = map[string][]string{
	"DefaultNumberMinimum": {"numberGenerator"}, "DefaultNumberMaximum": {"numberGenerator"},
	"DefaultStringMinLength": {"stringGenerator"}, "DefaultStringMaxLength": {"stringGenerator"},
	"DefaultArrayMinItems": {"arrayGenerator"}, "DefaultArrayMaxItems": {"arrayGenerator"},
	"DefaultObjectMinProperties": {"objectGenerator"}, "DefaultObjectMaxProperties": {"objectGenerator"},
	"MaximumReferenceDepth": {"referenceGenerator"}, "BypassCyclicReferenceCheck": {"referenceGenerator"},
	"SuppressFallbackValues":         {"objectGenerator"},
	"MaximumUniqueGeneratorAttempts": {"arrayGenerator", "multiConstraint"},
	"MaximumIfAttempts":              {"ifConstraint", "multipleIfConstraints"},
	"MaximumOneOfAttempts":           {"oneOfConstraint"},
	"MaximumGenerationSteps":         {"arrayGenerator", "objectGenerator", "*"},
	"CutoffGenerationSteps":          {"arrayGenerator", "objectGenerator", "*"},
}

// optionUses: which generators and constraints read an option.
func (r *R) optionUses() {
	p := r.p
	tn := p.Repo[""].Pkg.Scope().Lookup("GeneratorOptions")
	if tn == nil {
		return
	}
	st := tn.Type().Underlying().(*types.Struct)
	users := map[string]map[string]bool{}
	roots := append(append([]*ssa.Function{}, p.generateImpls()...), p.constraintApplies()...)
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	for _, root := range roots {
		rt := recvName(root)
		if rt == "RootGenerator" {
			continue
		}
		for f := range p.reach([]*ssa.Function{root}, func(f *ssa.Function) bool { return isRoot[f] && f != root }) {
			if isRoot[f] && f != root {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					n := optionRead(in)
					if n == "" {
						continue
					}
					if users[n] == nil {
						users[n] = map[string]bool{}
					}
					users[n][rt] = true
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() || f.Name() == "Rand" || f.Name() == "ReferenceResolver" {
			continue
		}
		pos := p.posAt(f.Pos())
		want := optionUsers[f.Name()]
		any := want == nil
		for _, w := range want {
			any = any || w == "*"
		}
		if len(users[f.Name()]) == 0 {
			r.bad("option use", f.Name()+":unused", pos, "the option %s has no effect: no generator or constraint reads it", f.Name())
			continue
		}
		for _, w := range want {
			if w != "*" && !users[f.Name()][w] {
				r.bad("option use", f.Name()+":"+w, pos, "%s does not read the option %s", w, f.Name())
			}
		}
		for u := range users[f.Name()] {
			good := any
			for _, w := range want {
				good = good || w == u
			}
			if good {
				r.ok("option use", u+" reads "+f.Name())
			} else {
				r.bad("option use", f.Name()+":"+u, pos, "%s reads the option %s, which is not about it", u, f.Name())
			}
		}
	}
	r.need("option use", 14)
}

// depthLimit: whatever bounds the depth of the parse is the limit of the options.
func (r *R) depthLimit() {
	p := r.p
	reads := func(v ssa.Value, owner, name string) bool {
		for _, o := range p.origins(v, nil) {
			in, ok := o.(ssa.Instruction)
			if !ok {
				continue
			}
			if usesField(in, owner, name) {
				return true
			}
			if ld, ok := o.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && usesField(fa, owner, name) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.allBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				switch op.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					continue
				}
				for _, q := range [][2]ssa.Value{{op.X, op.Y}, {op.Y, op.X}} {
					if !reads(q[0], "parserMetadata", "ParseDepth") {
						continue
					}
					key := shortFn(f) + ":depth"
					if reads(q[1], "ParserOptions", "MaxParseDepth") {
						r.ok("parse limit", key)
					} else {
						r.bad("parse limit", key, p.instrPos(op), "the depth of the parse is compared with something other than the option MaxParseDepth")
					}
				}
			}
		}
	}
	r.need("parse limit", 1)
}

// optionRead: the instruction reads a field of the generator options.
func optionRead(in ssa.Instruction) string {
	switch v := in.(type) {
	case *ssa.FieldAddr:
		if typeName(deref(v.X.Type())) != "GeneratorOptions" {
			return ""
		}
		for _, u := range *v.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok && ld.Referrers() != nil && len(*ld.Referrers()) > 0 {
				return structOf(deref(v.X.Type())).Field(v.Field).Name()
			}
		}
	case *ssa.Field:
		if typeName(v.X.Type()) == "GeneratorOptions" {
			return structOf(v.X.Type()).Field(v.Field).Name()
		}
	}
	return ""
}

// optionBounds: defaults for bounds only take the place of bounds the schema does not set, upper for upper
// and lower for lower.
func (r *R) optionBounds() {
	p := r.p
	type bounds struct{ owner, min, max, defMin, defMax string }
	for _, b := range []bounds{
		{"objectGenerator", "MinProperties", "MaxProperties", "DefaultObjectMinProperties", "DefaultObjectMaxProperties"},
		{"arrayGenerator", "MinItems", "MaxItems", "DefaultArrayMinItems", "DefaultArrayMaxItems"},
	} {
		var root *ssa.Function
		for _, f := range p.generateImpls() {
			if recvName(f) == b.owner {
				root = f
			}
		}
		if root == nil {
			r.missing("the Generate method of " + b.owner)
			continue
		}
		own := func(t *Term, n string) bool { return isField(strip(t), b.owner, n) }
		has := func(t *Term, n string, def bool) bool {
			return t.any(func(u *Term) bool {
				if def {
					return optField(u, n)
				}
				return own(u, n)
			})
		}
		relevant := func(t *Term) bool {
			return own(t, b.min) || own(t, b.max) || optField(t, b.defMin) || optField(t, b.defMax)
		}
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool {
			return p.genInline(f) && fnPkgPath(f) != "github.com/ryanolee/go-chaff/rand"
		}, Fact: relevantFacts(relevant)})
		n := 0
		st := structOf(deref(root.Params[0].Type()))
		fld := func(s *State, name string) *Term {
			pr := x.T.mk("param", root.Params[0], 0, root.Params[0].Type(), nil, nil)
			if _, isP := root.Params[0].Type().Underlying().(*types.Pointer); isP {
				return x.load(s, x.faddr(pr, st, fieldIndex(st, name)))
			}
			return x.field(pr, st, fieldIndex(st, name))
		}
		if fieldIndex(st, b.min) < 0 || fieldIndex(st, b.max) < 0 {
			r.missing(b.owner + "." + b.min + " and " + b.max)
			continue
		}
		checked := func(s *State, t *Term, at ssa.Instruction, what string) {
			for _, q := range [][3]string{{b.min, b.defMin}, {b.max, b.defMax}} {
				set, def := has(t, q[0], false), has(t, q[1], true)
				zero, known := x.unset(s, fld(s, q[0]))
				key := shortFn(root) + ":" + what + ":" + q[0]
				switch {
				case set && known && zero:
					r.bad("default bound", key, p.instrPos(at), "the unset %s is used without its default %s (%s)", q[0], q[1], trailOf(s))
				case def && !(known && zero):
					// the documented fallback of an upper bound below the lower one
					if q[0] == b.max && crossed(s, func(u *Term) bool { return own(u, b.max) }) {
						continue
					}
					r.bad("default bound", key, p.instrPos(at), "%s is used although %s may be set (%s)", q[1], q[0], trailOf(s))
				case set || def:
					r.ok("default bound", key+" "+p.instrPos(at))
				}
			}
		}
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Callee == nil || recvName(ev.Callee) != "RandUtil" || len(ev.Args) != 3 {
				return false
			}
			lo, hi := ev.Args[1], ev.Args[2]
			if isNum := func(t *Term) bool {
				b, ok := t.T.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsNumeric != 0
			}; !isNum(lo) || !isNum(hi) {
				return false
			}
			if !lo.any(relevant) && !hi.any(relevant) {
				return true
			}
			n++
			key := shortFn(root) + ":range"
			if has(lo, b.max, false) || has(lo, b.defMax, true) {
				r.bad("default bound", key+":lower", p.instrPos(ev.In), "the lower end of the range is computed from the upper bound: %s", lo)
			}
			z1, k1 := x.unset(ev.St, fld(ev.St, b.max))
			if !has(hi, b.max, false) && !has(hi, b.defMax, true) && !(k1 && z1 && decidedBy(ev.St, func(u *Term) bool { return optField(u, b.defMax) })) &&
				!crossed(ev.St, func(u *Term) bool { return own(u, b.max) || optField(u, b.defMax) }) {
				r.bad("default bound", key+":upper", p.instrPos(ev.In), "the upper end of the range ignores the upper bound: %s", hi)
			}
			checked(ev.St, lo, ev.In, "lower end")
			checked(ev.St, hi, ev.In, "upper end")
			return true
		}
		x.cfg.OnFact = func(s *State, a *Term, v bool, at ssa.Instruction) {
			if a.Op != "bin" || a.Aux != "<" || !a.any(func(t *Term) bool { return optField(t, b.defMin) || own(t, b.min) }) {
				return
			}
			if a.any(func(t *Term) bool { return t.Op == "len" || t.Op == "loopvar" }) {
				checked(s, a, at, "limit")
			}
		}
		x.Root(root, nil)
		r.exec(x, shortFn(root))
		if n == 0 {
			r.bad("default bound", shortFn(root)+":range", p.posAt(root.Pos()), "no number of elements is drawn within %s and %s", b.min, b.max)
		}
	}
	r.need("default bound", 6)
}

// decidedBy: the path has settled something about the value.
func decidedBy(s *State, is func(*Term) bool) bool {
	for f := range s.facts {
		if f.any(is) {
			return true
		}
	}
	return false
}

// crossed: the path has found the upper bound at or below something else.
func crossed(s *State, upper func(*Term) bool) bool {
	for f, v := range s.facts {
		if f.Op == "bin" && f.Aux == "<" && len(f.A) == 2 && (v && f.A[0].any(upper) || !v && f.A[1].any(upper)) {
			return true
		}
	}
	return false
}

// parserOptions: what the parser works with.
func (r *R) parserOptions() {
	p := r.p
	tn := p.Repo[""].Pkg.Scope().Lookup("ParserOptions")
	if tn == nil {
		r.missing("type ParserOptions")
		return
	}
	st := tn.Type().Underlying().(*types.Struct)
	touch := p.touching(func(in ssa.Instruction) bool {
		return usesField(in, "ParserOptions", "RegexStringOptions", "RegexPatternPropertyOptions", "DocumentFetchOptions", "RelativeTo", "MaxParseDepth") || usesField(in, "parserMetadata", "ParserOptions")
	}, func(f *ssa.Function) bool { return takes(f, "parserMetadata") })
	for _, root := range p.libRoots() {
		if !takes(root, "ParserOptions") || !takesSchema(root) && !touch[root] {
			continue
		}
		if root.Signature.Recv() != nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			r.parserOption(root, st, i, touch)
		}
	}
	r.need("parser option", 12)
	r.need("fetchers", 2)
}

func takes(f *ssa.Function, tn string) bool {
	for _, pr := range f.Params {
		if typeName(deref(pr.Type())) == tn {
			return true
		}
	}
	return false
}

func takesSchema(f *ssa.Function) bool {
	for _, pr := range f.Params {
		switch t := pr.Type().Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Basic:
			return t.Info()&types.IsString != 0
		}
	}
	return false
}

func (r *R) parserOption(root *ssa.Function, st *types.Struct, i int, touch map[*ssa.Function]bool) {
	p := r.p
	name := st.Field(i).Name()
	key := shortFn(root) + ":" + name
	isOpt := func(t *Term) bool {
		return t.any(func(u *Term) bool { return isField(strip(u), "ParserOptions", name) })
	}
	x := newExec(p, Config{
		Inline: func(f *ssa.Function) bool {
			if takes(f, "parserMetadata") || p.recursive(f) {
				return false
			}
			return touch[f] || fnPkgPath(originOf(f)) == "github.com/ryanolee/go-chaff/internal/util"
		},
		Fact: relevantFacts(isOpt),
		Track: func(a *Term) bool {
			return a.Op != "faddr" || ownerName(a) != "ParserOptions" || fieldName(a) == name
		},
	})
	// the caller's value, before anything happened
	var in *Term
	holdsFetcher := p.fetcherTable()
	const mon = "registered"
	x.cfg.OnInstr = func(s *State, fr *frame, ins ssa.Instruction) {
		mu, ok := ins.(*ssa.MapUpdate)
		if !ok || name != "DocumentFetchOptions" || holdsFetcher == nil || !holdsFetcher(mu.Map.Type()) {
			return
		}
		if k, isC := strConst(x.val(s, mu.Key)); isC {
			s.mon[mon+":"+k] = "1"
		}
	}
	sink := 0
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee == nil || !takes(ev.Callee, "parserMetadata") {
			return false
		}
		for _, a := range ev.Args {
			if typeName(deref(a.typ())) != "parserMetadata" {
				continue
			}
			ms := structOf(deref(a.typ()))
			mi := fieldIndex(ms, "ParserOptions")
			if mi < 0 {
				continue
			}
			sink++
			if ev.St.mon["sink"] != "" {
				break // from here on the options belong to the parser
			}
			ev.St.mon["sink"] = "1"
			po := x.faddr(a, ms, mi)
			if _, isP := ms.Field(mi).Type().Underlying().(*types.Pointer); isP {
				po = x.load(ev.St, po)
			}
			v := x.load(ev.St, x.faddr(po, st, i))
			r.parserValue(x, ev, root, key, name, v, in, mon)
			break
		}
		return true
	}
	x.Root(root, func(s *State, params []*Term) {
		for _, t := range params {
			if typeName(deref(t.T)) == "ParserOptions" {
				if _, isP := t.T.Underlying().(*types.Pointer); isP {
					in = x.load(s, x.faddr(t, st, i))
				} else {
					in = x.field(t, st, i)
				}
			}
		}
	})
	r.exec(x, key)
	if sink == 0 {
		r.bad("parser option", key, p.posAt(root.Pos()), "the options of the parser are not handed on")
	}
}

func (r *R) parserValue(x *Exec, ev *CallEvent, root *ssa.Function, key, name string, v, in *Term, mon string) {
	p := r.p
	pos := p.instrPos(ev.In)
	s := ev.St
	switch name {
	case "RegexStringOptions", "RegexPatternPropertyOptions":
		if v == in && x.knownNonNil(s, in) {
			r.ok("parser option", key+" as passed")
			return
		}
		if !x.knownNil(s, in) {
			r.bad("parser option", key, pos, "%s is given the value %s although it may have been set (%s)", name, v, trailOf(s))
			return
		}
		ga := structOf(deref(v.typ()))
		if ga == nil || rootTerm(v).Op == "param" || v.isNil() || v == in {
			r.bad("parser option", key, pos, "an unset %s becomes %s instead of its defaults (%s)", name, v, trailOf(s))
			return
		}
		good := true
		for _, d := range []struct {
			f string
			v constant.Value
		}{{"MaxUnboundedRepeatCount", constant.MakeInt64(10)}, {"SuppressRandomBytes", constant.MakeBool(true)}, {"Flags", nil}} {
			fi := fieldIndex(ga, d.f)
			if fi < 0 {
				continue
			}
			c := x.load(s, x.faddr(v, ga, fi))
			if !c.isConst() || d.v != nil && c.cv().ExactString() != d.v.ExactString() || d.v == nil && isZeroC(c) {
				good = false
				r.bad("parser option", key+":"+d.f, pos, "by default %s of %s is %s", d.f, name, c)
			}
		}
		if good {
			r.ok("parser option", key+" default")
		}
	case "RelativeTo":
		if v == in {
			r.ok("parser option", key+" as passed")
			return
		}
		if zero, known := x.unset(s, in); known && zero {
			r.ok("parser option", key+" default")
			return
		}
		r.bad("parser option", key, pos, "RelativeTo is given the value %s although it may have been set (%s)", v, trailOf(s))
	case "DocumentFetchOptions":
		if !x.sameStruct(v, in) {
			r.bad("parser option", key, pos, "DocumentFetchOptions is given the value %s (%s)", v, trailOf(s))
			return
		}
		r.ok("parser option", key+" as passed")
		// what is enabled can be used
		st := structOf(v.T)
		for _, e := range []struct {
			field   string
			schemes []string
		}{{"HTTPFetchOptions", []string{"http", "https"}}, {"FileSystemFetchOptions", []string{"file"}}} {
			fi := fieldIndex(st, e.field)
			if fi < 0 {
				r.missing("DocumentFetchOptions." + e.field)
				continue
			}
			o := x.field(v, st, fi)
			os := structOf(o.T)
			en := x.field(o, os, fieldIndex(os, "Enabled"))
			off, known := x.unset(s, en)
			if known && off {
				continue
			}
			if !known {
				r.bad("fetchers", key+":"+e.field, pos, "parsing starts without looking at whether %s are enabled", e.field)
				continue
			}
			for _, sc := range e.schemes {
				if s.mon[mon+":"+sc] == "" {
					r.bad("fetchers", key+":"+sc, pos, "%s are enabled but documents with the scheme %q cannot be fetched (%s)", e.field, sc, trailOf(s))
				} else {
					r.ok("fetchers", key+":"+sc)
				}
			}
		}
	default:
		r.checkOption(x, s, "parser option", key, name, v, in, ev.In)
	}
}

// sameStruct: both are the same contents.
func (x *Exec) sameStruct(a, b *Term) bool {
	a, b = strip(a), strip(b)
	if a == b {
		return true
	}
	if (a.Op == "load" || a.Op == "sload") && (b.Op == "load" || b.Op == "sload") && a.A[0] == b.A[0] && a.A[1] == b.A[1] {
		return true
	}
	st := structOf(a.T)
	if st == nil || structOf(b.T) == nil || !types.Identical(a.T, b.T) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !x.sameStruct(x.field(a, st, i), x.field(b, st, i)) {
			return false
		}
	}
	return true
}

// fetcherTable: recognises the table of document fetchers.
func (p *Prog) fetcherTable() func(t types.Type) bool {
	it := p.fetcherIface()
	if it == nil {
		return nil
	}
	return func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		i, ok := deref(m.Elem()).Underlying().(*types.Interface)
		return ok && types.Identical(i, it)
	}
}

// regexOptions: the pattern generators of strings and of pattern properties use their own options.
func (r *R) regexOptions() {
	p := r.p
	rg := p.iface("internal/regen", "Generator")
	if rg == nil {
		r.missing("the interface of pattern generators")
		return
	}
	isRegen := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && types.Identical(i, rg)
	}
	isCtor := func(f *ssa.Function) bool {
		s := f.Signature
		return s.Results().Len() == 2 && isRegen(s.Results().At(0).Type()) && fnPkgPath(f) != "" && s.Recv() == nil
	}
	// functions that keep a pattern generator
	for _, fn := range p.allBodies() {
		if fn.Pkg == nil || fn.Pkg != p.Repo[""] || isCtor(fn) {
			continue
		}
		str, prop := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && isRegen(s.Val.Type()) {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && typeName(deref(fa.X.Type())) == "stringGenerator" {
						str = true
					}
				}
				if mu, ok := in.(*ssa.MapUpdate); ok && isRegen(mu.Value.Type()) {
					prop = true
				}
			}
		}
		if !str && !prop {
			continue
		}
		key := shortFn(fn)
		x := newExec(p, Config{
			Inline: func(f *ssa.Function) bool {
				return !isCtor(f) && !p.recursive(f)
			},
			Fact:  relevantFacts(func(t *Term) bool { return t.Op == "call" || t.Op == "result" || t.Op == "param" }),
			Track: func(a *Term) bool { return true },
		})
		check := func(s *State, v *Term, what, opt string, pattern func(t *Term) bool, at ssa.Instruction) {
			pos := p.instrPos(at)
			v = stripI(v)
			if v.isNil() || x.knownNil(s, v) {
				return
			}
			c, okc := ctorCall(v)
			if !okc {
				r.bad("regex options", key+":"+what, pos, "the pattern generator of %s is %s", what, v)
				return
			}
			args := c
			gotOpt, gotPat := false, false
			for _, a := range args {
				a = strip(a)
				if o, n, _, ok := fieldRead(a); ok && o == "ParserOptions" {
					if n == opt {
						gotOpt = true
					} else {
						r.bad("regex options", key+":"+what+":"+n, pos, "the pattern generator of %s is built with the option %s instead of %s", what, n, opt)
						return
					}
				}
				gotPat = gotPat || pattern(a)
			}
			if !gotOpt {
				r.bad("regex options", key+":"+what+":options", pos, "the pattern generator of %s is not built with the option %s: %s", what, opt, v)
				return
			}
			if !gotPat {
				r.bad("regex options", key+":"+what+":pattern", pos, "the pattern generator of %s is not built from its own pattern: %s", what, v)
				return
			}
			r.ok("regex options", key+" "+what)
		}
		x.cfg.OnInstr = func(s *State, fr *frame, in ssa.Instruction) {
			switch w := in.(type) {
			case *ssa.Store:
				if fa, ok := w.Addr.(*ssa.FieldAddr); ok && isRegen(w.Val.Type()) && typeName(deref(fa.X.Type())) == "stringGenerator" {
					check(s, x.val(s, w.Val), "a string", "RegexStringOptions", func(t *Term) bool {
						return t.Op == "load" && len(t.A) > 0 && isField(strip(t.A[0]), "schemaNode", "Pattern") || isField(t, "schemaNode", "Pattern")
					}, in)
				}
			case *ssa.MapUpdate:
				if isRegen(w.Value.Type()) {
					k := strip(x.val(s, w.Key))
					check(s, x.val(s, w.Value), "a pattern property", "RegexPatternPropertyOptions", func(t *Term) bool { return t == k }, in)
				}
			}
		}
		x.Root(fn, nil)
		r.exec(x, key)
	}
	r.need("regex options", 2)
}

// ctorCall: the arguments of the call a value is the first result of.
func ctorCall(t *Term) ([]*Term, bool) {
	if t == nil || t.Op != "call" && t.Op != "pcall" {
		return nil, false
	}
	return t.A, true
}
