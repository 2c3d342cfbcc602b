package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", "Every constraint's Apply and the generator that applies them are interpreted on all paths: what they return is a diagnostic text, the unchanged value once the cutoff is passed, or a value for which the path proves the constraint: exactly one branch schema accepted it after all were tried, every exclusion function accepted it, or the condition of every if statement was checked on it and on the value of the branch its outcome asks for. On the parser's side it is shown that oneOf, not and if always attach their constraint (or report an error), that none of their sub-schemas is left out unreported, that each collected exclusion is compiled into a function that rejects exactly it, and that merging collections of exclusions loses none.",
		"whether the validator library decides a branch correctly; several ifs are checked one after the other, not again together.", runC09)
}

func isAnyT(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 0
}

func isCheckFunc(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && s.Results().Len() == 1 && isAnyT(s.Params().At(0).Type()) && types.Identical(s.Results().At(0).Type(), types.Typ[types.Bool])
}

func isSchemaT(t types.Type) bool {
	return typeName(deref(t)) == "Schema" || typeName(t) == "Schema"
}

// kinds of constraints, by what they consist of
func (p *Prog) constraintKind(t types.Type) string { return p.kindAt(t, 0) }

func (p *Prog) kindAt(t types.Type, d int) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	gens, check := 0, false
	gi := p.generatorIface()
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if isSchemaT(u.Elem()) {
				return "one"
			}
			if isCheckFunc(u.Elem()) {
				return "all"
			}
			if d == 0 && p.kindAt(u.Elem(), 1) == "if" {
				return "ifs"
			}
		case *types.Map:
			if isCheckFunc(u.Elem()) {
				return "all"
			}
		case *types.Signature:
			check = check || isCheckFunc(ft)
		case *types.Interface:
			if gi != nil && types.Identical(u, gi) {
				gens++
			}
		}
	}
	if check && gens == 2 {
		return "if"
	}
	return ""
}

type applyRun struct {
	r      *R
	x      *Exec
	key    string
	kind   string
	checks map[*Term][2]*Term // result of a check -> what was asked, value
	conds  map[string][2]*Term
	sweeps map[*Loop]bool
}

func pk(a, b *Term) string { return strconv.Itoa(a.id) + "|" + strconv.Itoa(b.id) }

func runC09(r *R) {
	p := r.p
	applies := p.constraintApplies()
	kinds := map[string]int{}
	for _, f := range applies {
		k := p.constraintKind(f.Signature.Recv().Type())
		if k == "" {
			r.bad("constraint", shortFn(f), p.posAt(f.Pos()), "%s is a constraint of an unknown kind: what it guarantees cannot be told", shortFn(f))
			continue
		}
		kinds[k]++
		r.applyConstraint(f, k)
	}
	for _, k := range []string{"one", "all", "ifs"} {
		if kinds[k] == 0 {
			r.missing("the constraint for " + map[string]string{"one": "oneOf", "all": "not", "ifs": "if"}[k])
		}
	}
	r.need("result", 4)
	r.constrained()
	r.attach()
	r.exclusions()
}

func (a *applyRun) value(v *Term) *Term { return stripI(v) }

// fieldOfRecv: the collection is read from the receiver.
func fromParam(t *Term) bool {
	o, _, base, ok := fieldRead(t)
	if !ok || o == "" {
		return false
	}
	return rootTerm(base).Op == "param" || base.Op == "param" || base.Op == "load" || base.Op == "sload"
}

func (r *R) applyConstraint(f *ssa.Function, kind string) {
	p := r.p
	key := shortFn(f)
	a := &applyRun{r: r, key: key, kind: kind, checks: map[*Term][2]*Term{}, conds: map[string][2]*Term{}, sweeps: map[*Loop]bool{}}
	budget := func(g *ssa.Function) bool { return recvName(g) == "GeneratorOptions" }
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			return !isGenerate(g) && !budget(g) && p.genInline(g) && g.Name() != "String"
		},
		Lows: true,
	})
	a.x = x
	x.cfg.Fact = func(t *Term) int {
		if t.any(func(q *Term) bool { return q.Op == "call" && (q.Aux == "dynamic" || callTo(q, "invoke.Generate")) }) {
			return 1
		}
		return 0
	}
	x.cfg.OnOpaque = a.opaque
	x.cfg.OnFact = a.fact
	x.cfg.OnHead = a.head
	x.cfg.OnBack = a.back
	x.cfg.OnExit = a.exit
	outs := x.Root(f, nil)
	r.exec(x, key)
	for _, o := range outs {
		if o.kind != "return" || len(o.rets) != 1 {
			continue
		}
		v := o.rets[0]
		if v.Op == "iface" && isStringT(v.T) {
			r.ok("result", key+" diagnostic")
			continue
		}
		if msg := a.proved(o.st, a.value(v)); msg != "" {
			r.bad("result", key, p.instrPos(o.at), "%s returns a value although %s (%s)", key, msg, trailOf(o.st))
		} else {
			r.ok("result", key+" "+p.instrPos(o.at))
		}
	}
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (a *applyRun) opaque(ev *CallEvent, rets []*Term) {
	if len(rets) != 1 {
		return
	}
	if ev.Callee != nil && ev.Callee.Name() == "Validate" && len(ev.Args) == 2 && isSchemaT(ev.Args[0].typ()) {
		a.checks[rets[0]] = [2]*Term{ev.Args[0], a.value(ev.Args[1])}
		return
	}
	if ev.Fun != nil && ev.Callee == nil && len(ev.Args) == 1 && isCheckFunc(ev.Fun.typ()) {
		a.checks[rets[0]] = [2]*Term{ev.Fun, a.value(ev.Args[0])}
	}
}

// consOf: the if statement whose condition is called.
func consOf(fun *Term) *Term {
	_, _, base, ok := fieldRead(fun)
	if !ok {
		return nil
	}
	return base
}

func (a *applyRun) fact(st *State, t *Term, val bool, at ssa.Instruction) {
	pass := val
	c, ok := a.checks[t]
	if !ok {
		if l, rr, eq := eqOperands(t); eq {
			if rr.isNil() {
				c, ok = a.checks[l]
			} else if l.isNil() {
				c, ok = a.checks[rr]
			}
		}
	}
	if !ok {
		return
	}
	s := "fail"
	if pass {
		s = "pass"
	}
	switch a.kind {
	case "if", "ifs":
		cons := consOf(c[0])
		if cons == nil {
			return
		}
		st.mon["c"+pk(cons, c[1])] = s
		a.conds["c"+pk(cons, c[1])] = [2]*Term{cons, c[1]}
	default:
		if coll, isE := elemOf(c[0]); isE {
			st.mon["it"+pk(coll, c[1])] = s
			a.conds["it"+pk(coll, c[1])] = [2]*Term{coll, c[1]}
		}
	}
}

// wanted: the loop visits the parts of the constraint.
func (a *applyRun) wanted(coll *Term) bool {
	if callTo(coll, "math/rand.Perm", "math/rand/v2.Perm") || coll.Op == "call" && strings.HasSuffix(calleeName(coll), "Perm") {
		for _, q := range coll.A {
			if q.Op == "len" {
				return a.wanted(q.A[0])
			}
		}
		return false
	}
	t := coll.typ()
	if t == nil || !fromParam(coll) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return a.kind == "one" && isSchemaT(u.Elem()) || a.kind == "all" && isCheckFunc(u.Elem()) || (a.kind == "ifs") && a.r.p.constraintKind(u.Elem()) == "if"
	case *types.Map:
		return a.kind == "all" && isCheckFunc(u.Elem())
	}
	return false
}

func (a *applyRun) head(st *State, fr *frame, l *Loop) {
	coll := a.x.loopOver(st, l)
	if coll != nil && a.wanted(coll) {
		a.sweeps[l] = true
		st.mon[a.x.sweepKey(l, st)] = "|0|ok"
	}
}

func (a *applyRun) back(st *State, fr *frame, l *Loop) {
	x := a.x
	if !a.sweeps[l] {
		for k := range st.mon {
			delete(st.mon, k) // the next round deals with another value
		}
		return
	}
	k := x.sweepKey(l, st)
	q := strings.Split(st.mon[k], "|")
	if len(q) != 3 {
		return
	}
	n, _ := strconv.Atoi(q[1])
	switch a.kind {
	case "one", "all":
		seen := ""
		for m, s := range st.mon {
			if !strings.HasPrefix(m, "it") {
				continue
			}
			v := strconv.Itoa(a.conds[m][1].id)
			if seen != "" || q[0] != "" && q[0] != v {
				q[2] = "bad"
			}
			seen = v
			if s == "pass" {
				n = min(n+1, 3)
			} else if a.kind == "all" {
				q[2] = "bad"
			}
			delete(st.mon, m)
		}
		if seen == "" {
			q[2] = "bad"
		} else {
			q[0] = seen
		}
		if a.kind == "all" {
			n = 0
		}
	case "ifs":
		phis, lvs := x.carried(st, l, isAnyT)
		good := false
		for i, ph := range phis {
			v := st.env[ph]
			if v == nil {
				continue
			}
			if a.satisfied(st, a.value(lvs[i]), a.value(v)) {
				good = true
				q[0] = strconv.Itoa(lvs[i].id)
			}
		}
		if !good {
			q[2] = "bad"
		}
		for m := range st.mon {
			if strings.HasPrefix(m, "c") {
				delete(st.mon, m)
			}
		}
	}
	st.mon[k] = q[0] + "|" + strconv.Itoa(n) + "|" + q[2]
}

func (a *applyRun) exit(st *State, fr *frame, l *Loop, end bool) {
	k := a.x.sweepKey(l, st)
	s, ok := st.mon[k]
	if !ok {
		return
	}
	delete(st.mon, k)
	if !end {
		return
	}
	if a.kind == "ifs" {
		_, lvs := a.x.carried(st, l, isAnyT)
		q := strings.Split(s, "|")
		for _, lv := range lvs {
			if q[0] == "" || q[0] == strconv.Itoa(lv.id) {
				st.mon["full"] = strconv.Itoa(lv.id) + "|" + q[1] + "|" + q[2]
			}
		}
		return
	}
	st.mon["full"] = s
}

// satisfied: the outcome of the condition on old asks for new, and new has the same outcome.
func (a *applyRun) satisfied(st *State, old, new *Term) bool {
	for k, s := range st.mon {
		if !strings.HasPrefix(k, "c") {
			continue
		}
		c := a.conds[k]
		if c[1] != old && old != nil {
			continue
		}
		branch, other := "then", "else"
		if s == "fail" {
			branch, other = other, branch
		}
		gen := a.branchGen(st, c[0], branch)
		if gen == nil {
			continue
		}
		if new == c[1] && a.x.knownNil(st, gen) {
			return true
		}
		if callTo(new, "invoke.Generate") && len(new.A) > 0 && new.A[0] == gen && st.mon["c"+pk(c[0], new)] == s {
			return true
		}
	}
	return false
}

// branchGen: the generator of a branch of an if statement.
func (a *applyRun) branchGen(st *State, cons *Term, branch string) *Term {
	t := cons.typ()
	if t == nil {
		return nil
	}
	sst, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < sst.NumFields(); i++ {
		if strings.Contains(strings.ToLower(sst.Field(i).Name()), branch) {
			if _, isP := t.Underlying().(*types.Pointer); isP {
				return a.x.load(st, a.x.faddr(cons, sst, i))
			}
			return a.x.field(cons, sst, i)
		}
	}
	return nil
}

func (a *applyRun) proved(st *State, v *Term) string {
	if a.kind == "if" {
		if a.satisfied(st, nil, v) {
			return ""
		}
		return "its condition was not checked against the branch that produced it"
	}
	q := strings.Split(st.mon["full"], "|")
	if len(q) != 3 {
		return "not all parts of the constraint were checked on it"
	}
	switch {
	case q[2] != "ok":
		return "a part of the constraint was not checked on it or rejected it"
	case q[0] != "" && q[0] != strconv.Itoa(v.id):
		return "the checks were made on another value"
	case a.kind == "one" && q[1] != "1":
		return "not exactly one of the schemas accepted it"
	}
	return ""
}

// constrained: the generator that holds a list of constraints.
func (r *R) constrained() {
	p := r.p
	ci := p.constraintIfaceT()
	n := 0
	for _, f := range p.generateImpls() {
		st, ok := deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
		if !ok {
			continue
		}
		has := false
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && ci != nil && types.Identical(s.Elem(), ci) {
				has = true
			}
		}
		if !has {
			continue
		}
		n++
		key := shortFn(f)
		sweeps := map[*Loop]bool{}
		x := newExec(p, Config{
			Inline: func(g *ssa.Function) bool {
				return !isGenerate(g) && recvName(g) != "GeneratorOptions" && p.genInline(g) && g.Name() != "String"
			},
			Fact: func(t *Term) int { return 1 },
		})
		isList := func(c *Term) bool {
			s, ok := c.typ().Underlying().(*types.Slice)
			return ok && types.Identical(s.Elem(), ci) && fromParam(c)
		}
		x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
			if c := x.loopOver(st, l); c != nil && isList(c) {
				sweeps[l] = true
				st.mon[x.sweepKey(l, st)] = "ok"
			}
		}
		x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
			if !sweeps[l] {
				return
			}
			phis, lvs := x.carried(st, l, isAnyT)
			good := false
			for i, ph := range phis {
				v := st.env[ph]
				if v == nil || !callTo(v, "invoke.Apply") || len(v.A) != 4 {
					continue
				}
				if c, isE := elemOf(v.A[0]); isE && isList(c) && v.A[3] == lvs[i] && isField(v.A[1], typeName(deref(f.Signature.Recv().Type())), genField(st0(f), p)) {
					good = true
				}
			}
			if !good {
				st.mon[x.sweepKey(l, st)] = "bad"
			}
		}
		x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
			k := x.sweepKey(l, st)
			if s, ok := st.mon[k]; ok {
				delete(st.mon, k)
				if _, lvs := x.carried(st, l, isAnyT); end && s == "ok" && len(lvs) > 0 {
					st.mon["full"] = strconv.Itoa(lvs[0].id)
				}
			}
		}
		outs := x.Root(f, nil)
		r.exec(x, key)
		for _, o := range outs {
			if o.kind != "return" || len(o.rets) != 1 {
				continue
			}
			v := o.rets[0]
			if x.cutoffPassed(o.st) {
				r.ok("all applied", key+" cutoff")
				continue
			}
			if o.st.mon["full"] == strconv.Itoa(v.id) {
				r.ok("all applied", key+" "+p.instrPos(o.at))
			} else {
				r.bad("all applied", key, p.instrPos(o.at), "%s returns a value to which not every constraint was applied in turn although the cutoff was not passed (%s)", key, trailOf(o.st))
			}
		}
	}
	if n == 0 {
		r.missing("the generator that applies constraints")
	}
	r.need("all applied", 2)
}

func st0(f *ssa.Function) *types.Struct {
	return deref(f.Signature.Recv().Type()).Underlying().(*types.Struct)
}

// genField: the field that holds the generator of the values.
func genField(st *types.Struct, p *Prog) string {
	gi := p.generatorIface()
	for i := 0; i < st.NumFields(); i++ {
		if u, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && gi != nil && types.Identical(u, gi) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func (p *Prog) constraintIfaceT() types.Type {
	n := p.namedType("", "constraint")
	if n == nil {
		return nil
	}
	return n
}

// cutoffPassed: the path knows that the cutoff was reached.
func (x *Exec) cutoffPassed(st *State) bool {
	for a, v := range st.facts {
		if v && a.Op == "call" {
			if f, ok := a.Aux.(*ssa.Function); ok && f.Name() == "ShouldCutoff" {
				return true
			}
		}
	}
	return false
}
