package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: free strings respect their lengths.

func init() {
	register("C27", "The parser of strings is interpreted for schemas without pattern and format; then, in every state in which it returned a generator, the Generate method of that generator is interpreted (with a model of strings.Builder whose Len is the length of its String). On every path the length of the returned string is entailed to be at least the minimum and, unless the maximum is zero, at most the maximum, by the path's comparisons; the generator's bounds are the schema's own or zero where absent; and the parser only succeeds on paths that have excluded negative lengths and a minimum above the maximum.",
		"strings with a pattern or format, maxLength 0 (treated as unset), characters outside ASCII (faker's sentences are ASCII: their length in bytes is taken for the length in characters).", ruleC27)
}

func ruleC27(r *R) {
	p := r.p
	gen := p.method("", "stringGenerator", "Generate")
	if gen == nil {
		r.missing("stringGenerator.Generate")
		return
	}
	found := 0
	for _, f := range p.Funcs {
		if p.makesGenerator(f, "stringGenerator") {
			found++
			stringLengths(r, f, gen)
		}
	}
	if found == 0 {
		r.missing("a function that parses string schemas")
	}
	r.need("bounds", 1)
	r.need("length", 2)
}

// builders models strings.Builder and bytes.Buffer: the cell holds a term for the text so far.
type builders struct {
	x   *Exec
	pre map[ssa.CallInstruction]*Term
}

func (b *builders) isMethod(ev *CallEvent) string {
	f := ev.Callee
	if f == nil || f.Pkg == nil || len(ev.Args) == 0 {
		return ""
	}
	if n := fullName(f); strings.HasPrefix(n, "strings.Builder.") || strings.HasPrefix(n, "bytes.Buffer.") || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "(*bytes.Buffer).") {
		return f.Name()
	}
	return ""
}

func (b *builders) before(ev *CallEvent) {
	if b.isMethod(ev) != "" {
		b.pre[ev.In] = b.x.load(ev.St, ev.Args[0])
	}
}

func (b *builders) after(ev *CallEvent, rets []*Term) {
	x := b.x
	m := b.isMethod(ev)
	pre := b.pre[ev.In]
	if m == "" || pre == nil {
		return
	}
	delete(b.pre, ev.In)
	text := x.T.mk("text", nil, 0, types.Typ[types.String], nil, nil, pre)
	switch m {
	case "Len":
		rets[0] = x.lenOf(ev.St, text)
		x.store(ev.St, ev.Args[0], pre, ev.In)
	case "String":
		rets[0] = text
		x.store(ev.St, ev.Args[0], pre, ev.In)
	case "Grow", "Cap":
		x.store(ev.St, ev.Args[0], pre, ev.In)
	}
}

// entails decides a <= b from the comparisons of a path.
type entail struct {
	x  *Exec
	st *State
}

func (e *entail) leq(a, b *Term) bool { return e.le(strip(a), strip(b), map[*Term]bool{}) }

func (e *entail) le(a, b *Term, seen map[*Term]bool) bool {
	a, b = e.firstSet(a), e.firstSet(b)
	if a == b {
		return true
	}
	if isNum(a) && isNum(b) {
		return constant.Compare(a.cv(), token.LEQ, b.cv())
	}
	if isZeroC(a) && (b.Op == "len" || e.positive(b)) {
		return true
	}
	if lo, _ := e.x.interval(e.st, b); lo != nil && isNum(a) && constant.Compare(a.cv(), token.LEQ, lo) {
		return true
	}
	if _, hi := e.x.interval(e.st, a); hi != nil && isNum(b) && constant.Compare(hi, token.LEQ, b.cv()) {
		return true
	}
	// the smallest and the largest of some numbers
	if as, isMin := extremum(a); as != nil {
		for _, t := range as {
			if e.le(strip(t), b, seen) == isMin {
				return isMin
			}
		}
		if !isMin {
			return true
		}
	}
	if bs, isMin := extremum(b); bs != nil {
		for _, t := range bs {
			if e.le(a, strip(t), seen) != isMin {
				return !isMin
			}
		}
		if isMin {
			return true
		}
	}
	if seen[a] {
		return false
	}
	seen[a] = true
	defer delete(seen, a)
	for f, v := range e.st.facts {
		if f.Op != "bin" {
			continue
		}
		l, r := e.firstSet(strip(f.A[0])), e.firstSet(strip(f.A[1]))
		op := f.Aux.(string)
		lo, hi := (*Term)(nil), (*Term)(nil)
		switch {
		case (op == "<" || op == "<=") && v, (op == ">" || op == ">=") && !v:
			lo, hi = l, r
		case (op == "<" || op == "<=") && !v, (op == ">" || op == ">=") && v:
			lo, hi = r, l
		case op == "==" && v:
			if l == a && e.le(r, b, seen) || r == a && e.le(l, b, seen) {
				return true
			}
			continue
		default:
			continue
		}
		if lo == a && e.le(hi, b, seen) {
			return true
		}
	}
	return false
}

// firstSet resolves a call that selects the first number that is not zero.
func (e *entail) firstSet(t *Term) *Term {
	if !callTo(t, "github.com/ryanolee/go-chaff/internal/util.GetInt") || len(t.A) != 1 || t.A[0].Op != "list" {
		return t
	}
	for _, a := range t.A[0].A {
		a = strip(a)
		v, k := e.x.decide(e.st, e.x.bin("==", a, e.x.T.Int(0), types.Typ[types.Bool]))
		if !k {
			return t
		}
		if !v {
			return a
		}
	}
	return t
}

// whenSet is the entailment on the states in which the number is not zero.
func (e *entail) whenSet(a *Term) *entail {
	st := e.st.clone()
	e.x.assume(st, e.x.bin("==", a, e.x.T.Int(0), types.Typ[types.Bool]), false, nil)
	return &entail{e.x, st}
}

// extremum: the numbers among which a call selects the smallest or the largest.
func extremum(t *Term) (args []*Term, isMin bool) {
	if t.Op != "call" && t.Op != "pcall" && t.Op != "builtin" {
		return nil, false
	}
	name := ""
	switch a := t.Aux.(type) {
	case *ssa.Function:
		name = a.Name()
	case string:
		name = a
	}
	if name != "MinInt" && name != "MaxInt" && name != "min" && name != "max" {
		return nil, false
	}
	args = t.A
	if len(args) == 1 && args[0].Op == "list" {
		args = args[0].A
	}
	if len(args) == 0 {
		return nil, false
	}
	return args, name == "MinInt" || name == "min"
}

func (e *entail) positive(b *Term) bool {
	for f, v := range e.st.facts {
		if f.Op == "bin" && f.Aux == "<" {
			if !v && strip(f.A[0]) == b && isZeroC(f.A[1]) || v && isZeroC(f.A[0]) && strip(f.A[1]) == b {
				return true
			}
		}
	}
	return false
}

// eqZero: the path knows that the term is zero.
func (e *entail) eqZero(a *Term) bool {
	a = strip(a)
	if isZeroC(a) || a.Op == "zero" {
		return true
	}
	v, k := e.x.decide(e.st, e.x.bin("==", a, e.x.T.Int(0), types.Typ[types.Bool]))
	return k && v
}

func stringLengths(r *R, parse, gen *ssa.Function) {
	p := r.p
	var x *Exec
	b := &builders{pre: map[ssa.CallInstruction]*Term{}}
	isN := func(t *Term, name string) bool { return isField(strip(t), "schemaNode", name) }
	val := func(t *Term, name string) bool {
		t = strip(t)
		return (t.Op == "load" || t.Op == "sload") && isN(t.A[0], name)
	}
	x = newExec(p, Config{
		NoUnroll: true,
		Fact:     func(a *Term) int { return 1 },
		Inline: func(g *ssa.Function) bool {
			if g.Pkg == nil {
				return true
			}
			return p.inRepo(g) && !p.leavesParser(g) && g.Name() != "generateFormat" && g.Name() != "MinInt" && g.Name() != "MaxInt" && (g.Pkg == parse.Pkg || strings.HasSuffix(g.Pkg.Pkg.Path(), "/util")) && recvName(g) != "Generator"
		},
		OnCall:   func(ev *CallEvent) bool { b.before(ev); return parsesNode(ev) },
		OnOpaque: b.after,
	})
	b.x = x
	nilKw := func(st *State, n string) bool {
		for a, v := range st.facts {
			l, e, ok := eqOperands(a)
			if ok && v && (isN(l, n) && e.isNil() || isN(e, n) && l.isNil()) {
				return true
			}
		}
		return false
	}
	var opts *Term
	for _, o := range x.Root(parse, func(st *State, ps []*Term) {}) {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		g := strip(o.rets[0])
		recv := g
		if _, ok := g.typ().Underlying().(*types.Pointer); ok {
			g = x.load(o.st, g)
		}
		if !isRepoType(g.typ(), "stringGenerator") {
			continue
		}
		st := o.st
		if !nilKw(st, "Format") || !nilKw(st, "Pattern") {
			continue
		}
		pos := p.instrPos(o.at)
		gs := structOf(g.T)
		get := func(n string) *Term { return strip(x.fieldNamed(g, gs, n)) }
		min, max := get("MinLength"), get("MaxLength")
		en := &entail{x, st}
		fine := true
		bound := func(t *Term, name string) {
			if val(t, name) || nilKw(st, name) && en.eqZero(t) {
				return
			}
			// a value the path equates with the keyword's
			fine = false
			r.bad("bounds", name+" "+pos, pos, "the generator's bound is %s, which is not %s of the schema (path: %s)", t, name, trailOf(st))
		}
		bound(min, "MinLength")
		bound(max, "MaxLength")
		if !en.leq(x.T.Int(0), min) {
			fine = false
			r.bad("bounds", "negative minimum "+pos, pos, "a schema with a negative minLength is accepted (path: %s)", trailOf(st))
		}
		if !en.leq(x.T.Int(0), max) {
			fine = false
			r.bad("bounds", "negative maximum "+pos, pos, "a schema with a negative maxLength is accepted (path: %s)", trailOf(st))
		}
		if !en.eqZero(max) && !en.leq(min, max) {
			fine = false
			r.bad("bounds", "contradiction "+pos, pos, "a schema whose minLength is above its maxLength is accepted (path: %s)", trailOf(st))
		}
		if fine {
			r.ok("bounds", pos+" "+min.String()+" "+max.String())
		}
		if opts == nil {
			opts = x.T.mk("param", "opts", 1, gen.Params[1].Type(), nil, nil)
		}
		if _, ok := gen.Params[0].Type().Underlying().(*types.Pointer); !ok {
			recv = g
		}
		s2 := st.clone()
		for _, q := range x.run(gen, s2, []*Term{recv, opts}, nil, nil, nil) {
			if q.kind != "return" {
				continue
			}
			at := p.instrPos(q.at)
			v := stripI(q.rets[0])
			if !isStringT(v.typ()) {
				r.bad("length", at, at, "the generator of a free string returns %s (path: %s)", v, trailOf(q.st))
				continue
			}
			n := x.lenOf(q.st, v)
			e := &entail{x, q.st}
			switch {
			case !e.eqZero(min) && !e.leq(min, n):
				r.bad("length", at, at, "the string %s is returned although it may be shorter than the minimum length (path: %s)", v, trailOf(q.st))
			case !e.eqZero(max) && !e.leq(n, max):
				r.bad("length", at, at, "the string %s is returned although it may be longer than the maximum length (path: %s)", v, trailOf(q.st))
			default:
				r.ok("length", at+" "+min.String()+" "+max.String())
			}
		}
	}
	r.fn(gen)
	r.exec(x, fullName(parse))
}
