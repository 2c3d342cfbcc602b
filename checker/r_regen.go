package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: what a generator built from a part of a pattern emits.

func init() {
	register("C21", "Every function that turns a node of a parsed pattern into a generator is interpreted together with the Generate method of what it returns, for the operators the dispatch gives it. The emitted text is put together from the pieces written on each path: zero-width operators emit nothing, a literal all of its characters, a concatenation one value of the generator of each of its parts in a loop over all of them, an alternation one value of the generator at a drawn index below their number, a repetition one value of its sub-pattern's generator per round of a counted loop whose bound is the minimum plus a draw from 0 to maximum minus minimum, a class one character whose offset was compared with the size of the range it is taken from, the ranges being built from both ends of every pair. An operator without generator and a part that fails must end in an error. The exported constructor hands the parsed pattern itself to the dispatch.",
		"the language of whole patterns (C32), the distribution of the draws, custom capture group handlers, the rewriting of dots when random bytes are suppressed.", ruleC21)
}

type regenRun struct {
	p      *Prog
	r      *R
	d      *ssa.Function // the dispatch
	reT    types.Type
	op     string
	opVal  int64
	f      *ssa.Function
	x      *Exec
	acc    *loopAcc
	self   *Term
	emit   bool // the generator is running
	terms  map[int]*Term
	colls  map[string]*Term // what a loop runs over
	bnds   map[string]*Term // its bound
	early  map[string]bool
	its    map[string][][]string // writes of each way around a loop
	strIt  map[*Term]*strLoop
	made   map[*Term][]rItem // result of String() -> what was written
	lists  map[*Term]*mapped
	cls    map[*Term]*Term
	args   *Term
	ints   map[*Term]*intLoop
	sets   map[string][]map[string]bool // lists that get an entry in each round
	cur    *State
	empty  ssa.Instruction
	looped bool
}

type intLoop struct {
	key   string
	init  *Term
	nexts []intNext
	busy  bool
}

type intNext struct {
	t  *Term
	st *State
}

type strLoop struct {
	key   string
	init  *Term
	its   [][]*Term
	first [][]*Term
}

type rItem struct {
	t    *Term
	loop string
	buf  string
	str  *Term
}

// mapped: a list filled with the generators of a list of patterns
type mapped struct {
	coll *Term
	bad  string
}

func isRegexpPtr(t types.Type) bool {
	return t.String() == "*regexp/syntax.Regexp"
}

func isFactory(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Params().Len() < 1 || sig.Results().Len() != 2 || !isRegexpPtr(sig.Params().At(0).Type()) || !isErrT(sig.Results().At(1).Type()) {
		return false
	}
	return hasGenerate(sig.Results().At(0).Type())
}

func hasGenerate(t types.Type) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, "Generate")
	m, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	s := m.Type().(*types.Signature)
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isStringT(s.Results().At(0).Type())
}

var syntaxOps = map[string]int64{"NoMatch": 1, "EmptyMatch": 2, "Literal": 3, "CharClass": 4, "AnyCharNotNL": 5, "AnyChar": 6, "BeginLine": 7, "EndLine": 8, "BeginText": 9, "EndText": 10, "WordBoundary": 11, "NoWordBoundary": 12, "Capture": 13, "Star": 14, "Plus": 15, "Quest": 16, "Repeat": 17, "Concat": 18, "Alternate": 19}

func ruleC21(r *R) {
	p := r.p
	var ctor *ssa.Function
	for _, f := range p.Funcs {
		if f.Name() == "NewGenerator" && f.Pkg != nil && strings.HasSuffix(f.Pkg.Pkg.Path(), "/regen") {
			ctor = f
		}
	}
	if ctor == nil {
		r.missing("regen.NewGenerator")
		return
	}
	d := regenCtor(r, ctor)
	if d == nil {
		return
	}
	table := regenDispatch(r, d)
	var names []string
	for n := range syntaxOps {
		names = append(names, n)
	}
	sort.Strings(names)
	type job struct {
		op string
		f  *ssa.Function
	}
	var jobs []job
	for _, n := range names {
		for _, f := range table[syntaxOps[n]] {
			jobs = append(jobs, job{n, f})
		}
	}
	r.each(len(jobs), func(r *R, i int) {
		g := &regenRun{p: r.p, r: r, d: d, op: jobs[i].op, opVal: syntaxOps[jobs[i].op], f: jobs[i].f}
		g.run()
	})
	regenHandlers(r, ctor.Pkg)
	r.need("operator", 16)
}

// regenCtor: the constructor gives the dispatch the pattern it was handed, parsed.
func regenCtor(r *R, ctor *ssa.Function) *ssa.Function {
	var d *ssa.Function
	p := r.p
	x := newExec(p, Config{Inline: func(g *ssa.Function) bool { return p.inRepo(g) && !isFactory(g) }})
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee != nil && isFactory(ev.Callee) {
			if d == nil || d == ev.Callee {
				d = ev.Callee
			}
			return true
		}
		return false
	}
	outs := x.Root(ctor, nil)
	r.exec(x, "constructor")
	if d == nil {
		r.missing("the function that turns a parsed pattern into a generator")
		return nil
	}
	pat := x.T.mk("param", ctor.Params[0], 0, ctor.Params[0].Type(), nil, nil)
	for _, o := range outs {
		if o.kind != "return" || len(o.rets) < 2 || x.knownNonNil(o.st, o.rets[len(o.rets)-1]) {
			continue
		}
		pos := p.instrPos(o.at)
		g := strip(o.rets[0])
		switch {
		case g.isNil() || x.knownNil(o.st, g):
			// an error that is not known to be non-nil
			if !x.knownNil(o.st, o.rets[1]) && !o.rets[1].isNil() {
				continue
			}
			r.bad("constructor", "none", pos, "no generator and no error is returned (%s)", trailOf(o.st))
		case g.Op == "call" && g.Aux == originOf(d):
			re := strip(g.A[0])
			if !callTo(re, "regexp/syntax.Parse") || strip(re.A[0]) != pat {
				r.bad("constructor", "pattern", pos, "the generator is built from %s instead of the pattern handed in", re)
			} else if !x.succeeded(o.st, re, 1) {
				r.bad("constructor", "parse error", pos, "a pattern that failed to parse is used (%s)", trailOf(o.st))
			} else if !x.succeeded(o.st, g, 1) && o.rets[1] != x.errOf(g, 1) {
				r.bad("constructor", "error", pos, "the error of building the generator is dropped (%s)", trailOf(o.st))
			} else {
				r.ok("constructor", "the parsed pattern reaches the dispatch")
			}
		default:
			r.bad("constructor", "other", pos, "the constructor returns %s, which was not built from the pattern (%s)", g, trailOf(o.st))
		}
	}
	r.need("constructor", 1)
	return d
}

// regenDispatch: which functions serve which operator.
func regenDispatch(r *R, d *ssa.Function) map[int64][]*ssa.Function {
	p := r.p
	table := map[int64][]*ssa.Function{}
	add := func(k int64, f *ssa.Function) {
		for _, g := range table[k] {
			if g == f {
				return
			}
		}
		table[k] = append(table[k], f)
	}
	isOp := func(t types.Type) bool { return t.String() == "regexp/syntax.Op" }
	for _, f := range p.allBodies() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isOp(mu.Key.Type()) {
					continue
				}
				v := mu.Value
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
				}
				fn, ok := v.(*ssa.Function)
				if !ok {
					if mc, isC := v.(*ssa.MakeClosure); isC {
						fn, ok = mc.Fn.(*ssa.Function), true
					}
				}
				if !ok || !isFactory(fn) {
					continue
				}
				c, isC := mu.Key.(*ssa.Const)
				if !isC {
					r.bad("dispatch", "key", p.instrPos(in), "a generator is registered under an operator that is not a constant")
					continue
				}
				k, _ := constant.Int64Val(c.Value)
				add(k, fn)
			}
		}
	}
	x := newExec(p, Config{Inline: func(g *ssa.Function) bool { return p.inRepo(g) && !isFactory(g) },
		Fact: func(t *Term) int {
			if t.any(func(q *Term) bool { return isField(q, "Regexp", "Op") }) {
				return 1
			}
			return 0
		}})
	x.cfg.OnCall = func(ev *CallEvent) bool { return ev.Callee != nil && isFactory(ev.Callee) }
	outs := x.Root(d, nil)
	r.exec(x, "dispatch")
	re := x.T.mk("param", d.Params[0], 0, d.Params[0].Type(), nil, nil)
	own := func(t *Term) bool {
		t = strip(t)
		return t == re || callTo(t, "regexp/syntax.Regexp.Simplify") && strip(t.A[0]) == re
	}
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		pos := p.instrPos(o.at)
		g, e := strip(o.rets[0]), o.rets[1]
		if x.knownNonNil(o.st, e) {
			r.ok("dispatch", "an operator without generator is an error")
			continue
		}
		if g.Op != "call" || e != x.errOf(g, 1) && !x.succeeded(o.st, g, 1) {
			r.bad("dispatch", "silent", pos, "a pattern construct is turned into %s without an error (%s)", g, trailOf(o.st))
			continue
		}
		args := g.A
		var fn *Term
		if g.Aux == "dynamic" {
			fn, args = args[0], args[1:]
		}
		if len(args) == 0 || !own(args[0]) {
			r.bad("dispatch", "argument", pos, "the generator of an operator is built from something else than the construct at hand (%s)", trailOf(o.st))
			continue
		}
		opOf := func(t *Term) bool {
			_, n, b, ok := fieldRead(strip(t))
			return ok && n == "Op" && strip(b) == strip(args[0])
		}
		if fn != nil {
			if fn.Op != "lookup" || !opOf(fn.A[1]) {
				r.bad("dispatch", "lookup", pos, "the generator is not looked up under the operator of the construct it is built from but is %s", fn)
				continue
			}
			r.ok("dispatch", "looked up under its own operator")
			continue
		}
		f, _ := g.Aux.(*ssa.Function)
		n := 0
		for a, v := range o.st.facts {
			l, e, ok := eqOperands(a)
			if !ok || !v {
				continue
			}
			if !opOf(l) {
				l, e = e, l
			}
			if k, isC := intConst(e); opOf(l) && isC && f != nil {
				add(k, f)
				n++
			}
		}
		if n == 0 {
			r.bad("dispatch", "any", pos, "a generator is built without looking at the operator of the construct (%s)", trailOf(o.st))
		} else {
			r.ok("dispatch", "chosen by its own operator")
		}
	}
	return table
}

func (g *regenRun) run() {
	p := g.p
	key := g.op + ":" + g.f.Name()
	g.terms, g.colls, g.bnds, g.early = map[int]*Term{}, map[string]*Term{}, map[string]*Term{}, map[string]bool{}
	g.its, g.strIt, g.made, g.lists = map[string][][]string{}, map[*Term]*strLoop{}, map[*Term][]rItem{}, map[*Term]*mapped{}
	g.ints, g.sets = map[*Term]*intLoop{}, map[string][]map[string]bool{}
	x := newExec(p, Config{
		WideNil: true,
		Fact: func(t *Term) int {
			if t.Op == "bin" || t.Op == "lookupok" {
				return 1
			}
			return 0
		},
	})
	x.cfg.Inline = func(h *ssa.Function) bool { return p.inRepo(h) && h != g.d && recvName(h) != "Regexp" }
	g.x = x
	g.acc = newLoopAcc(x)
	x.cfg.OnCall = g.onCall
	x.cfg.OnOpaque = g.onOpaque
	x.cfg.OnInstr = g.onInstr
	x.cfg.OnHead = g.onHead
	x.cfg.OnBack = g.onBack
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		if !end {
			g.early[g.lkey(l, st.ctx)] = true
			st.mon["left"+g.lkey(l, st.ctx)] = "1"
		}
	}
	var re *Term
	outs := x.Root(g.f, func(st *State, params []*Term) {
		re = params[0]
		g.args = re
		s := deref(re.T).Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "Op" {
				a := x.faddr(re, s, i)
				st.heap[a] = x.T.cst(constant.MakeInt64(g.opVal), s.Field(i).Type())
			}
		}
	})
	n := 0
	for _, o := range outs {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		for k := range o.st.mon {
			if !strings.HasPrefix(k, "built") {
				continue
			}
			id, _ := strconv.Atoi(k[5:])
			if c := g.terms[id]; !x.succeeded(o.st, c, 1) && !(o.rets[1] == x.errOf(c, 1)) {
				g.bad("error dropped", o.at, "the generator of a part that could not be built is used (%s)", trailOf(o.st))
			}
		}
		v := strip(o.rets[0])
		if v.isNil() || v.Op == "call" && v.A != nil && g.subOf(v) == nil && v.Aux == originOf(g.d) {
			g.bad("nothing", o.at, "no generator and no error for %s (%s)", g.op, trailOf(o.st))
			continue
		}
		// the construct's own generator is that of its part
		if s := g.subOf(v); s != nil {
			n++
			g.judge(o.st, []rItem{{t: x.T.mk("emit", nil, 0, nil, nil, nil, v)}}, o.at)
			continue
		}
		m := g.p.SSA.LookupMethod(v.T, nil, "Generate")
		if m == nil {
			if ms := types.NewMethodSet(v.T); ms.Lookup(nil, "Generate") != nil {
				m = g.p.SSA.MethodValue(ms.Lookup(nil, "Generate"))
			}
		}
		if m == nil {
			g.bad("type", o.at, "%s has no Generate method that can be followed", v)
			continue
		}
		g.self, g.emit = v, true
		st := o.st
		st.ctx = x.T.ctx(nil, nil, nil, 0, m)
		st.mon["seq"] = ""
		for _, e := range x.run(m, st, []*Term{v}, nil, nil, nil) {
			switch e.kind {
			case "return":
				n++
				g.judge(e.st, g.expand(e.st, e.rets[0], 0), e.at)
			}
		}
		g.emit = false
	}
	if g.empty != nil && !g.looped && !zeroWidth(g.op) {
		g.bad("text", g.empty, "nothing is emitted")
	}
	if n == 0 {
		g.r.bad("operator", key, p.pos(g.f), "no generator is ever returned for %s", g.op)
	}
	if len(g.r.viols) == 0 {
		g.r.ok("operator", key)
	}
	g.r.exec(x, g.op)
}

func (g *regenRun) bad(key string, at ssa.Instruction, f string, a ...interface{}) {
	g.r.bad("operator", g.op+":"+key, g.p.instrPos(at), f, a...)
}

func (g *regenRun) lkey(l *Loop, ctx *Ctx) string {
	return strconv.Itoa(g.x.loopID(l)) + "." + strconv.Itoa(ctx.id)
}

func (g *regenRun) isGenerate(ev *CallEvent) bool {
	if ev.Method != nil {
		return ev.Method.Name() == "Generate" && isStringT(ev.Method.Type().(*types.Signature).Results().At(0).Type())
	}
	return ev.Callee != nil && ev.Callee.Name() == "Generate" && ev.Callee.Signature.Recv() != nil
}

func (g *regenRun) onCall(ev *CallEvent) bool {
	if g.isGenerate(ev) {
		return strip(ev.Args[0]) != g.self
	}
	return false
}

func (g *regenRun) onOpaque(ev *CallEvent, rets []*Term) {
	st := ev.St
	for _, t := range rets {
		g.terms[t.id] = t
	}
	if ev.Callee == nil {
		return
	}
	if ev.Callee == g.d {
		st.mon["built"+strconv.Itoa(rets[0].id)] = "1"
		return
	}
	n := fullName(ev.Callee)
	switch n {
	case "bytes.Buffer.WriteString", "strings.Builder.WriteString", "bytes.Buffer.WriteRune", "strings.Builder.WriteRune", "bytes.Buffer.Write", "bytes.Buffer.WriteByte", "strings.Builder.WriteByte", "strings.Builder.Write":
		v := ev.Args[1]
		if strings.HasSuffix(n, "Rune") || strings.HasSuffix(n, "Byte") {
			v = g.x.T.mk("rune", nil, 0, nil, nil, nil, g.unconv(v))
		}
		g.terms[v.id] = v
		st.mon["seq"] += "W" + strconv.Itoa(ev.Args[0].id) + ":" + strconv.Itoa(v.id) + ";"
	case "bytes.Buffer.Reset", "strings.Builder.Reset", "bytes.Buffer.Truncate":
		v := g.x.T.mk("reset", nil, 0, nil, nil, nil)
		g.terms[v.id] = v
		st.mon["seq"] += "W" + strconv.Itoa(ev.Args[0].id) + ":" + strconv.Itoa(v.id) + ";"
	case "bytes.Buffer.String", "strings.Builder.String":
		g.made[rets[0]] = g.written(st.mon["seq"], strconv.Itoa(ev.Args[0].id))
	}
}

func (g *regenRun) unconv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.A[0]
	}
	return t
}

// written: what a sequence of writes put into a buffer.
func (g *regenRun) written(seq, buf string) (out []rItem) {
	for _, s := range strings.Split(seq, ";") {
		if strings.HasPrefix(s, "L") {
			out = append(out, rItem{loop: s[1:], buf: buf})
		} else if strings.HasPrefix(s, "W"+buf+":") {
			id, _ := strconv.Atoi(s[len(buf)+2:])
			if v := g.terms[id]; v.Op == "reset" {
				out = nil
			} else {
				out = append(out, rItem{t: v})
			}
		}
	}
	return
}

func (g *regenRun) onInstr(st *State, fr *frame, in ssa.Instruction) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	a := g.x.val(st, s.Addr)
	if a.Op != "iaddr" || strip(a.A[0]).Op != "makeslice" {
		return
	}
	l, v := strip(a.A[0]), strip(g.x.val(st, s.Val))
	m := g.lists[l]
	if m == nil {
		m = &mapped{}
		g.lists[l] = m
	}
	sub := g.subOf(v)
	if sub == nil {
		if !v.isNil() {
			m.bad = "an entry is " + v.String()
		}
		return
	}
	if c, ok := elemOf(sub); !ok {
		m.bad = "an entry is built from " + sub.String()
	} else if m.coll != nil && m.coll != c {
		m.bad = "its entries are built from different lists"
	} else if sub.Op == "load" && sub.A[0].A[1] != a.A[1] {
		m.bad = "an entry is built from the pattern at another position"
	} else {
		m.coll = c
		st.mon["set"+strconv.Itoa(l.id)] = "1"
	}
}

// subOf: the pattern a generator was built from.
func (g *regenRun) subOf(t *Term) *Term {
	t = strip(t)
	if t.Op == "call" && t.Aux == originOf(g.d) && t.N == 0 {
		return strip(t.A[0])
	}
	return nil
}

func (g *regenRun) onHead(st *State, fr *frame, l *Loop) {
	k := g.lkey(l, st.ctx)
	st.mon["seq"] += "L" + k + ";"
	if c := g.x.loopOver(st, l); c != nil {
		g.colls[k] = c
	}
	g.bnds[k] = g.counted(st, l)
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := st.env[ph]; v != nil && isStringT(ph.Type()) {
			lv := g.x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)
			g.strIt[lv] = &strLoop{key: k, init: v}
		} else if b, isB := ph.Type().Underlying().(*types.Basic); v != nil && isB && b.Info()&types.IsInteger != 0 {
			g.ints[g.x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)] = &intLoop{init: v, key: k}
		}
	}
	for id := range g.lists {
		delete(st.mon, "set"+strconv.Itoa(id.id))
	}
}

// counted: the number of rounds of a loop that counts up from zero by one, or down to it.
func (g *regenRun) counted(st *State, l *Loop) *Term {
	h := l.Header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || !l.Blocks[h.Succs[0]] {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	a, b, op := cmp.X, cmp.Y, cmp.Op
	if op == token.GTR || op == token.GEQ {
		a, b = b, a
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	step := func(v ssa.Value) (ph *ssa.Phi, d int64) {
		ph, ok := v.(*ssa.Phi)
		if !ok || ph.Block() != h {
			return nil, 0
		}
		for i, e := range ph.Edges {
			if !l.Blocks[h.Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.X != ph {
				return nil, 0
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok {
				return nil, 0
			}
			k, _ := constant.Int64Val(c.Value)
			if bo.Op == token.SUB {
				k = -k
			} else if bo.Op != token.ADD {
				return nil, 0
			}
			if d != 0 && d != k {
				return nil, 0
			}
			d = k
		}
		return ph, d
	}
	if ph, d := step(a); ph != nil && d == 1 {
		init := st.env[ph]
		n := g.x.boundTerm(st, b, l)
		if n == nil || init == nil {
			return nil
		}
		n = g.x.bin("-", n, init, n.T)
		if op == token.LEQ {
			n = g.x.bin("+", n, g.x.T.Int(1), n.T)
		}
		return n
	}
	if ph, d := step(b); ph != nil && d == -1 && op == token.LSS {
		init := st.env[ph]
		n := g.x.boundTerm(st, a, l)
		if n == nil || init == nil {
			return nil
		}
		return g.x.bin("-", init, n, init.T)
	}
	return nil
}

func (g *regenRun) onBack(st *State, fr *frame, l *Loop) {
	g.acc.onBack(st, fr, l)
	k := g.lkey(l, st.ctx)
	seq := st.mon["seq"]
	if i := strings.LastIndex(seq, "L"+k+";"); i >= 0 {
		st.mon["seq"] = seq[:i+len(k)+2]
		seq = seq[i+len(k)+2:]
	}
	g.its[k] = append(g.its[k], strings.Split(seq, ";"))
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lv := g.x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)
		if s := g.strIt[lv]; s != nil {
			ps := g.x.catParts(st.env[ph])
			if len(ps) == 0 || ps[0] != lv {
				s.first = append(s.first, ps) // the first round, which starts from nothing
			} else {
				s.its = append(s.its, ps[1:])
			}
		}
		if s := g.ints[lv]; s != nil {
			s.nexts = append(s.nexts, intNext{st.env[ph], st.clone()})
		}
	}
	sets := map[string]bool{}
	for mk := range st.mon {
		if strings.HasPrefix(mk, "set") {
			sets[mk] = true
			delete(st.mon, mk)
		}
	}
	g.sets[k] = append(g.sets[k], sets)
	for mk := range st.mon {
		if strings.HasPrefix(mk, "built") {
			id, _ := strconv.Atoi(mk[5:])
			if !g.x.succeeded(st, g.terms[id], 1) {
				g.bad("error dropped", l.Header.Instrs[0], "the error of building a part is overwritten by that of the next one (%s)", trailOf(st))
			}
			delete(st.mon, mk)
		}
	}
}

// expand: the pieces a text is put together from.
func (g *regenRun) expand(st *State, t *Term, d int) (out []rItem) {
	if d > 8 {
		return []rItem{{t: t}}
	}
	t = strip2(t)
	if s, ok := strConst(t); ok && s == "" {
		return nil
	}
	if l, ok := g.made[t]; ok {
		for _, i := range l {
			if i.t != nil {
				out = append(out, g.expand(st, i.t, d+1)...)
			} else if g.writes(i.loop, i.buf) {
				out = append(out, i)
			}
		}
		return
	}
	if s := g.strIt[t]; s != nil {
		out = g.expand(st, s.init, d+1)
		return append(out, rItem{loop: s.key, str: t})
	}
	if ps := g.x.catParts(t); len(ps) > 1 {
		for _, q := range ps {
			out = append(out, g.expand(st, q, d+1)...)
		}
		return
	}
	if callTo(t, "strings.Join") && isStr(t.A[1], "") {
		base, pieces := unwind(strip(t.A[0]))
		if its := g.acc.iters[base]; len(its) > 0 && len(pieces) == 0 {
			return []rItem{{loop: g.lkey(its[0].loop, its[0].st.ctx), str: base}}
		}
	}
	if v := g.genOf(t); v != nil {
		return []rItem{{t: g.x.T.mk("emit", nil, 0, nil, nil, nil, v)}}
	}
	if t.Op == "conv" && t.A[0].T != nil {
		if b, ok := t.A[0].T.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return []rItem{{t: g.x.T.mk("rune", nil, 0, nil, nil, nil, g.unconv(t.A[0]))}}
		}
	}
	return []rItem{{t: t}}
}

// strip2 keeps conversions.
func strip2(t *Term) *Term {
	for t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

func (g *regenRun) writes(loop, buf string) bool {
	for _, it := range g.its[loop] {
		for _, s := range it {
			if strings.HasPrefix(s, "W"+buf+":") {
				return true
			}
		}
	}
	return false
}

// genOf: the generator whose value this is.
func (g *regenRun) genOf(t *Term) *Term {
	if t.Op != "call" || len(t.A) == 0 {
		return nil
	}
	switch a := t.Aux.(type) {
	case *ssa.Function:
		if a.Name() == "Generate" && a.Signature.Recv() != nil {
			return strip(t.A[0])
		}
	case string:
		if a == "invoke.Generate" {
			return strip(t.A[0])
		}
		if a == "dynamic" {
			if _, n, b, ok := fieldRead(t.A[0]); ok {
				if n == "CaptureGroupHandler" {
					for _, q := range t.A[1:] {
						if g.subOf(q) != nil {
							return strip(q)
						}
					}
					return nil
				}
				return strip(b)
			}
		}
	}
	return nil
}

// rounds: the pieces of every way around a loop that emits something.
func (g *regenRun) rounds(st *State, i rItem) (its [][]rItem, why string) {
	if g.early[i.loop] {
		return nil, "the loop that emits the parts may be left early"
	}
	if i.str != nil {
		if s := g.strIt[i.str]; s != nil {
			if c, ok := strConst(s.init); len(s.first) > 0 && !(ok && c == "") {
				return nil, "what was emitted so far is lost on the way"
			}
		next:
			for _, q := range s.first {
				for _, it := range s.its {
					if slices.Equal(q, it) {
						continue next
					}
				}
				return nil, "what was emitted so far is lost on the way"
			}
			for _, it := range s.its {
				var l []rItem
				for _, q := range it {
					l = append(l, g.expand(st, q, 1)...)
				}
				its = append(its, l)
			}
			return its, ""
		}
		for _, it := range g.acc.iters[i.str] {
			if it.reset {
				return nil, "what was emitted so far is lost on the way"
			}
			var l []rItem
			for _, pc := range it.added {
				if pc.Op != "list" {
					return nil, "it adds " + pc.String()
				}
				for _, q := range pc.A {
					l = append(l, g.expand(st, q, 1)...)
				}
			}
			its = append(its, l)
		}
		return its, ""
	}
	for _, it := range g.its[i.loop] {
		var l []rItem
		for _, w := range g.written(strings.Join(it, ";"), i.buf) {
			if w.t != nil {
				l = append(l, g.expand(st, w.t, 1)...)
			} else if g.writes(w.loop, w.buf) {
				l = append(l, w)
			}
		}
		its = append(its, l)
	}
	return its, ""
}

func (g *regenRun) show(items []rItem) string {
	var s []string
	for _, i := range items {
		if i.t != nil {
			s = append(s, i.t.String())
		} else {
			s = append(s, "a loop over "+func() string {
				if c := g.colls[i.loop]; c != nil {
					return c.String()
				}
				if b := g.bnds[i.loop]; b != nil {
					return b.String() + " rounds"
				}
				return "something"
			}())
		}
	}
	if len(s) == 0 {
		return "nothing"
	}
	return strings.Join(s, ", ")
}

func (g *regenRun) own(t *Term, field string) bool {
	_, n, b, ok := fieldRead(strip(t))
	return ok && n == field && strip(b) == g.args
}

// single: the piece is one value of the generator of the construct's only part.
func (g *regenRun) single(i rItem) bool {
	if i.t == nil || i.t.Op != "emit" {
		return false
	}
	s := g.subOf(i.t.A[0])
	if s == nil {
		return false
	}
	c, ok := elemOf(s)
	if !ok || !g.own(c, "Sub") {
		return false
	}
	if s.Op == "load" && s.A[0].Op == "iaddr" {
		k, isC := intConst(s.A[0].A[1])
		return isC && k == 0
	}
	return false
}

// parts: the list holds the generators of all parts, in their order.
func (g *regenRun) parts(l *Term) string {
	l = strip(l)
	if m := g.lists[l]; m != nil {
		switch {
		case m.bad != "":
			return m.bad
		case m.coll == nil || !g.own(m.coll, "Sub"):
			return "it is not filled from the parts of the construct"
		}
		whole := false
		for k, its := range g.sets {
			if c := g.colls[k]; c == nil || c != m.coll {
				continue
			}
			n := 0
			for _, it := range its {
				if it["set"+strconv.Itoa(l.id)] {
					n++
				}
			}
			if n > 0 && n < len(its) {
				return "some entries are left out"
			}
			whole = whole || n > 0 && g.cur.mon["left"+k] == ""
		}
		if !whole {
			return "it is not filled by a loop over all parts"
		}
		n := g.x.lenOf(&State{}, m.coll)
		if l.A[0] != n {
			return "it does not have one entry for each part"
		}
		return ""
	}
	var st State
	if ok, why := g.acc.coversAll(l, func(c *Term) bool { return g.own(c, "Sub") }, func(e, el *Term) bool {
		return g.subOf(e) != nil && g.subOf(e) == strip(el)
	}); !ok {
		return why
	}
	_ = st
	return ""
}

// num: the number of entries of a list of generators.
func (g *regenRun) isNum(st *State, n, l *Term) bool {
	if n == g.x.lenOf(st, l) {
		return true
	}
	return n.Op == "len" && (n.A[0] == strip(l) || g.own(n.A[0], "Sub"))
}

func (g *regenRun) judge(st *State, items []rItem, at ssa.Instruction) {
	g.cur = st
	if len(items) == 0 {
		// a text that is empty until a loop, seen for the first time, has added to it
		for _, s := range g.strIt {
			if strings.Contains(st.mon["seq"], "L"+s.key+";") {
				g.empty = at
				return
			}
		}
	}
	for _, i := range items {
		g.looped = g.looped || i.str != nil
	}
	trail := func() string { return trailOf(st) }
	fail := func(key, f string, a ...interface{}) {
		a = append(a, g.show(items), trail())
		g.bad(key, at, f+": emitted %s (%s)", a...)
	}
	switch g.op {
	case "EmptyMatch", "BeginLine", "EndLine", "BeginText", "EndText", "WordBoundary", "NoWordBoundary":
		if len(items) > 0 {
			fail("text", "a construct that matches no text emits some")
		}
	case "NoMatch":
		fail("text", "a construct that never matches has a generator")
	case "Literal":
		if len(items) == 1 && items[0].t != nil {
			t := strip(items[0].t)
			if t.Op == "conv" {
				t = t.A[0]
			}
			if g.own(t, "Rune") {
				return
			}
		}
		if len(items) != 1 || items[0].loop == "" {
			fail("text", "a literal does not emit its characters")
			return
		}
		if c := g.colls[items[0].loop]; c == nil || !g.own(c, "Rune") {
			fail("text", "a literal does not emit all of its characters")
			return
		}
		its, why := g.rounds(st, items[0])
		if why != "" {
			fail("text", "%s", why)
			return
		}
		for _, it := range its {
			ok := len(it) == 1 && it[0].t != nil && it[0].t.Op == "rune"
			if ok {
				c, isE := elemOf(it[0].t.A[0])
				ok = isE && g.atCounter(items[0].loop, it[0].t.A[0]) && g.own(c, "Rune")
			}
			if !ok {
				g.bad("text", at, "a round over the characters of a literal emits %s", g.show(it))
			}
		}
	case "Concat":
		if len(items) != 1 || items[0].loop == "" {
			if len(items) == 0 {
				for a, v := range st.facts {
					if l, e, ok := eqOperands(a); ok && v && isZeroC(e) && l.Op == "len" {
						return
					}
				}
			}
			fail("parts", "a concatenation does not emit its parts one after the other")
			return
		}
		its, why := g.rounds(st, items[0])
		if why != "" {
			fail("parts", "%s", why)
			return
		}
		c := g.colls[items[0].loop]
		direct := c != nil && g.own(c, "Sub")
		if c == nil {
			fail("parts", "the loop does not run over all generators")
			return
		}
		if !direct {
			if w := g.parts(c); w != "" {
				fail("parts", "the parts of a concatenation are not all there, %s", w)
				return
			}
		}
		for _, it := range its {
			ok := len(it) == 1 && it[0].t != nil && it[0].t.Op == "emit"
			if ok {
				e, isE := elemOf(it[0].t.A[0])
				ok = isE && g.atCounter(items[0].loop, strip(it[0].t.A[0])) && (strip(e) == strip(c) || g.own(c, "Sub") && g.parts(e) == "")
			}
			if !ok {
				g.bad("parts", at, "a round over the parts of a concatenation emits %s", g.show(it))
			}
		}
	case "Alternate":
		if len(items) != 1 || items[0].t == nil || items[0].t.Op != "emit" {
			fail("branch", "an alternation does not emit exactly one branch")
			return
		}
		v := strip(items[0].t.A[0])
		l, ok := elemOf(v)
		if !ok {
			fail("branch", "an alternation emits something else than a branch")
			return
		}
		if w := g.parts(l); w != "" {
			fail("branch", "the branches of an alternation are not all there, %s", w)
			return
		}
		if v.Op == "load" && v.A[0].Op == "iaddr" {
			i := g.unconv(v.A[0].A[1])
			if n, off := g.draw(i); n == nil || off != 0 || !g.isNum(st, g.unconv(n), l) {
				fail("branch", "the branch is not drawn from all branches but is at %s", i)
			}
		}
	case "Quest", "Star", "Plus", "Repeat":
		g.repeat(st, items, at, fail)
	case "Capture":
		if len(items) != 1 || !g.single(items[0]) {
			fail("group", "a group does not emit its own sub-pattern once")
		}
	case "AnyChar", "AnyCharNotNL", "CharClass":
		g.char(st, items, at, fail)
	}
}

func zeroWidth(op string) bool {
	switch op {
	case "EmptyMatch", "BeginLine", "EndLine", "BeginText", "EndText", "WordBoundary", "NoWordBoundary":
		return true
	}
	return false
}

// atCounter: the entry is the one the loop is at.
func (g *regenRun) atCounter(k string, e *Term) bool {
	if e.Op != "load" && e.Op != "sload" || e.A[0].Op != "iaddr" {
		return true
	}
	i := linear(e.A[0].A[1], nil)
	if len(i.ts) != 1 {
		return false
	}
	for n, t := range i.ts {
		s := g.ints[t]
		if s == nil || i.m[n] != 1 {
			return false
		}
		c, ok := intConst(s.init)
		return ok && s.key == k && c+i.c == 0
	}
	return false
}

// draw: a number drawn from 0 (inclusive) to n (exclusive), plus a constant.
func (g *regenRun) draw(t *Term) (n *Term, off int64) {
	t = g.unconv(t)
	if t.Op == "bin" && t.Aux == "+" {
		for i := 0; i < 2; i++ {
			if k, ok := intConst(t.A[i]); ok {
				n, o := g.draw(t.A[1-i])
				return n, o + k
			}
		}
		return nil, 0
	}
	if t.Op == "call" || t.Op == "pcall" {
		if f, ok := t.Aux.(*ssa.Function); ok {
			switch f.Name() {
			case "Intn", "Int31n", "Int63n", "IntN", "Int32N", "Int64N":
				return t.A[len(t.A)-1], 0
			}
		}
	}
	return nil, 0
}
