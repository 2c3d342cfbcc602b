package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// coverage shows that a slice was built by going over all of another one, leaving nothing out
// without an error being recorded.
type coverage struct {
	x    *Exec
	la   *loopAcc
	over map[*Loop]map[*Term]bool
	elem func(coll, e *Term) bool // what may be added for an element
}

func newCoverage(x *Exec) *coverage {
	return &coverage{x: x, la: newLoopAcc(x), over: map[*Loop]map[*Term]bool{}}
}

func (c *coverage) lkey(st *State, l *Loop) string {
	return strconv.Itoa(c.x.loopID(l)) + "." + strconv.Itoa(st.ctx.id)
}

func (c *coverage) head(st *State, fr *frame, l *Loop) {
	coll := c.x.loopOver(st, l)
	if coll == nil {
		return
	}
	if c.over[l] == nil {
		c.over[l] = map[*Term]bool{}
	}
	c.over[l][coll] = true
	k := c.lkey(st, l)
	st.mon["act:"+k] = "1"
	st.mon["over:"+k] = strconv.Itoa(coll.id)
	delete(st.mon, "rec:"+k)
}

func (c *coverage) back(st *State, fr *frame, l *Loop) {
	k := c.lkey(st, l)
	if st.mon["rec:"+k] != "" {
		st.mon["now"] = "1"
	}
	c.la.onBack(st, fr, l)
	delete(st.mon, "now")
	delete(st.mon, "rec:"+k)
}

func (c *coverage) exit(st *State, fr *frame, l *Loop, end bool) {
	k := c.lkey(st, l)
	if !end && st.mon["act:"+k] != "" {
		st.mon["brk:"+strconv.Itoa(c.x.loopID(l))] = "1"
	}
	delete(st.mon, "act:"+k)
	delete(st.mon, "rec:"+k)
}

// record notes that an error was recorded.
func (c *coverage) record(st *State) {
	st.mon["rec"] = "1"
	for k := range st.mon {
		if strings.HasPrefix(k, "act:") {
			st.mon["rec:"+k[4:]] = "1"
		}
	}
}

// covers explains why v does not hold something for each element of the source, or "".
func (c *coverage) covers(st *State, v *Term, src func(*Term) bool, depth int) string {
	v = strip(v)
	if v == nil || depth > 6 {
		return "it cannot be followed"
	}
	if src(v) {
		return ""
	}
	base, pieces := unwind(v)
	for _, pc := range pieces {
		if src(strip(pc)) || pc.Op != "list" && c.covers(st, pc, src, depth+1) == "" {
			return ""
		}
	}
	if base != v {
		return c.covers(st, base, src, depth+1)
	}
	its := c.la.iters[v]
	if len(its) == 0 {
		return fmt.Sprintf("it is %.80s", v)
	}
	for _, it := range its {
		good := false
		why := "the loop that builds it does not go over the whole list"
		for coll := range c.visited(st, it) {
			if w := c.covers(st, coll, src, depth+1); w == "" {
				good = true
			} else {
				why = w
			}
		}
		if !good {
			return why
		}
		if st.mon["brk:"+strconv.Itoa(c.x.loopID(it.loop))] != "" {
			return "the loop that builds it was left early"
		}
		if it.reset {
			return "it is started anew inside the loop"
		}
		if it.st.mon["now"] != "" {
			continue
		}
		if !c.derived(it) {
			return "a round of the loop adds nothing for its element and records no error (" + trailOf(it.st) + ")"
		}
	}
	return ""
}

// visited: the list the loop of an iteration goes over on the way to st.
func (c *coverage) visited(st *State, it accIter) map[*Term]bool {
	id := st.mon["over:"+c.lkey(it.st, it.loop)]
	out := map[*Term]bool{}
	for coll := range c.over[it.loop] {
		if strconv.Itoa(coll.id) == id {
			out[coll] = true
		}
	}
	return out
}

func (c *coverage) derived(it accIter) bool {
	for _, pc := range it.added {
		if pc.Op != "list" {
			continue
		}
		for _, e := range pc.A {
			for coll := range c.visited(it.st, it) {
				if c.elem == nil && fromElem(coll, e) || c.elem != nil && c.elem(coll, e) {
					return true
				}
			}
		}
	}
	return false
}

func fromElem(coll, e *Term) bool {
	return e.any(func(t *Term) bool {
		q, ok := elemOf(t)
		return ok && q == coll
	})
}

func (p *Prog) constrainedT() (*types.Named, *types.Struct) {
	ci := p.constraintIfaceT()
	if ci == nil {
		return nil, nil
	}
	for _, f := range p.generateImpls() {
		t := deref(f.Signature.Recv().Type())
		n, ok := t.(*types.Named)
		if !ok {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), ci) {
				return n, st
			}
		}
	}
	return nil, nil
}

func fieldOfKind(st *types.Struct, is func(types.Type) bool) int {
	for i := 0; i < st.NumFields(); i++ {
		if is(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func isGeneratorErr(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() == 2 && typeName(rs.At(0).Type()) == "Generator" && isErrT(rs.At(1).Type())
}

// attach: each parser of a keyword with a constraint attaches it.
func (r *R) attach() {
	p := r.p
	con, cst := p.constrainedT()
	if con == nil {
		r.missing("the generator that applies constraints")
		return
	}
	inner := fieldOfKind(cst, func(t types.Type) bool { return typeName(t) == "Generator" })
	list := fieldOfKind(cst, func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	rec := func(f *ssa.Function) bool { return p.recursive(f) }
	builds := p.touching(func(in ssa.Instruction) bool {
		fa, ok := in.(*ssa.FieldAddr)
		return ok && typeName(deref(fa.X.Type())) == con.Obj().Name()
	}, rec)
	helps := p.touching(func(in ssa.Instruction) bool {
		if usesField(in, "schemaNode", "OneOf", "AnyOf", "If", "Then", "Else", "Not", "mergedNot", "mergedIf", "constraints") {
			return true
		}
		if fa, ok := in.(*ssa.FieldAddr); ok {
			t := typeName(deref(fa.X.Type()))
			return t == con.Obj().Name() || t == "ifStatement" || p.constraintKind(fa.X.Type()) != ""
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if g := c.Common().StaticCallee(); g != nil && (isRecorder(g) || recvName(g) == "constraintCollection" && (g.Name() == "Merge" || g.Name() == "Compile")) {
				return true
			}
		}
		return false
	}, rec)
	kinds, kindOf := map[string]bool{}, map[*ssa.Function]map[string]bool{}
	var roots []*ssa.Function
	for f := range builds {
		if isGeneratorErr(f) && f.Parent() == nil && f.Signature.Recv() == nil {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, f := range roots {
		if !rec(f) {
			continue
		}
		a := &attachRun{r: r, f: f, key: shortFn(f), con: con, cst: cst, inner: inner, list: list, helps: helps, builds: builds}
		mine := map[string]bool{}
		a.run(mine)
		for k := range mine {
			kinds[k] = true
			if k != "kept" {
				if kindOf[f] == nil {
					kindOf[f] = map[string]bool{}
				}
				kindOf[f][k] = true
			}
		}
	}
	r.dispatched(kindOf)
	r.ifCompiles()
	for _, k := range []string{"one", "ifs", "not", "kept"} {
		if !kinds[k] {
			r.missing("the parser that attaches the constraint for " + map[string]string{"one": "oneOf", "ifs": "if", "not": "not", "kept": "exclusions kept on a node"}[k])
		}
	}
}

type attachRun struct {
	r             *R
	f             *ssa.Function
	key           string
	con           *types.Named
	cst           *types.Struct
	inner, list   int
	helps, builds map[*ssa.Function]bool
	x             *Exec
	cov           *coverage
	node          *Term
	nots          map[*Term]map[*Term]*Term // list of nots -> collections they were merged into
	merged        map[string]bool
}

func isNodeField(t *Term, names ...string) bool {
	for _, n := range names {
		if isField(t, "schemaNode", n) {
			return true
		}
	}
	return false
}

func (a *attachRun) own(t *Term, names ...string) bool {
	return isNodeField(t, names...) && t.any(func(q *Term) bool { return q.Op == "param" })
}

// listOf: t is the list held (possibly through a pointer) by a field of the node.
func (a *attachRun) listOf(names ...string) func(*Term) bool {
	return func(t *Term) bool {
		if a.own(t, names...) {
			return true
		}
		return (t.Op == "load" || t.Op == "sload") && a.own(t.A[0], names...)
	}
}

func (a *attachRun) run(kinds map[string]bool) {
	r, p, f := a.r, a.r.p, a.f
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			if p.recursive(g) || isRecorder(g) || recvName(g) == "constraintCollection" {
				return false
			}
			return a.helps[g] || a.builds[g] || g.Pkg == nil || strings.HasSuffix(fnPkgPath(g), "/internal/util") && len(g.Blocks) < 6
		},
		Fact: func(t *Term) int {
			if t.any(func(q *Term) bool {
				return isNodeField(q, "OneOf", "If", "mergedIf", "constraints", "Not", "mergedNot") || q.Op == "len"
			}) {
				return 1
			}
			return 0
		},
		Lows:    true,
		WideNil: true, NoUnroll: true,
	})
	a.x = x
	a.cov = newCoverage(x)
	a.nots = map[*Term]map[*Term]*Term{}
	x.cfg.OnHead = a.cov.head
	x.cfg.OnExit = a.cov.exit
	x.cfg.OnBack = a.back
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if isRecorder(ev.Callee) {
			a.cov.record(ev.St)
		}
		return false
	}
	x.cfg.OnOpaque = a.opaque
	outs := x.Root(f, nil)
	r.exec(x, a.key)
	has := map[string]bool{}
	type res struct {
		o    Outcome
		cons []string
	}
	var plain []Outcome
	for _, o := range outs {
		if o.kind != "return" || len(o.rets) != 2 || x.knownNonNil(o.st, o.rets[1]) || x.nonNil(o.st, o.rets[1]) {
			continue
		}
		g := o.rets[0]
		if g.Op != "iface" || !types.Identical(deref(g.T), a.con) {
			plain = append(plain, o)
			continue
		}
		v := g.A[0]
		get := func(i int) *Term {
			if _, isP := g.T.(*types.Pointer); isP {
				return x.load(o.st, x.faddr(v, a.cst, i))
			}
			return x.field(v, a.cst, i)
		}
		cl, ok := x.asList(o.st, get(a.list))
		if !ok || len(cl.A) == 0 {
			r.bad("attached", a.key+":list", p.instrPos(o.at), "%s returns a constrained generator whose constraints cannot be told (%s)", a.key, trailOf(o.st))
			continue
		}
		for _, c := range cl.A {
			k, why := a.content(o.st, c)
			if k != "" {
				has[k] = true
				kinds[k] = true
			}
			if why != "" {
				r.bad("attached", a.key+":"+k, p.instrPos(o.at), "%s: the constraint attached is incomplete: %s (%s)", a.key, why, trailOf(o.st))
			} else {
				r.ok("attached", a.key+" "+k)
			}
		}
	}
	for _, o := range plain {
		for k := range has {
			if why := a.excused(o.st, k); why != "" {
				r.bad("attached", a.key+":"+k+":missing", p.instrPos(o.at), "%s returns a generator without the constraint although %s (%s)", a.key, why, trailOf(o.st))
			} else {
				r.ok("attached", a.key+" without "+k)
			}
		}
	}
}

func (a *attachRun) opaque(ev *CallEvent, rets []*Term) {
	st := ev.St
	for _, t := range ev.Args {
		t.any(func(q *Term) bool {
			if a.cov.la.iters[q] != nil {
				st.mon["used:"+strconv.Itoa(q.id)] = "1"
			}
			return false
		})
	}
	if ev.Callee == nil {
		return
	}
	if recvName(ev.Callee) == "constraintCollection" && ev.Callee.Name() == "Merge" && len(ev.Args) == 2 {
		st.mon["m:"+strconv.Itoa(ev.Args[1].id)] = strings.Join(a.ident(st, ev.Args[0]), ",")
	}
	for _, q := range rets {
		if q.typ() != nil && typeName(deref(q.typ())) == "constraintCollection" {
			for _, t := range ev.Args {
				t.any(func(e *Term) bool {
					if c, ok := elemOf(e); ok {
						st.mon["n:"+strconv.Itoa(c.id)] = strconv.Itoa(q.id)
					}
					return false
				})
			}
		}
	}
}

// ident: what tells a collection from another one: where it is held and the tables it consists of.
func (a *attachRun) ident(st *State, addr *Term) []string {
	out := []string{strconv.Itoa(rootTerm(addr).id)}
	a.x.load(st, addr).any(func(q *Term) bool {
		if q.Op == "makemap" || (q.Op == "call" || q.Op == "pcall") && typeName(q.T) == "constraintCollection" {
			out = append(out, strconv.Itoa(q.id))
		}
		return false
	})
	return out
}

func common(a, b []string) (out []string) {
	for _, s := range a {
		for _, t := range b {
			if s == t && s != "" {
				out = append(out, s)
			}
		}
	}
	return
}

// back: each round of the loop over the nots merges what was collected for it.
func (a *attachRun) back(st *State, fr *frame, l *Loop) {
	for coll := range a.cov.over[l] {
		t := coll.typ()
		if t == nil || !mentionsNode(t, 0) {
			continue
		}
		if _, isS := t.Underlying().(*types.Slice); !isS {
			continue
		}
		root := ""
		if q := st.mon["n:"+strconv.Itoa(coll.id)]; q != "" {
			root = st.mon["m:"+q]
		}
		if a.merged == nil {
			a.merged = map[string]bool{}
		}
		k := strconv.Itoa(coll.id)
		a.merged[k+">"+root] = true
	}
	for k := range st.mon {
		if strings.HasPrefix(k, "n:") || strings.HasPrefix(k, "m:") {
			delete(st.mon, k)
		}
	}
	a.cov.back(st, fr, l)
}

// notLists: the lists whose elements were all turned into exclusions of one collection.
func (a *attachRun) notLists() map[string]string {
	out := map[string]string{}
	bad := map[string]bool{}
	for k := range a.merged {
		q := strings.Split(k, ">")
		if q[1] == "" {
			bad[q[0]] = true
		}
		if o, ok := out[q[0]]; ok {
			q[1] = strings.Join(common(strings.Split(o, ","), strings.Split(q[1], ",")), ",")
		}
		out[q[0]] = q[1]
	}
	for k := range bad {
		delete(out, k)
	}
	return out
}

// content identifies a constraint and checks that it is complete.
func (a *attachRun) content(st *State, c *Term) (kind, why string) {
	x := a.x
	v := stripI(c)
	if callTo2(v, "constraintCollection", "Compile") {
		rc := v.A[0]
		if isNodeField(rc, "constraints") && rc.any(func(q *Term) bool { return q.Op == "param" }) {
			return "kept", ""
		}
		for k, root := range a.notLists() {
			if common(a.ident(st, rc), strings.Split(root, ",")) != nil {
				return "not", a.allNots(st, k)
			}
		}
		return "not", "not every excluded schema was added to it"
	}
	t := c.T
	if t == nil {
		return "", "it is of an unknown kind"
	}
	k := a.r.p.constraintKind(t)
	sst, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return "", "it is of an unknown kind"
	}
	fi := fieldOfKind(sst, func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
	if fi < 0 {
		return "", "it is of an unknown kind"
	}
	var l *Term
	if _, isP := t.(*types.Pointer); isP {
		l = x.load(st, x.faddr(v, sst, fi))
	} else {
		l = x.field(v, sst, fi)
	}
	switch k {
	case "one":
		if w := a.cov.covers(st, l, a.listOf("OneOf"), 0); w != "" {
			return k, "its list of schemas does not have one for each branch: " + w
		}
		return k, ""
	case "ifs":
		if w := a.cov.covers(st, l, a.listOf("mergedIf"), 0); w != "" {
			return k, "its list does not have one for each merged if statement: " + w
		}
		if w := a.ownIf(st, l); w != "" {
			return k, w
		}
		return k, ""
	}
	return "", "it is of an unknown kind"
}

func callTo2(t *Term, recv, name string) bool {
	if t == nil || t.Op != "call" && t.Op != "pcall" {
		return false
	}
	f, ok := t.Aux.(*ssa.Function)
	return ok && recvName(f) == recv && f.Name() == name
}

// ownIf: the if statement of the node itself is in the list.
func (a *attachRun) ownIf(st *State, l *Term) string {
	x := a.x
	ifv := a.nodeField(st, "If")
	if ifv == nil || x.knownNil(st, ifv) {
		return ""
	}
	found, why := false, "the node's own if statement is not among them"
	var look func(t *Term, d int)
	look = func(t *Term, d int) {
		if d > 6 {
			return
		}
		t = strip(t)
		base, pieces := unwind(t)
		for _, pc := range pieces {
			if pc.Op != "list" {
				continue
			}
			for _, e := range pc.A {
				if w, ok := a.isOwnIf(st, e); ok {
					found = w == "" || found
					if w != "" {
						why = w
					}
				}
			}
		}
		if base != t {
			look(base, d+1)
		}
		for _, it := range a.cov.la.iters[base] {
			for c := range a.cov.visited(st, it) {
				look(c, d+1)
			}
		}
	}
	look(l, 0)
	if found {
		return ""
	}
	return why
}

func (a *attachRun) isOwnIf(st *State, e *Term) (why string, ok bool) {
	sst, isS := e.typ().Underlying().(*types.Struct)
	if !isS {
		return "", false
	}
	hit := false
	for i := 0; i < sst.NumFields(); i++ {
		switch n := sst.Field(i).Name(); n {
		case "If", "Then", "Else":
			v := a.x.field(e, sst, i)
			if !a.own(v, n) {
				return "the node's own if statement is entered with another " + n, true
			}
			hit = true
		}
	}
	return "", hit
}

func (a *attachRun) nodeField(st *State, name string) *Term {
	for i, q := range a.f.Params {
		if typeName(q.Type()) != "schemaNode" {
			continue
		}
		pt := a.x.T.mk("param", q, i, q.Type(), nil, nil)
		sst := q.Type().Underlying().(*types.Struct)
		for j := 0; j < sst.NumFields(); j++ {
			if sst.Field(j).Name() == name {
				return a.x.field(pt, sst, j)
			}
		}
	}
	return nil
}

// allNots: the list with this id holds every excluded schema of the node.
func (a *attachRun) allNots(st *State, k string) string {
	var l *Term
	for t := range a.cov.la.iters {
		if strconv.Itoa(t.id) == k {
			l = t
		}
	}
	if l == nil {
		return "the list of excluded schemas cannot be told"
	}
	return a.partition(st, l)
}

// partition: every element of the node's list of nots goes to one of the lists the loop builds, or
// an error is recorded, or the element is absent; the other lists are used as well.
func (a *attachRun) partition(st *State, l *Term) string {
	x := a.x
	its := a.cov.la.iters[l]
	if len(its) == 0 {
		return "the list of excluded schemas cannot be told"
	}
	for _, it := range its {
		if it.reset {
			return "the list of excluded schemas is started anew inside the loop"
		}
		if st.mon["brk:"+strconv.Itoa(x.loopID(it.loop))] != "" {
			return "the loop over the excluded schemas was left early"
		}
		good := false
		for coll := range a.cov.visited(st, it) {
			good = good || a.rawNots(st, coll)
		}
		if !good {
			return "the loop does not go over all excluded schemas of the node"
		}
		if it.st.mon["now"] != "" || a.cov.derived(it) || a.absentElem(it) {
			continue
		}
		// it went elsewhere
		other := false
		for t, js := range a.cov.la.iters {
			if t == l {
				continue
			}
			for _, j := range js {
				if j.loop == it.loop && j.st.path == it.st.path && a.cov.derived(j) {
					other = true
					if st.mon["used:"+strconv.Itoa(t.id)] == "" && !a.emptyKnown(st, t) {
						return "the schemas under two nots are collected but not used"
					}
				}
			}
		}
		if !other {
			return "an excluded schema is left out without an error (" + trailOf(it.st) + ")"
		}
	}
	return ""
}

func (a *attachRun) absentElem(it accIter) bool {
	for coll := range a.cov.over[it.loop] {
		for f, v := range it.st.facts {
			if l, r, ok := eqOperands(f); ok && v {
				for _, q := range []*Term{l, r} {
					if c, isE := elemOf(q); isE && c == coll && (l.isNil() || r.isNil()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *attachRun) emptyKnown(st *State, t *Term) bool {
	_, hi := a.x.interval(st, a.x.lenOf(st, t))
	return hi != nil && hi.String() == "0"
}

// rawNots: the list has the node's own not and those of merged branches.
func (a *attachRun) rawNots(st *State, coll *Term) bool {
	own, merged := false, false
	if n := a.nodeField(st, "Not"); n == nil || a.x.knownNil(st, n) {
		own = true
	}
	if m := a.nodeField(st, "mergedNot"); m == nil || a.emptyKnown(st, m) || a.x.knownNil(st, m) {
		merged = true
	}
	var look func(t *Term, d int)
	look = func(t *Term, d int) {
		if d > 6 {
			return
		}
		t = strip(t)
		base, pieces := unwind(t)
		for _, pc := range append(pieces, base) {
			if pc.Op == "list" {
				for _, e := range pc.A {
					own = own || a.own(e, "Not")
				}
			}
			merged = merged || a.own(pc, "mergedNot")
			if pc != t && pc.Op == "append" {
				look(pc, d+1)
			}
		}
	}
	look(coll, 0)
	return own && merged
}

// excused: a path may do without the constraint.
func (a *attachRun) excused(st *State, kind string) string {
	x := a.x
	switch kind {
	case "one":
		if f := a.nodeField(st, "OneOf"); f == nil || x.knownNil(st, f) {
			return ""
		}
		for t := range st.facts {
			hit := false
			t.any(func(q *Term) bool {
				if q.Op == "len" && a.listOf("OneOf")(strip(q.A[0])) {
					if _, hi := x.interval(st, q); hi != nil && (hi.String() == "0" || hi.String() == "1") {
						hit = true
					}
				}
				return false
			})
			if hit {
				return ""
			}
		}
		return "oneOf may have several branches"
	case "ifs":
		if st.mon["rec"] != "" {
			return ""
		}
		if f := a.nodeField(st, "If"); f != nil && !x.knownNil(st, f) {
			return "there may be an if"
		}
		if f := a.nodeField(st, "mergedIf"); f != nil && !a.emptyKnown(st, f) && !x.knownNil(st, f) {
			return "there may be merged if statements"
		}
	case "kept":
		if f := a.nodeField(st, "constraints"); f != nil && !x.knownNil(st, f) {
			return "the node may carry exclusions"
		}
	case "not":
		why := "there may be excluded schemas"
		for k := range a.notLists() {
			for t := range a.cov.la.iters {
				if strconv.Itoa(t.id) == k && a.emptyKnown(st, t) {
					if why = a.partition(st, t); why == "" {
						return ""
					}
				}
			}
		}
		return why
	}
	return ""
}

// ifCompiles: the compiled if statement checks the if schema and generates from then and else.
func (r *R) ifCompiles() {
	p := r.p
	n := 0
	var bodies []*ssa.Function
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if rs.Len() != 2 || p.constraintKind(rs.At(0).Type()) != "if" || !isErrT(rs.At(1).Type()) || f.Synthetic != "" {
			continue
		}
		n++
		key := shortFn(f)
		x := newExec(p, Config{
			Inline: func(g *ssa.Function) bool {
				rs := g.Signature.Results()
				return !p.recursive(g) && p.inRepo(g) && !isRecorder(g) && !(rs.Len() > 0 && isSchemaT(rs.At(0).Type()))
			},
			Fact: func(t *Term) int { return 1 },
		})
		x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
			if ev.Callee != nil && len(rets) == 1 && typeName(rets[0].typ()) == "Generator" {
				for _, b := range bodies {
					if b == ev.Callee {
						return
					}
				}
				bodies = append(bodies, ev.Callee)
			}
		}
		outs := x.Root(f, nil)
		r.exec(x, key)
		has := func(t *Term, name string) bool {
			return t != nil && t.any(func(q *Term) bool { return isField(q, "ifStatement", name) })
		}
		for _, o := range outs {
			if o.kind != "return" || x.nonNil(o.st, o.rets[1]) || x.knownNonNil(o.st, o.rets[1]) {
				continue
			}
			v := o.rets[0]
			sst := v.typ().Underlying().(*types.Struct)
			for i := 0; i < sst.NumFields(); i++ {
				t, name := x.field(v, sst, i), strings.ToLower(sst.Field(i).Name())
				switch {
				case isCheckFunc(sst.Field(i).Type()):
					if why := r.condition(x, o.st, strip(t), has); why != "" {
						r.bad("if compiled", key+":condition", p.instrPos(o.at), "%s: %s (%s)", key, why, trailOf(o.st))
					} else {
						r.ok("if compiled", key+" condition")
					}
				case typeName(sst.Field(i).Type()) == "Generator":
					want, not := "Then", "Else"
					if strings.Contains(name, "else") {
						want, not = not, want
					}
					if has(t, want) && !has(t, not) || r.absentBranch(x, o.st, t, want) {
						r.ok("if compiled", key+" "+want)
					} else {
						r.bad("if compiled", key+":"+want, p.instrPos(o.at), "%s does not generate from the %s schema (%s)", key, want, trailOf(o.st))
					}
				}
			}
		}
	}
	if n == 0 {
		r.missing("the compilation of if statements")
		return
	}
	r.need("if compiled", 3)
	sort.Slice(bodies, func(i, j int) bool { return bodies[i].String() < bodies[j].String() })
	for _, b := range bodies {
		r.ifBody(b)
	}
}

func (r *R) absentBranch(x *Exec, st *State, gen *Term, name string) bool {
	if !x.knownNil(st, gen) {
		return false
	}
	for a, v := range st.facts {
		if l, rr, ok := eqOperands(a); ok && v && (l.isNil() && isField(rr, "ifStatement", name) || rr.isNil() && isField(l, "ifStatement", name)) {
			return true
		}
	}
	return false
}

func (r *R) condition(x *Exec, st *State, fn *Term, has func(*Term, string) bool) string {
	if fn == nil || fn.Op != "closure" && fn.Op != "func" {
		return "the condition cannot be told"
	}
	body := fn.Aux.(*ssa.Function)
	if len(body.Params) != 1 {
		return "the condition cannot be told"
	}
	el := x.T.mk("param", body.Params[0], 900, body.Params[0].Type(), nil, nil)
	val := map[*Term]bool{}
	old := x.cfg
	defer func() { x.cfg = old }()
	x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
		if ev.Callee != nil && ev.Callee.Name() == "Validate" && len(ev.Args) == 2 && len(rets) == 1 && isSchemaT(ev.Args[0].typ()) && stripI(ev.Args[1]) == el && has(ev.Args[0], "If") && !has(ev.Args[0], "Then") && !has(ev.Args[0], "Else") {
			val[rets[0]] = true
		}
	}
	n := 0
	for _, o := range x.run(body, st.clone(), []*Term{el}, fn.A, nil, nil) {
		if o.kind != "return" {
			continue
		}
		for _, want := range []bool{true, false} {
			if v, known := x.decide(o.st, o.rets[0]); known && v != want {
				continue
			}
			ns := o.st.clone()
			x.assume(ns, o.rets[0], want, o.at)
			good := false
			for e := range val {
				if nilv, known := x.isNilFact(ns, e); known && nilv == want {
					good = true
				}
			}
			if !good {
				return fmt.Sprintf("the condition may be %v without the if schema having decided so", want)
			}
			n++
		}
	}
	if n < 2 {
		return "the condition is never decided"
	}
	return ""
}

// failedCall: on this path a call reported an error (that it is recorded is decided by C14).
func failedCall(st *State) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if !ok || v {
			continue
		}
		if e.isNil() && isErrT(l.T) || l.isNil() && isErrT(e.T) {
			return true
		}
	}
	return false
}

// ifBody: the generator of a branch is parsed from the branch merged with its surroundings.
func (r *R) ifBody(f *ssa.Function) {
	p := r.p
	key := shortFn(f)
	var body, around *Term
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool { return !p.recursive(g) && p.inRepo(g) && !isRecorder(g) },
		Fact:   func(t *Term) int { return 1 },
	})
	for i, q := range f.Params {
		if typeName(deref(q.Type())) != "schemaNode" && typeName(q.Type()) != "schemaNode" {
			continue
		}
		t := x.T.mk("param", q, i, q.Type(), nil, nil)
		if _, isP := q.Type().Underlying().(*types.Pointer); isP {
			body = t
		} else {
			around = t
		}
	}
	if body == nil || around == nil {
		return
	}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if isRecorder(ev.Callee) {
			ev.St.mon["rec"] = "1"
		}
		return false
	}
	for _, o := range x.Root(f, nil) {
		if o.kind != "return" {
			continue
		}
		g := o.rets[0]
		uses := func(w *Term) bool { return g.any(func(q *Term) bool { return q == w }) }
		switch {
		case x.knownNil(o.st, body) && x.knownNil(o.st, g), o.st.mon["rec"] != "", failedCall(o.st):
			r.ok("if branch", key+" absent")
		case uses(body) && uses(around):
			r.ok("if branch", key+" "+p.instrPos(o.at))
		default:
			r.bad("if branch", key, p.instrPos(o.at), "%s returns a generator that is not parsed from the branch together with the schema around it (%s)", key, trailOf(o.st))
		}
	}
	r.exec(x, key)
	r.need("if branch", 2)
}

// dispatched: the keywords with constraints reach the parsers that attach them.
func (r *R) dispatched(kindOf map[*ssa.Function]map[string]bool) {
	p := r.p
	n := 0
	for _, f := range sortedFns(p.Funcs2set()) {
		if !isGeneratorErr(f) || kindOf[f] != nil {
			continue
		}
		ks := map[string]bool{}
		for _, g := range p.callGraph()[f] {
			for k := range kindOf[g] {
				ks[k] = true
			}
		}
		if !ks["one"] || !ks["ifs"] || !ks["not"] {
			continue
		}
		n++
		key := shortFn(f)
		helps := p.touching(func(in ssa.Instruction) bool {
			return usesField(in, "schemaNode", "OneOf", "If", "Not", "mergedNot", "mergedIf", "Ref", "AllOf")
		}, func(g *ssa.Function) bool { return p.recursive(g) })
		x := newExec(p, Config{
			Inline: func(g *ssa.Function) bool { return !p.recursive(g) && helps[g] && !isRecorder(g) },
			Fact: func(t *Term) int {
				if t.any(func(q *Term) bool {
					return isNodeField(q, "OneOf", "If", "Not", "mergedNot", "mergedIf", "Ref", "AllOf")
				}) {
					return 1
				}
				if l, rr, ok := eqOperands(t); ok && (isErrT(l.typ()) || isErrT(rr.typ())) {
					return 1
				}
				return -1
			},
		})
		x.cfg.OnCall = func(ev *CallEvent) bool {
			for k := range kindOf[ev.Callee] {
				ev.St.mon["called"] = k
			}
			return false
		}
		a := &attachRun{r: r, f: f, x: x}
		for _, o := range x.Root(f, nil) {
			if o.kind != "return" || x.nonNil(o.st, o.rets[1]) || x.knownNonNil(o.st, o.rets[1]) {
				continue
			}
			ref, all := a.nodeField(o.st, "Ref"), a.nodeField(o.st, "AllOf")
			if o.st.mon["called"] != "" || ref != nil && x.knownNonNil(o.st, ref) || all != nil && x.knownNonNil(o.st, all) {
				r.ok("dispatched", key+" to its parser")
				continue
			}
			for _, name := range []string{"OneOf", "If", "Not", "mergedNot", "mergedIf"} {
				v := a.nodeField(o.st, name)
				if v == nil || x.knownNil(o.st, v) || isSliceT(v.typ()) && a.emptyKnown(o.st, v) {
					r.ok("dispatched", key+" without "+name)
				} else {
					r.bad("dispatched", key+":"+name, p.instrPos(o.at), "%s parses a schema that may have a %s without handing it to the parser that attaches its constraint (%s)", key, name, trailOf(o.st))
				}
			}
		}
		r.exec(x, key)
	}
	if n == 0 {
		r.missing("the function that chooses the parser of a schema")
	}
}

func (p *Prog) Funcs2set() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.allBodies() {
		if f.Synthetic == "" && f.Parent() == nil {
			out[f] = true
		}
	}
	return out
}
