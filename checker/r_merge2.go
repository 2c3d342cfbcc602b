package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// iteration checks the merged value after one node against the value before it and the node's own.
func (m *mergeRun) iteration(st *State, now *Term, l *Loop) {
	x := m.x
	at := m.p.instrPos(l.Header.Instrs[0])
	if now == nil {
		m.r.bad("merged", m.word+":unknown", at, "what happens to %s cannot be followed", m.word)
		return
	}
	var why string
	switch m.kind {
	case "values":
		why = m.values(st, now)
	case "nots":
		why = m.nots(st, now)
	case "ifs":
		why = m.ifs(st, now)
	default:
		v := m.field(m.idx[0], now)
		n := m.node(st, v)
		if n == nil {
			why = "the node's own one is not looked at"
			break
		}
		if why = m.rightNode(st, n); why != "" {
			break
		}
		mo := m.before()
		switch m.kind {
		case "lower", "upper":
			why = m.bound(st, v, mo, n)
		case "same":
			why = m.same(st, v, mo, n)
		case "multiple":
			why = m.multiple(st, v, mo, n)
		case "cat":
			why = m.cat(st, v, mo, n)
		case "keys":
			why = m.keys(st, v, mo, n)
		case "false":
			why = m.orFalse(st, v, mo, n)
		case "items":
			why = m.items(st, v, mo, n)
		case "sub":
			why = m.sub(st, v, mo, n)
		case "prefix":
			why = m.prefix(st, v, mo, n)
		case "type":
			why = m.types(st, v, mo, n)
		case "ref":
			if !(m.isN(v) || (m.isM(v) || v.isNil() && m.mNil(st)) && (st.mon["resolved"] != "" || st.mon["reported"] != "" || m.nNilOf(st, m.idx[0]))) {
				why = "a reference that could not be followed is dropped"
			}
		case "exclusions":
			why = m.exclusions(st, v, mo, n)
		default:
			if m.isM(v) && !x.knownNil(st, n) {
				why = "the node's own one is left out"
			}
		}
	}
	if why == "" {
		m.r.ok("merged", m.word+" "+trailKey(st))
		return
	}
	m.r.bad("merged", m.word+":"+why, at, "merging %s: %s (it becomes %s, %s)", m.word, why, m.show(st, now), trailOf(st))
}

func (m *mergeRun) show(st *State, now *Term) string {
	s := ""
	for _, i := range m.idx {
		v := m.field(i, now)
		s += " " + v.String()
		if v.Op == "alloc" {
			s += " -> " + m.x.load(st, v).String()
		}
	}
	return s[1:]
}

func trailKey(st *State) string {
	n := 0
	for p := st.path; p != nil; p = p.prev {
		n = n*31 + len(p.text)
	}
	return strconv.Itoa(n)
}

// before: the field of the merged node when the iteration started.
func (m *mergeRun) before() *Term { return m.beforeOf(m.idx[0]) }

func (m *mergeRun) beforeOf(i int) *Term {
	x := m.x
	if m.lv != nil {
		return m.field(i, m.lv)
	}
	return x.faddr(m.dst, m.st, i)
}

// mNil, mIs: facts about the value merged before, whichever way it is written on this path.
func (m *mergeRun) forms(st *State, i int) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(t *Term) {
		t.any(func(q *Term) bool {
			if m.isM(q) && !seen[q] && m.fieldIdx(q) == i {
				seen[q] = true
				out = append(out, q)
			}
			return false
		})
	}
	for a := range st.facts {
		add(a)
	}
	for _, v := range st.heap {
		add(v)
	}
	return out
}

func (m *mergeRun) fieldIdx(q *Term) int {
	if q.Op == "havoc" {
		return q.A[0].N
	}
	if q.Op == "load" {
		return q.A[0].N
	}
	return q.N
}

func (m *mergeRun) mNil(st *State) bool { return m.mNilOf(st, m.idx[0]) }

func (m *mergeRun) mNilOf(st *State, i int) bool {
	for _, f := range m.forms(st, i) {
		if m.x.knownNil(st, f) {
			return true
		}
	}
	return false
}

// nNilOf: some form of the node (as given, or what it refers to) is known not to have the field.
func (m *mergeRun) nNilOf(st *State, i int) bool {
	for a := range st.facts {
		if a.any(func(q *Term) bool { return m.isN(q) && m.fieldIdx(q) == i && m.x.knownNil(st, q) }) {
			return true
		}
	}
	return false
}

// node: the field of the node that is being merged.
func (m *mergeRun) node(st *State, v *Term) *Term { return m.nodeOf(st, m.idx[0], v) }

func (m *mergeRun) nodeOf(st *State, i int, vs ...*Term) *Term {
	var found *Term
	pick := func(t *Term) {
		t.any(func(q *Term) bool {
			if m.isN(q) && m.fieldIdx(q) == i && (found == nil || q.id > found.id) {
				found = q
			}
			return false
		})
	}
	for _, v := range vs {
		if v != nil {
			pick(v)
			if v.Op == "alloc" || v.Op == "iaddr" {
				pick(m.x.load(st, v))
			}
		}
	}
	if found != nil {
		return found
	}
	for a := range st.facts {
		pick(a)
	}
	if found == nil {
		for _, v := range st.heap {
			pick(v)
		}
	}
	return found
}

// rightNode: after a reference was followed its target is merged, not the node that refers to it.
func (m *mergeRun) rightNode(st *State, n *Term) string {
	if st.mon["resolved"] == "" || m.kind == "ref" {
		return ""
	}
	_, _, b, ok := fieldRead(n)
	if !ok {
		return ""
	}
	if b.Op == "iaddr" && b.A[0].Op == "param" || b.Op == "sload" && b.A[0].Op == "iaddr" && b.A[0].A[0].Op == "param" {
		return "the node that refers to another one is merged instead of the one it refers to"
	}
	if ns, ok := m.mergedFrom(st, b); ok && !m.amongst(ns, m.isN) {
		return "the node is merged without all of its own allOf, or the other way around"
	}
	return ""
}

func (m *mergeRun) content(st *State, v *Term) *Term {
	if v == nil || v.isNil() {
		return v
	}
	if _, isP := v.typ().Underlying().(*types.Pointer); isP || v.Op == "alloc" || v.Op == "iaddr" {
		return m.x.load(st, v)
	}
	return v
}

// is: v is the same as one of the sides.
func (m *mergeRun) is(st *State, v *Term, side string) bool {
	if m.side(v) == side && v.Op != "load" || (side == "M" && m.isM(v)) || (side == "N" && m.isN(v)) {
		return true
	}
	if v.Op == "alloc" || v.Op == "iaddr" {
		c := m.x.load(st, v)
		return m.side(c) == side && (c.Op == "load" || c.Op == "sload")
	}
	return false
}

// compare: the path shows rel between the contents of the two sides ("<=" or ">=").
func (m *mergeRun) compare(st *State, rel string) bool {
	flip := map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "=="}
	neg := map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!="}
	for a, v := range st.facts {
		if a.Op != "bin" {
			continue
		}
		op := a.Aux.(string)
		l, r := m.side(a.A[0]), m.side(a.A[1])
		if l == "" || r == "" || l == r {
			continue
		}
		if !v {
			op = neg[op]
		}
		if l == "N" {
			op = flip[op]
		}
		if op == rel || op == "==" || op == rel[:1] {
			return true
		}
	}
	return false
}

func (m *mergeRun) bound(st *State, v, mo, n *Term) string {
	x := m.x
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	lower := m.kind == "lower"
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil || lower && m.compare(st, ">=") || !lower && m.compare(st, "<=") {
			return ""
		}
		return "the bound kept so far stays although the node's own one may be tighter"
	case m.is(st, v, "N"):
		if mNil || lower && m.compare(st, "<=") || !lower && m.compare(st, ">=") {
			return ""
		}
		return "the node's bound replaces one that may be tighter"
	}
	c := m.content(st, v)
	want := "math.Min"
	if lower {
		want = "math.Max"
	}
	ok := c.any(func(t *Term) bool {
		if !callTo(t, want) && !(t.Op == "pcall" || t.Op == "builtin") {
			return false
		}
		a, b := false, false
		t.any(func(q *Term) bool {
			a = a || m.isM(q)
			b = b || m.isN(q)
			return false
		})
		return a && b && callTo(t, want)
	})
	if ok {
		return ""
	}
	return "it becomes something other than the tighter of the two bounds"
}

func (m *mergeRun) equal(st *State) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if ok && v && m.side(l) != "" && m.side(e) != "" && m.side(l) != m.side(e) {
			return true
		}
	}
	return false
}

func (m *mergeRun) same(st *State, v, mo, n *Term) string {
	nNil, mNil := m.x.knownNil(st, n), m.mNil(st)
	if v.isNil() {
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	}
	one := m.is(st, v, "M")
	if !one && !m.is(st, v, "N") {
		return "it becomes something else"
	}
	if nNil && one || mNil && !one {
		return ""
	}
	if nNil || mNil {
		return "it is dropped although only one side has it"
	}
	if m.equal(st) || st.mon["reported"] != "" {
		return ""
	}
	return "two values that may differ become one without an error"
}

func isZeroFact(st *State, is func(*Term) bool) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if ok && v && (isZeroC(e) && is(l) || isZeroC(l) && is(e)) {
			return true
		}
	}
	return false
}

func (m *mergeRun) multiple(st *State, v, mo, n *Term) string {
	nNil := m.x.knownNil(st, n) || isZeroFact(st, func(t *Term) bool { return t.Op == "load" && m.side(t) == "N" })
	mNil := m.mNil(st) || isZeroFact(st, func(t *Term) bool { return t.Op == "load" && m.side(t) == "M" })
	divides := func(a, b string) bool { // a is a multiple of b
		return isZeroFact(st, func(t *Term) bool {
			return callTo(t, "math.Mod", "math.Remainder") && m.side(t.A[0]) == a && m.side(t.A[1]) == b
		})
	}
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil || divides("M", "N") || m.equal(st) {
			return ""
		}
		return "the node's own factor is ignored"
	case m.is(st, v, "N"):
		if mNil || divides("N", "M") || m.equal(st) {
			return ""
		}
		return "the factor merged so far is ignored"
	}
	c := m.content(st, v)
	if c.any(m.isM) && c.any(m.isN) {
		return ""
	}
	return "it is not made from both factors"
}

// parts: single elements and whole slices a list is put together from.
func (m *mergeRun) parts(st *State, t *Term, out []*Term) []*Term {
	t = strip(t)
	switch {
	case t.isNil() || t.Op == "zero":
		return out
	case t.Op == "list":
		return append(out, t.A...)
	case t.Op == "append":
		out = m.parts(st, t.A[0], out)
		return m.parts(st, t.A[1], out)
	case callTo(t, "github.com/thoas/go-funk.UniqString", "github.com/thoas/go-funk.Uniq", "slices.Clone", "slices.Compact", "github.com/thoas/go-funk.UnionString"):
		for _, a := range t.A {
			out = m.parts(st, a, out)
		}
		return out
	case callTo(t, "slices.Concat"):
		for _, a := range t.A {
			if l, ok := m.x.asList(st, a); ok {
				for _, e := range l.A {
					out = m.parts(st, e, out)
				}
			}
		}
		return out
	}
	if l, ok := m.x.asList(st, t); ok {
		return append(out, l.A...)
	}
	// built up by a loop, one entry after the other
	if init := m.inits[t]; init != nil && init != t {
		if c := m.swept(t); c != nil {
			out = append(m.parts(st, init, out), c)
			return out
		}
	}
	return append(out, t)
}

// swept: what a loop runs over, when every iteration adds the entry it is at.
func (m *mergeRun) swept(t *Term) *Term {
	var coll *Term
	its := m.acc.iters[t]
	for _, it := range its {
		if it.reset || len(it.added) == 0 {
			return nil
		}
		c := m.x.loopOver(it.st, it.loop)
		if c == nil || coll != nil && c != coll && m.side(c) != m.side(coll) {
			return nil
		}
		coll = c
		for _, pc := range it.added {
			if pc.Op != "list" {
				return nil
			}
			for _, e := range pc.A {
				if ec, ok := elemOf(strip(e)); !ok || m.side(ec) != m.side(c) {
					return nil
				}
			}
		}
	}
	return coll
}

// emptySide: the path knows there is nothing in it.
func (m *mergeRun) emptySide(st *State, side string) bool {
	for a, v := range st.facts {
		if l, e, ok := eqOperands(a); ok && v {
			if e.isNil() && m.side(l) == side || l.isNil() && m.side(e) == side {
				return true
			}
		}
		// the lengths add up to nothing
		if l, e, ok := eqOperands(a); ok && v && isZeroC(e) && m.inSum(st, l, side) {
			return true
		}
	}
	ln := false
	for a := range st.facts {
		a.any(func(t *Term) bool {
			if t.Op != "len" || ln {
				return false
			}
			for _, q := range m.parts(st, t.A[0], nil) {
				if m.side(q) == side {
					if _, hi := m.x.interval(st, t); hi != nil && constSign(hi) <= 0 {
						ln = true
					}
				}
			}
			return false
		})
	}
	return ln
}

// inSum: t adds up lengths, one of them that of a side.
func (m *mergeRun) inSum(st *State, t *Term, side string) bool {
	if t.Op == "len" {
		for _, q := range m.parts(st, t.A[0], nil) {
			if m.side(q) == side {
				return true
			}
		}
		return false
	}
	return t.Op == "bin" && t.Aux == "+" && (m.inSum(st, t.A[0], side) || m.inSum(st, t.A[1], side))
}

func (m *mergeRun) cat(st *State, v, mo, n *Term) string {
	var ps []*Term
	if m.isM(v) || m.isN(v) {
		ps = []*Term{v}
	} else if !v.isNil() {
		ps = m.parts(st, m.content(st, v), nil)
	}
	has := map[string]bool{}
	for _, q := range ps {
		has[m.side(q)] = true
	}
	if !has["M"] && !m.emptySide(st, "M") {
		return "the entries merged so far are left out"
	}
	if !has["N"] && !m.emptySide(st, "N") && st.mon["reported"] == "" {
		return "the node's own entries are left out"
	}
	return ""
}

func (m *mergeRun) keys(st *State, v, mo, n *Term) string {
	c := v
	if !m.isM(v) && !m.isN(v) {
		c = m.content(st, v)
	}
	holds := func(s string) bool { return m.side(c) == s || m.side(v) == s }
	if !holds("N") && !m.emptySide(st, "N") {
		if st.mon["sweptN"] == "" {
			return "the node's own entries are left out"
		}
		if into := st.mon["into"]; into != "" && into != strconv.Itoa(c.id) && c.Op != "loopvar" {
			return "the node's own entries are copied to something else"
		}
	}
	if !holds("M") && !m.emptySide(st, "M") && st.mon["sweptM"] == "" {
		return "the entries merged so far are left out"
	}
	return ""
}

// sub-fields of the structure a keyword's value is kept in
func subField(t types.Type, pred func(types.Type) bool) (*types.Struct, int) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil, -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if pred(st.Field(i).Type()) {
			return st, i
		}
	}
	return st, -1
}

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isNodeT(p.Elem())
}

// flag: what the path knows about a part (read through i) of a side.
func (m *mergeRun) known(st *State, side string, i int, isNil bool) (val, known bool) {
	for a, v := range st.facts {
		q := a
		if isNil {
			l, e, ok := eqOperands(a)
			if !ok || !e.isNil() {
				continue
			}
			q = l
		}
		if q.Op != "load" && q.Op != "field" {
			continue
		}
		if m.partOf(q, i) == side {
			return v, true
		}
	}
	return false, false
}

// partOf: the term reads part i of what a side points to.
func (m *mergeRun) partOf(q *Term, i int) string {
	switch q.Op {
	case "load":
		if q.A[0].Op == "faddr" && q.A[0].N == i {
			return m.side(q.A[0].A[0])
		}
	case "field":
		if q.N == i {
			if b := q.A[0]; b.Op == "sload" {
				return m.side(b.A[0])
			}
			return m.side(q.A[0])
		}
	}
	return ""
}

// mergeOf: v (or what it points to) is the merge of the parts i of both sides.
func (m *mergeRun) mergeOf(st *State, v *Term, i int) bool {
	if v.Op == "alloc" || v.Op == "iaddr" {
		v = m.x.load(st, v)
	}
	ns, ok := m.mergedFrom(st, v)
	if !ok {
		return false
	}
	a, b := false, false
	for _, q := range ns {
		q.any(func(t *Term) bool {
			s := ""
			if i < 0 {
				s = m.side(t)
			} else {
				s = m.partOf(t, i)
			}
			a = a || s == "M"
			b = b || s == "N"
			return s != ""
		})
	}
	return a && b
}

func (m *mergeRun) orFalse(st *State, v, mo, n *Term) string {
	x := m.x
	sst, no := subField(m.st.Field(m.idx[0]).Type(), isBoolT)
	_, sch := subField(m.st.Field(m.idx[0]).Type(), isNodePtr)
	if no < 0 || sch < 0 {
		return "its representation is not understood"
	}
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	isFalse := func(s string) (bool, bool) { return m.known(st, s, no, false) }
	anything := func(s string) bool { // the schema "true"
		f, kf := isFalse(s)
		e, ke := m.known(st, s, sch, true)
		return kf && !f && ke && e
	}
	choose := func(s, other string, otherNil bool) string {
		f, k := isFalse(s)
		if otherNil || k && f || anything(other) || st.mon["reported"] != "" {
			return ""
		}
		return "one side replaces the other one"
	}
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		return choose("M", "N", nNil)
	case m.is(st, v, "N"):
		return choose("N", "M", mNil)
	}
	c := m.content(st, v)
	fv := x.field(c, sst, no)
	if b, ok := x.decide(st, fv); ok && b {
		fm, km := isFalse("M")
		fn, kn := isFalse("N")
		if km && fm || kn && fn {
			return ""
		}
		return "it becomes false although neither side is"
	}
	fm, km := isFalse("M")
	fn, kn := isFalse("N")
	if !(km && !fm && kn && !fn) {
		return "false does not win over another schema"
	}
	if m.mergeOf(st, x.field(c, sst, sch), sch) {
		return ""
	}
	return "it is not the merge of both schemas"
}

func (m *mergeRun) items(st *State, v, mo, n *Term) string {
	x := m.x
	sst, no := subField(m.st.Field(m.idx[0]).Type(), isBoolT)
	_, sch := subField(m.st.Field(m.idx[0]).Type(), isNodePtr)
	if no < 0 || sch < 0 {
		return "its representation is not understood"
	}
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	flag := func(s string) (bool, bool) { return m.known(st, s, no, false) }
	nothing := func(s string) bool {
		f, kf := flag(s)
		e, ke := m.known(st, s, sch, true)
		return kf && !f && ke && e
	}
	if st.mon["reported"] != "" {
		return ""
	}
	switch {
	case v.isNil():
		if (nNil || nothing("N")) && (mNil || nothing("M")) {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil || nothing("N") {
			return ""
		}
		if f, k := flag("M"); k && f {
			return ""
		}
		return "the node's own items are left out"
	case m.is(st, v, "N"):
		if mNil || nothing("M") {
			return ""
		}
		if f, k := flag("N"); k && f {
			return ""
		}
		return "the items merged so far are left out"
	}
	c := m.content(st, v)
	no1 := x.field(c, sst, no)
	if b, ok := x.decide(st, no1); ok && b {
		fm, km := flag("M")
		fn, kn := flag("N")
		if km && fm || kn && fn {
			return ""
		}
		return "items become disallowed although neither side asks for it"
	}
	for _, s := range []string{"M", "N"} {
		f, k := flag(s)
		if s == "M" && mNil {
			continue
		}
		if (!k || f) && m.partOf(no1, no) != s {
			return "items may stay allowed although one side disallows them"
		}
	}
	q := x.field(c, sst, sch)
	e1, k1 := m.known(st, "M", sch, true)
	e2, k2 := m.known(st, "N", sch, true)
	switch {
	case m.mergeOf(st, q, sch):
		return ""
	case m.partOf(q, sch) == "N":
		if mNil || k1 && e1 {
			return ""
		}
		return "the items schema merged so far is replaced"
	case m.partOf(q, sch) == "M":
		if k2 && e2 {
			return ""
		}
		return "the node's own items schema is left out"
	}
	if (mNil || k1 && e1) && k2 && e2 {
		return ""
	}
	return "it is not made from the items of both sides"
}

func (m *mergeRun) sub(st *State, v, mo, n *Term) string {
	x := m.x
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	if st.mon["reported"] != "" {
		return ""
	}
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil {
			return ""
		}
		return "the node's own schema is left out"
	case m.is(st, v, "N"):
		if mNil {
			return ""
		}
		return "the schema merged so far is left out"
	}
	c := m.content(st, v)
	if m.mergeOf(st, c, -1) {
		return ""
	}
	s := ""
	if c.Op == "sload" {
		s = m.side(c.A[0])
	}
	if s == "M" && nNil || s == "N" && mNil {
		return ""
	}
	return "it is not the merge of both schemas"
}

// position: what is stored at a place of the merged list.
func (m *mergeRun) position(st *State, in *ssa.Store) {
	x := m.x
	ia, ok := in.Addr.(*ssa.IndexAddr)
	if !ok || !isNodeT(in.Val.Type()) {
		return
	}
	b := x.val(st, ia.X)
	if b.Op != "makeslice" {
		return
	}
	i := x.val(st, ia.Index)
	m.placed[b] = i
	v := x.val(st, in.Val)
	at := func(t *Term) (string, bool) { // element of a side, at the same place
		t = strip(t)
		if t.Op == "sload" && t.A[0].Op == "iaddr" {
			return m.side(t.A[0].A[0]), t.A[0].A[1] == i
		}
		if t.Op == "elem" {
			return m.side(t.A[0]), t.A[1] == i
		}
		return "", false
	}
	beyond := func(s string) bool {
		for a, val := range st.facts {
			if a.Op != "bin" {
				continue
			}
			op := a.Aux.(string)
			l, r := a.A[0], a.A[1]
			if l.Op == "len" && m.side(l.A[0]) == s && r == i {
				l, r = r, l
				op = map[string]string{"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
			}
			if l == i && r.Op == "len" && m.side(r.A[0]) == s && (op == "<" && !val || op == ">=" && val) {
				return true
			}
		}
		return m.emptySide(st, s)
	}
	good := false
	if ns, ok := m.mergedFrom(st, v); ok {
		have := map[string]bool{}
		for _, q := range ns {
			if s, same := at(q); same {
				have[s] = true
			}
		}
		good = have["M"] && have["N"]
	} else if beyond("M") && beyond("N") {
		good = true
	} else if s, same := at(v); same {
		good = s == "M" && beyond("N") || s == "N" && beyond("M")
	}
	if good {
		st.mon["placed"] = "1"
		m.r.ok("merged", m.word+" position "+trailKey(st))
		return
	}
	m.r.bad("merged", m.word+":position", m.p.instrPos(in), "at a place of %s %s is put, which is not made from the entries both sides have there (%s)", m.word, v, trailOf(st))
}

func (m *mergeRun) prefix(st *State, v, mo, n *Term) string {
	nNil, mNil := m.emptySide(st, "N"), m.emptySide(st, "M")
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil {
			return ""
		}
		return "the node's own entries are left out"
	case m.is(st, v, "N"):
		if mNil {
			return ""
		}
		return "the entries merged so far are left out"
	}
	c := m.content(st, v)
	if c.Op != "makeslice" {
		return "it is not made from both lists"
	}
	// every place is filled
	if i := m.placed[c]; i == nil || !m.allPlaces(st, c, i) {
		return "not every place of the merged list is filled"
	}
	// long enough for both
	have := map[string]bool{}
	c.A[0].any(func(t *Term) bool {
		if t.Op == "len" {
			have[m.side(t.A[0])] = true
		}
		return false
	})
	longer := func(s, o string) bool {
		for a, val := range st.facts {
			if a.Op != "bin" || a.A[0].Op != "len" || a.A[1].Op != "len" {
				continue
			}
			l, r, op := m.side(a.A[0].A[0]), m.side(a.A[1].A[0]), a.Aux.(string)
			if !val {
				op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
			}
			if l == s && r == o && (op == ">" || op == ">=") || l == o && r == s && (op == "<" || op == "<=") {
				return true
			}
		}
		return false
	}
	if have["M"] && have["N"] && c.A[0].any(func(t *Term) bool { return callTo(t, "math.Max") || t.Op == "max" || strings0(t.Aux) == "max" }) {
		return ""
	}
	if have["M"] && (nNil || longer("M", "N")) || have["N"] && (mNil || longer("N", "M")) {
		return ""
	}
	return "the merged list may be shorter than one of the two"
}

// allPlaces: the loop that fills the list at index i started at its first place and ran to its end.
func (m *mergeRun) allPlaces(st *State, list, i *Term) bool {
	ended := false
	for a, v := range st.facts {
		if a.Op != "bin" {
			continue
		}
		l, r, op := a.A[0], a.A[1], a.Aux.(string)
		if !v {
			op = map[string]string{"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "=="}[op]
		}
		size := func(t *Term) bool { return t == list.A[0] || t.Op == "len" && t.A[0] == list }
		if l == i && size(r) && (op == ">=" || op == "==") || r == i && size(l) && (op == "<=" || op == "==") {
			ended = true
		}
	}
	if !ended {
		return false
	}
	lv, add := i, 0
	if i.Op == "bin" && i.Aux == "+" {
		for k := 0; k < 2; k++ {
			if c, ok := intConst(i.A[k]); ok {
				lv, add = i.A[1-k], int(c)
			}
		}
	}
	first, ok := intConst(m.inits[lv])
	return ok && int(first)+add == 0
}

func strings0(a interface{}) string {
	s, _ := a.(string)
	return s
}

func (m *mergeRun) types(st *State, v, mo, n *Term) string {
	x := m.x
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	of := func(t *Term) string { // the list of types of a side
		s := ""
		t.any(func(q *Term) bool {
			if m.isM(q) {
				s += "M"
			} else if m.isN(q) {
				s += "N"
			}
			return false
		})
		if s == "M" || s == "N" {
			return s
		}
		return ""
	}
	none := func(s string) bool {
		for a := range st.facts {
			hit := false
			a.any(func(t *Term) bool {
				if t.Op == "len" && of(t.A[0]) == s {
					if _, hi := x.interval(st, t); hi != nil && constSign(hi) <= 0 {
						hit = true
					}
				}
				return false
			})
			if hit {
				return true
			}
		}
		return false
	}
	switch {
	case v.isNil():
		if nNil && mNil {
			return ""
		}
		return "it is dropped"
	case m.is(st, v, "M"):
		if nNil || none("N") || st.mon["reported"] != "" {
			return ""
		}
		return "the node's own types are ignored"
	case m.is(st, v, "N"):
		if mNil || none("M") || st.mon["reported"] != "" {
			return ""
		}
		return "the types merged so far are ignored"
	}
	// a list built by a loop that tests both sides
	c := m.content(st, v)
	why := "it is not built from the types both sides allow"
	c.any(func(t *Term) bool {
		its := m.acc.iters[t]
		if len(its) == 0 {
			return false
		}
		why = ""
		for _, it := range its {
			tm := typeFacts(it.st, of)
			cand := tm.candidates()
			for _, pc := range it.added {
				if pc.Op != "list" {
					why = "types are added that cannot be followed"
				}
				for _, e := range pc.A {
					for _, s := range []string{"M", "N"} {
						if ok, known := tm.allowed(s, e); !known || !ok {
							why = "a type only one side allows is kept (" + trailOf(it.st) + ")"
						}
					}
				}
			}
			if len(it.added) == 0 {
				out := len(cand) > 0
				for _, e := range cand {
					ok := false
					for _, s := range []string{"M", "N"} {
						if al, known := tm.allowed(s, e); known && !al {
							ok = true
						}
					}
					out = out && (ok || tm.covered(e))
				}
				if !out {
					why = "a type both sides allow is left out (" + trailOf(it.st) + ")"
				}
			}
			if it.reset {
				why = "the list of types is started anew"
			}
		}
		return true
	})
	return why
}

// typeTests: what an iteration knows about the types each side allows.
type typeTests struct {
	is   map[*Term]string          // the word a value is known to be
	isnt map[*Term]map[string]bool // ... not to be
	in   map[string]map[*Term]bool // membership of values in a side; "" is the list being built
	word map[string]map[string]bool
	of   func(*Term) string
}

func typeFacts(st *State, of func(*Term) string) *typeTests {
	tt := &typeTests{is: map[*Term]string{}, isnt: map[*Term]map[string]bool{}, in: map[string]map[*Term]bool{}, word: map[string]map[string]bool{}, of: of}
	for a, v := range st.facts {
		if l, e, ok := eqOperands(a); ok {
			w, isC := strConst(e)
			if !isC {
				w, isC = strConst(l)
				l = e
			}
			if isC {
				l = strip(l)
				if v {
					tt.is[l] = w
				} else {
					if tt.isnt[l] == nil {
						tt.isnt[l] = map[string]bool{}
					}
					tt.isnt[l][w] = true
				}
				continue
			}
		}
		c, e, ok := membership(a)
		if !ok {
			continue
		}
		s := of(c)
		if w, isC := strConst(e); isC {
			if tt.word[s] == nil {
				tt.word[s] = map[string]bool{}
			}
			tt.word[s][w] = v
			continue
		}
		if tt.in[s] == nil {
			tt.in[s] = map[*Term]bool{}
		}
		tt.in[s][e] = v
	}
	return tt
}

// candidates: the types the iteration is about.
func (tt *typeTests) candidates() []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, s := range []string{"M", "N"} {
		for e := range tt.in[s] {
			if !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	return out
}

// allowed: whether a side allows a type. Every integer is a number, too.
func (tt *typeTests) allowed(s string, e *Term) (ok, known bool) {
	e = strip(e)
	w, isW := strConst(e)
	if !isW {
		w, isW = tt.is[e], tt.is[e] != ""
	}
	in, direct := tt.in[s][e]
	if isW && !direct {
		in, direct = tt.word[s][w]
	}
	if c, isE := elemOf(e); isE && tt.of(c) == s {
		in, direct = true, true
	}
	if direct && in {
		return true, true
	}
	integer := isW && w == "integer"
	number, numKnown := tt.word[s]["number"]
	if integer && numKnown && number {
		return true, true
	}
	for q, v := range tt.in[s] {
		if integer && v && tt.is[q] == "number" {
			return true, true
		}
	}
	if !direct {
		return false, false
	}
	if integer || !isW && !tt.isnt[e]["integer"] {
		return false, numKnown && !number
	}
	return false, true
}

// covered: an integer need not be listed next to number.
func (tt *typeTests) covered(e *Term) bool {
	w, _ := strConst(e)
	return (w == "integer" || tt.is[strip(e)] == "integer") && tt.word[""]["number"]
}

// added: one collection of exclusions is merged into another one.
func (m *mergeRun) added(st *State, into, from *Term) {
	if s := m.side(into); s != "" {
		st.mon["touched"] = s
	}
	if s := m.side(from); s != "" {
		st.mon["add"+s+strconv.Itoa(into.id)] = "1"
	}
}

func (m *mergeRun) exclusions(st *State, v, mo, n *Term) string {
	x := m.x
	nNil, mNil := x.knownNil(st, n), m.mNil(st)
	if st.mon["touched"] != "" {
		return "the exclusions of another schema are changed in place"
	}
	switch {
	case m.is(st, v, "M") && nNil, m.is(st, v, "N") && mNil, v.isNil() && nNil && mNil:
		return ""
	}
	if v.Op != "alloc" {
		return "the exclusions of one side are left out"
	}
	k := strconv.Itoa(v.id)
	if (mNil || st.mon["addM"+k] != "") && (nNil || st.mon["addN"+k] != "") {
		return ""
	}
	return "the exclusions of one side are left out"
}

func (m *mergeRun) values(st *State, now *Term) string {
	x := m.x
	enum, cst := m.field(m.idx[0], now), m.field(m.idx[1], now)
	if st.mon["reported"] != "" {
		return ""
	}
	nE, nC := m.nodeOf(st, m.idx[0], enum, cst), m.nodeOf(st, m.idx[1], enum, cst)
	if nE == nil {
		return "the node's enum is not looked at"
	}
	if w := m.rightNode(st, nE); w != "" {
		return w
	}
	nNone := x.knownNil(st, nE) && nC != nil && x.knownNil(st, nC)
	mNone := m.mNilOf(st, m.idx[0]) && m.mNilOf(st, m.idx[1])
	// which sides' values the result stands for
	from := map[string]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil || t.isNil() {
			return
		}
		if t.Op == "alloc" || t.Op == "iaddr" || t.Op == "load" || t.Op == "slice" {
			if s := m.side(t); s != "" {
				from[s] = true
			}
		}
		c := t
		if t.Op == "alloc" || t.Op == "iaddr" {
			c = x.load(st, t)
		}
		if l, ok := x.asList(st, c); ok {
			c = l
		}
		if e := c; e.Op == "list" && len(e.A) == 1 && m.tested(st, e.A[0]) || t.Op == "iaddr" && t.A[0].Op == "list" && m.tested(st, e) {
			from["both"] = true
		}
		if c.Op == "havoc" && c.Aux == "call" { // may have been changed through a pointer since it was stored
			for _, q := range m.cells[c.A[0]] {
				add(q)
			}
		}
		c.any(func(q *Term) bool {
			if m.isM(q) {
				from["M"] = true
			}
			if m.isN(q) {
				from["N"] = true
			}
			if its := m.acc.iters[q]; len(its) > 0 {
				// an intersection: elements of one side under a membership test on the other
				ok := true
				for _, it := range its {
					if len(it.added) == 0 {
						continue
					}
					ok = ok && m.tested(it.st, nil)
				}
				if ok {
					from["both"] = true
				}
			}
			return false
		})
	}
	add(enum)
	add(cst)
	if c := strip(cst); c.Op == "iaddr" && c.A[0].Op != "list" {
		_, hi := x.interval(st, x.lenOf(st, c.A[0]))
		if hi == nil || constant.Compare(hi, token.GTR, constant.MakeInt64(1)) {
			return "only the first of several allowed values is kept"
		}
	}
	if enum.isNil() == cst.isNil() && !(nNone && mNone) && !(m.isM(enum) && m.isM(cst)) {
		if enum.isNil() {
			return "the allowed values are dropped"
		}
	}
	one := len(from) == 1
	switch {
	case nNone && mNone:
		return ""
	case nNone:
		if from["M"] && one {
			return ""
		}
		return "the values merged so far are not kept"
	case mNone:
		if from["N"] && one {
			return ""
		}
		return "the node's own values are not kept"
	}
	if from["both"] {
		return ""
	}
	return "the allowed values of both sides are not intersected"
}

// tested: a value is only kept after it was found among the values of the other side.
func (m *mergeRun) tested(st *State, el *Term) bool {
	for a, v := range st.facts {
		if !v {
			// values that come from a JSON document can always be encoded again
			if l, e, ok := eqOperands(a); ok && e.isNil() && l.any(func(q *Term) bool { return callTo(q, "encoding/json.Marshal") }) {
				return true
			}
			continue
		}
		if el != nil && !a.any(func(q *Term) bool { return q == el }) {
			continue
		}
		if a.Op == "lookupok" || a.Op == "lookup" && isBoolT(a.typ()) {
			// a set made from the values of the other side
			key, set := m.sides(a.A[1]), m.sets[mapBase(a.A[0])]
			if len(set) > 0 && len(key) == 1 && !(key["M"] && set["M"]) && !(key["N"] && set["N"]) || a.A[1].any(func(q *Term) bool { return q.Op == "undef" }) {
				return true
			}
			continue
		}
		if l, _, ok := membership(a); ok && m.side(l) != "" {
			return true
		}
		if _, _, ok := eqOperands(a); ok {
			s := map[string]bool{}
			for _, q := range a.A {
				if c, ok := m.anyElem(q); ok {
					s[m.side(c)] = true
				}
			}
			if s["M"] && s["N"] {
				return true
			}
		}
	}
	return false
}

// sides: where the parts of a value come from.
func (m *mergeRun) sides(t *Term) map[string]bool {
	s := map[string]bool{}
	t.any(func(q *Term) bool {
		if m.isM(q) {
			s["M"] = true
		} else if m.isN(q) {
			s["N"] = true
		}
		return false
	})
	return s
}

// mapBase: the map itself, whatever may have been put into it since.
func mapBase(t *Term) *Term {
	for t.Op == "mput" || t.Op == "with" || t.Op == "havoc" {
		t = t.A[0]
	}
	return t
}

func (m *mergeRun) nots(st *State, now *Term) string {
	x := m.x
	one, list := m.field(m.idx[0], now), m.field(m.idx[1], now)
	n1, nl := m.nodeOf(st, m.idx[0], one, list), m.nodeOf(st, m.idx[1], one, list)
	if n1 == nil {
		return "the node's own not is not looked at"
	}
	if nl == nil {
		return "the nots collected in the node are not looked at"
	}
	if w := m.rightNode(st, n1); w != "" {
		return w
	}
	ps := append([]*Term{one}, m.parts(st, list, nil)...)
	has := func(i int, side string) bool {
		for _, q := range ps {
			if m.side(q) == side && (m.isM(q) || m.isN(q)) && m.fieldIdx(q) == i {
				return true
			}
		}
		return false
	}
	empty := func(i int, side string) bool {
		for a := range st.facts {
			hit := false
			a.any(func(t *Term) bool {
				if t.Op == "len" && m.side(t.A[0]) == side && m.fieldIdx(strip(t.A[0])) == i {
					if _, hi := x.interval(st, t); hi != nil && constSign(hi) <= 0 {
						hit = true
					}
				}
				if (m.isM(t) || m.isN(t)) && m.side(t) == side && m.fieldIdx(t) == i && x.knownNil(st, t) {
					hit = true
				}
				return false
			})
			if hit {
				return true
			}
		}
		return false
	}
	what := []string{"not", "collected nots"}
	for j, i := range m.idx[:2] {
		if !has(i, "N") && !empty(i, "N") {
			return "the node's " + what[j] + " is left out"
		}
		if !has(i, "M") && !empty(i, "M") {
			return "the " + what[j] + " merged so far is left out"
		}
	}
	return ""
}

func (m *mergeRun) ifs(st *State, now *Term) string {
	x := m.x
	li := m.idx[3]
	list := m.field(li, now)
	nIf, nl := m.nodeOf(st, m.idx[0], list), m.nodeOf(st, li, list)
	if nIf == nil {
		return "the node's own if is not looked at"
	}
	if nl == nil {
		return "the ifs collected in the node are not looked at"
	}
	if w := m.rightNode(st, nIf); w != "" {
		return w
	}
	ps := m.parts(st, list, nil)
	whole := func(side string) bool {
		for _, q := range ps {
			if (m.isM(q) || m.isN(q)) && m.side(q) == side {
				return true
			}
		}
		for a := range st.facts {
			hit := false
			a.any(func(t *Term) bool {
				if t.Op == "len" && m.side(t.A[0]) == side && m.fieldIdx(strip(t.A[0])) == li {
					if _, hi := x.interval(st, t); hi != nil && constSign(hi) <= 0 {
						hit = true
					}
				}
				return false
			})
			if hit {
				return true
			}
		}
		return false
	}
	if !whole("N") {
		return "the ifs collected in the node are left out"
	}
	if !whole("M") {
		return "the ifs merged so far are left out"
	}
	if x.knownNil(st, nIf) {
		return ""
	}
	// the node's own if, with its branches
	for _, q := range ps {
		sst, ok := q.typ().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		got := map[string]bool{}
		for i := 0; i < sst.NumFields(); i++ {
			v := x.field(q, sst, i)
			if m.isN(v) && sst.Field(i).Name() == m.st.Field(m.fieldIdx(v)).Name() {
				got[m.st.Field(m.fieldIdx(v)).Name()] = true
			}
		}
		if got[m.st.Field(m.idx[0]).Name()] && got[m.st.Field(m.idx[1]).Name()] && got[m.st.Field(m.idx[2]).Name()] {
			return ""
		}
	}
	return "the node's if is left out, or loses one of its branches"
}

func constSign(c constant.Value) int { return constant.Sign(c) }
