package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "For every field of the schema node the merge of any number of nodes is interpreted on all paths of one iteration, with that field alone told apart: the merged value afterwards must account for the value merged so far and for the node's own one. Lower bounds must be the larger of both by the comparisons on the path, upper bounds the smaller; names and lists of sub-schemas must contain both; entries of maps must be copied or merged with the entry of the same name; single values that differ must be reported; types and allowed values must be taken from one side after a membership test on the other; a false schema must win. The loop must visit every node, use what a reference was resolved to, and everything done to the result after the loop must keep it.",
		"array-form items, $id, $defs and definitions are not merged (they are excluded from the property); whether the combined multipleOf is the least common one.", runC10)
}

// mergers: functions that combine any number of schema nodes into one.
func (p *Prog) mergers() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.allBodies() {
		if f.Parent() != nil || !f.Signature.Variadic() || f.Signature.Results().Len() == 0 {
			continue
		}
		last := f.Params[len(f.Params)-1].Type()
		if sl, ok := last.Underlying().(*types.Slice); ok && isNodeT(sl.Elem()) && isNodeT(f.Signature.Results().At(0).Type()) {
			out = append(out, f)
		}
	}
	return out
}

func isNodeT(t types.Type) bool {
	if t == nil {
		return false
	}
	_, isS := t.Underlying().(*types.Struct)
	return isS && typeName(t) == "schemaNode"
}

// how the values of a keyword are merged
var mergeKinds = map[string]string{
	"type": "type", "length": "same",
	"properties": "keys", "additionalProperties": "false", "patternProperties": "keys",
	"minProperties": "lower", "maxProperties": "upper", "required": "cat",
	"pattern": "same", "format": "same", "minLength": "lower", "maxLength": "upper",
	"minimum": "lower", "maximum": "upper", "exclusiveMinimum": "lower", "exclusiveMaximum": "upper", "multipleOf": "multiple",
	"items": "items", "minItems": "lower", "maxItems": "upper", "contains": "sub", "minContains": "lower", "maxContains": "upper",
	"prefixItems": "prefix", "additionalItems": "false", "unevaluatedItems": "false", "uniqueItems": "same",
	"enum": "values", "const": "",
	"not": "nots", "allOf": "cat", "anyOf": "cat", "oneOf": "cat",
	"$ref": "ref", "$id": "", "$defs": "", "definitions": "",
	"if": "ifs", "then": "", "else": "",
	"dependentRequired": "keys", "dependentSchemas": "keys",
	":constraintCollection": "exclusions", ":ifStatement": "", ":schemaNode": "",
}

func fieldTag(st *types.Struct, i int) string {
	return strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
}

// nodeKey names a field of the schema node by its keyword, or by its type if it has none.
func nodeKey(st *types.Struct, i int) string {
	if t := fieldTag(st, i); t != "" && t != "-" {
		return t
	}
	t := st.Field(i).Type()
	for {
		switch u := t.(type) {
		case *types.Slice:
			t = u.Elem()
			continue
		case *types.Pointer:
			t = u.Elem()
			continue
		}
		break
	}
	return ":" + typeName(t)
}

func runC10(r *R) {
	p := r.p
	ms := p.mergers()
	if len(ms) == 0 {
		r.missing("the function that merges schema nodes")
		return
	}
	for _, f := range ms {
		st := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
		at := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			at[nodeKey(st, i)] = i
		}
		r.each(st.NumFields(), func(r *R, i int) {
			k := nodeKey(st, i)
			kind, known := mergeKinds[k]
			if !known {
				kind = "any"
			}
			if kind == "" {
				return
			}
			idx := []int{i}
			switch kind {
			case "values":
				idx = append(idx, at["const"])
			case "nots":
				idx = append(idx, at[":schemaNode"])
			case "ifs":
				idx = append(idx, at["then"], at["else"], at[":ifStatement"])
			}
			m := &mergeRun{r: r, p: r.p, f: f, st: st, kind: kind, word: strings.TrimPrefix(k, ":"), idx: idx, cells: map[*Term][]*Term{}, sets: map[*Term]map[string]bool{}, inits: map[*Term]*Term{}, placed: map[*Term]*Term{}}
			m.run()
		})
		r.need("merged", 70)
		r.need("every node", 30)
	}
}

type mergeRun struct {
	r      *R
	p      *Prog
	x      *Exec
	f      *ssa.Function
	st     *types.Struct
	kind   string
	word   string
	idx    []int
	later  []func() // what is judged at the end
	acc    *loopAcc
	cells  map[*Term][]*Term         // what is stored in places of lists
	sets   map[*Term]map[string]bool // sides whose values are keys of a map
	inits  map[*Term]*Term           // what variables of loops start with
	placed map[*Term]*Term           // the index at which places of a list are filled
	dst    *Term                     // the variable that holds the merged node, at a back edge
	lv     *Term                     // ... or the value that goes around the loop
}

func (m *mergeRun) mine(i int) bool {
	for _, j := range m.idx {
		if i == j {
			return true
		}
	}
	return false
}

// isF: the value of one of the fields looked at.
func (m *mergeRun) isF(t *Term) bool {
	o, n, _, ok := fieldRead(t)
	if !ok || o != "schemaNode" {
		return false
	}
	for _, j := range m.idx {
		if m.st.Field(j).Name() == n {
			return true
		}
	}
	return false
}

func (m *mergeRun) run() {
	p := m.p
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			return g != m.f && p.inRepo(g) && !isRecorder(g) && recvName(g) == ""
		},
		Blur: func(t *types.Struct, i int) bool { return t == m.st && !m.mine(i) },
		Fact: func(t *Term) int { return m.keep(t) },
	})
	m.x = x
	m.acc = newLoopAcc(x)
	x.blurKeys = map[string]bool{}
	for i := 0; i < m.st.NumFields(); i++ {
		if !m.mine(i) {
			x.blurKeys["schemaNode."+m.st.Field(i).Name()] = true
		}
	}
	names := []string{}
	for _, i := range m.idx {
		names = append(names, m.st.Field(i).Name())
	}
	has := p.touching(func(in ssa.Instruction) bool { return usesField(in, "schemaNode", names...) }, func(g *ssa.Function) bool { return g == m.f })
	x.cfg.OnCall = func(ev *CallEvent) bool { return m.onCall(ev, has) }
	x.cfg.OnInstr = m.onInstr
	x.cfg.OnHead = m.onHead
	x.cfg.OnBack = m.onBack
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		if c := x.loopOver(st, l); end && fr.fn == m.f && c != nil && c.Op == "param" {
			st.mon["done"] = "1"
		}
		if end {
			return
		}
		if c := x.loopOver(st, l); m.side(c) != "" || fr.fn == m.f && c != nil && c.Op == "param" {
			st.mon["early"] = "1"
		}
	}
	outs := x.Root(m.f, nil)
	m.r.exec(x, m.word)
	for _, f := range m.later {
		f()
	}
	for _, o := range outs {
		if o.kind == "return" {
			m.result(o)
		}
	}
}

// keep: conditions on the values looked at are remembered.
func (m *mergeRun) keep(t *Term) int {
	// what some other step of the merge makes of a whole node says nothing about the fields looked at
	if t.any(func(q *Term) bool {
		if q.Op != "call" {
			return false
		}
		f, ok := q.Aux.(*ssa.Function)
		return ok && m.p.inRepo(f) && f != originOf(m.f) && takesANode(f)
	}) {
		return -1
	}
	if t.any(m.hit) {
		return 1
	}
	return 0
}

func takesANode(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isNodeT(deref(f.Signature.Results().At(i).Type())) {
			return false
		}
	}
	for _, q := range f.Params {
		if isNodeT(deref(q.Type())) {
			return true
		}
	}
	return false
}

func (m *mergeRun) onCall(ev *CallEvent, has map[*ssa.Function]bool) bool {
	x := m.x
	if ev.Callee == nil {
		return false
	}
	if ev.Callee.Name() == "PushRefResolution" || recvName(ev.Callee) == "referenceResolver" && len(ev.Args) > 2 && ev.Callee.Signature.Results().Len() == 0 {
		ev.St.mon["resolved"] = "1"
	}
	if !m.p.inRepo(ev.Callee) {
		return false
	}
	var args []*Term
	for _, a := range ev.Args {
		if l, ok := x.asList(ev.St, a); ok {
			a = l
		} else if a.Op == "alloc" && !isNodeT(deref(a.T)) {
			a = x.load(ev.St, a)
			if l, ok := x.asList(ev.St, a); ok {
				a = l
			}
		}
		args = append(args, a)
	}
	mentions := func() bool {
		for _, a := range args {
			if m.reach(ev.St, a, 4, m.hit) {
				return true
			}
		}
		return false
	}
	if isRecorder(ev.Callee) {
		for _, a := range args {
			if a.T != nil && isErrT(a.T) {
				if m.reach(ev.St, a, 4, func(t *Term) bool { return m.hit(t) || t.Op == "call" && t.Aux == originOf(m.f) }) || m.differ(ev.St) {
					ev.St.mon["reported"] = "1"
				}
			}
		}
		return true
	}
	if recvName(ev.Callee) == "constraintCollection" && m.kind == "exclusions" && len(args) == 2 {
		m.added(ev.St, ev.Args[0], ev.Args[1])
		return true
	}
	sig := ev.Callee.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if isNodeT(sig.Results().At(i).Type()) {
			return false
		}
	}
	for i, a := range args {
		if a.T != nil && isNodeT(deref(a.T)) || i < len(ev.Callee.Params) && isNodeT(deref(ev.Callee.Params[i].Type())) {
			// a helper that is handed a place to change, or the very field
			for _, q := range args {
				if q.Op == "alloc" && isNodeT(deref(q.T)) || m.hit(q) {
					return false
				}
			}
			// or the collection of the field to put an entry into
			for _, q := range ev.Callee.Params {
				if holdsNodes(deref(q.Type())) && mentions() {
					return false
				}
			}
			return !has[ev.Callee]
		}
	}
	return !mentions()
}

func holdsNodes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return isNodeT(deref(u.Elem()))
	case *types.Slice:
		return isNodeT(deref(u.Elem()))
	}
	return false
}

// reach: t contains such a term, or points to something that does.
func (m *mergeRun) reach(st *State, t *Term, d int, is func(*Term) bool) bool {
	return t.any(func(q *Term) bool {
		if is(q) {
			return true
		}
		if d == 0 {
			return false
		}
		if l, ok := m.x.asList(st, q); ok && l != q {
			return m.reach(st, l, d-1, is)
		}
		if q.Op == "havoc" { // may have been changed through a pointer since it was stored
			for _, c := range m.cells[q.A[0]] {
				if c != t && m.reach(st, c, d-1, is) {
					return true
				}
			}
		}
		if q.Op == "alloc" {
			if v, ok := m.x.cell(st, q); ok {
				return m.reach(st, v, d-1, is)
			}
		}
		return false
	})
}

// isM: the value merged before the current node.
func (m *mergeRun) isM(t *Term) bool {
	if t == nil {
		return false
	}
	if t.Op == "havoc" && t.Aux == "loop" && t.A[0].Op == "faddr" {
		a := t.A[0]
		return isNodeT(deref(a.A[0].T)) && m.mine(a.N)
	}
	if !m.isF(t) {
		return false
	}
	_, _, b, _ := fieldRead(t)
	return b.Op == "havoc" && b.Aux == "loop" || b.Op == "loopvar" && isNodeT(b.T)
}

func (m *mergeRun) hit(t *Term) bool { return m.isF(t) || m.isM(t) }

// isN: the value of the node that is being merged.
func (m *mergeRun) isN(t *Term) bool { return m.isF(t) && !m.isM(t) }

func (m *mergeRun) side(t *Term) string {
	if t == nil {
		return ""
	}
	t = strip(t)
	if t.Op == "load" && (m.isM(t.A[0]) || m.isN(t.A[0])) {
		t = t.A[0]
	}
	switch {
	case m.isM(t):
		return "M"
	case m.isN(t):
		return "N"
	}
	return ""
}

func (m *mergeRun) field(i int, v *Term) *Term { return m.x.field(v, m.st, i) }

// differ: the path knows that the two values are not the same.
func (m *mergeRun) differ(st *State) bool {
	for a, v := range st.facts {
		l, e, ok := eqOperands(a)
		if ok && !v && m.side(l) != "" && m.side(e) != "" && m.side(l) != m.side(e) {
			return true
		}
	}
	return false
}

func (m *mergeRun) onHead(st *State, fr *frame, l *Loop) {
	if s := m.side(m.x.loopOver(st, l)); s != "" {
		st.mon["swept"+s] = "1"
		delete(st.mon, "put")
	}
	// variables that hold the merged node when the loop is entered
	for k, v := range st.heap {
		if k.Op == "alloc" && isNodeT(deref(k.T)) {
			delete(st.mon, "in"+strconv.Itoa(k.id))
			if m.isM(m.field(m.idx[0], v)) {
				st.mon["in"+strconv.Itoa(k.id)] = "1"
			} else {
				m.changed(st, v, l)
			}
		}
		if t := elemType(k); t != nil && isSliceT(t) {
			m.inits[m.x.T.mk("havoc", "loop", 0, k.T, l.Header.Instrs[0], st.ctx, k)] = v
		}
	}
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m.inits[m.x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)] = st.env[ph]
		if v := st.env[ph]; v != nil && isNodeT(ph.Type()) {
			delete(st.mon, "in"+ph.Name())
			if m.isM(m.field(m.idx[0], v)) {
				st.mon["in"+ph.Name()] = "1"
			} else {
				m.changed(st, v, l)
			}
		}
	}
}

// changed: once all nodes were merged the result keeps what was merged.
func (m *mergeRun) changed(st *State, v *Term, l *Loop) {
	if st.mon["done"] == "" || m.throughMerge(st, m.field(m.idx[0], v)) {
		return
	}
	b := v
	for b.Op == "with" {
		b = b.A[0]
	}
	if b != v && m.isM(m.field(m.idx[0], b)) {
		m.r.bad("merged", m.word+":lost", m.p.instrPos(l.Header.Instrs[0]), "the merged %s is replaced by %s (%s)", m.word, m.field(m.idx[0], v), trailOf(st))
	}
}

func (m *mergeRun) onInstr(st *State, fr *frame, in ssa.Instruction) {
	x := m.x
	switch in := in.(type) {
	case *ssa.MapUpdate:
		if m.kind != "keys" {
			if m.kind == "values" {
				k := x.val(st, in.Key)
				mp := x.val(st, in.Map)
				if v := x.val(st, in.Value); v.T != nil && isBoolT(v.T) && !(v.isConst() && constant.BoolVal(v.cv())) {
					return
				}
				if m.sets[mp] == nil {
					m.sets[mp] = map[string]bool{}
				}
				for s := range m.sides(k) {
					m.sets[mp][s] = true
				}
			}
			return
		}
		k, v, mp := x.val(st, in.Key), x.val(st, in.Value), x.val(st, in.Map)
		if k.Op != "next" {
			return
		}
		st.mon["into"] = strconv.Itoa(mp.id)
		if m.entry(st, k, v, mp) {
			st.mon["put"] = "1"
		} else {
			m.r.bad("merged", m.word+":entry", m.p.instrPos(in), "an entry of %s is replaced by %s, which is neither the node's own entry nor that merged with the one kept so far (%s)", m.word, v, trailOf(st))
		}
	case *ssa.Store:
		if a := x.val(st, in.Addr); a.Op == "iaddr" || a.Op == "alloc" && !isNodeT(deref(a.T)) {
			m.cells[a] = append(m.cells[a], x.val(st, in.Val))
		}
		if m.kind == "prefix" {
			m.position(st, in)
		}
	}
}

// anyElem: the value is made from an element of a collection; the collection.
func (m *mergeRun) anyElem(t *Term) (c *Term, ok bool) {
	t.any(func(q *Term) bool {
		if e, isE := elemOf(q); isE && !ok && m.side(e) != "" {
			c, ok = e, true
		}
		return ok
	})
	return
}

// entry: the value stored under the current key accounts for both sides.
func (m *mergeRun) entry(st *State, k, v, mp *Term) bool {
	x := m.x
	own := func(t *Term) bool { return t.Op == "lookup" && t.A[1] == k || t.Op == "next" && t.Aux == "val" }
	if own(strip(v)) {
		if m.word != "properties" && m.word != "patternProperties" {
			return true // the values are not sub-schemas to be merged
		}
		// nothing kept under that name so far
		for a, val := range st.facts {
			if a.Op == "lookupok" && !val && a.A[1] == k {
				return true
			}
		}
		_, has := x.lookup(st, mp, k, v.T)
		if is, known := x.decide(st, has); known && !is {
			return true
		}
		return false
	}
	if l, ok := m.mergedFrom(st, v); ok {
		var a *Term
		b := false
		for _, q := range l {
			q = strip(q)
			switch {
			case own(q) && a == nil:
				a = m.source(q)
			case q.Op == "lookup" && q.A[1] == k || own(q):
				b = b || m.source(q) != a
			}
		}
		return a != nil && b
	}
	return false
}

// source: the collection an element is taken from.
func (m *mergeRun) source(q *Term) *Term {
	if q.Op == "lookup" {
		return q.A[0]
	}
	if c, ok := elemOf(q); ok {
		return c
	}
	return q
}

// mergedFrom: the nodes a merge was asked to combine.
func (m *mergeRun) mergedFrom(st *State, v *Term) ([]*Term, bool) {
	v = strip(v)
	// calls that may have been handed a part of the result since
	for v != nil && v.Op == "with" {
		for _, q := range v.A[1:] {
			if q != nil && !(q.Op == "havoc" && q.Aux == "call") {
				return nil, false
			}
		}
		v = v.A[0]
	}
	if v == nil || v.Op != "call" || v.Aux != originOf(m.f) || len(v.A) == 0 {
		return nil, false
	}
	last := v.A[len(v.A)-1]
	base, pieces := unwind(last)
	var out []*Term
	if base.Op == "list" {
		out = append(out, base.A...)
	} else if !base.isNil() {
		out = append(out, base)
	}
	for _, p := range pieces {
		if p.Op == "list" {
			out = append(out, p.A...)
		} else {
			out = append(out, p)
		}
	}
	return out, true
}

func (m *mergeRun) onBack(st *State, fr *frame, l *Loop) {
	x := m.x
	m.acc.onBack(st, fr, l)
	c := x.loopOver(st, l)
	if s := m.side(c); s != "" && m.kind == "keys" {
		if st.mon["put"] == "" {
			m.r.bad("merged", m.word+":skipped", m.p.instrPos(l.Header.Instrs[0]), "an entry of %s is left out (%s)", m.word, trailOf(st))
		}
		delete(st.mon, "put")
		return
	}
	// variables of the loop that hold a merged node
	check := func(dst, lv, now *Term, in string) {
		m.dst, m.lv = dst, lv
		if fr.fn == m.f && c != nil && c.Op == "param" {
			// judged once every loop was seen in full
			at := st.clone()
			m.later = append(m.later, func() {
				m.dst, m.lv = dst, lv
				m.iteration(at, now, l)
			})
			m.r.ok("every node", m.word)
		} else if st.mon["in"+in] != "" {
			m.kept(st, now, m.p.instrPos(l.Header.Instrs[0]))
		}
	}
	var keys []*Term
	for k := range st.heap {
		if k.Op == "alloc" && isNodeT(deref(k.T)) && !x.owned(k, l, st.ctx) {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, k := range keys {
		// only what this loop changes
		if fr.fn != k.Site.Parent() {
			continue
		}
		check(k, nil, x.load(st, k), strconv.Itoa(k.id))
	}
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isNodeT(ph.Type()) {
			check(nil, x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx), st.env[ph], ph.Name())
		}
	}
	for k := range st.mon {
		if fr.fn == m.f {
			delete(st.mon, k)
		}
	}
}

// kept: a loop that works on the merged node as a whole keeps the field.
func (m *mergeRun) kept(st *State, now *Term, at string) {
	if now == nil {
		return
	}
	v := m.field(m.idx[0], now)
	if m.isM(v) || m.throughMerge(st, v) {
		m.r.ok("kept", m.word)
		return
	}
	m.r.bad("merged", m.word+":lost", at, "the merged %s is replaced by %s (%s)", m.word, v, trailOf(st))
}

// throughMerge: the value comes from merging again, with the merged node among what is merged.
func (m *mergeRun) throughMerge(st *State, v *Term) bool {
	_, _, b, ok := fieldRead(v)
	if !ok {
		return false
	}
	ns, ok := m.mergedFrom(st, b)
	if !ok {
		return false
	}
	return m.amongst(ns, m.isM)
}

// amongst: a node with such a field is one of those that are merged, together with all of its own allOf.
func (m *mergeRun) amongst(ns []*Term, is func(*Term) bool) bool {
	spread, node := false, false
	for _, n := range ns {
		if n.T != nil && isNodeT(deref(n.T)) {
			continue
		}
		_, isS := deref(n.typ()).Underlying().(*types.Slice)
		if (isS || n.Op == "load" && n.A[0].Op == "blur") && !n.any(func(q *Term) bool { return q.Op == "slice" && len(q.A) > 2 && (q.A[1] != nil || q.A[2] != nil) }) {
			spread = true
		}
	}
	for _, n := range ns {
		if n.T == nil || !isNodeT(deref(n.T)) {
			continue
		}
		f := m.field(m.idx[0], n)
		node = node || is(f) || m.word == "allOf" && f.isNil() && spread
	}
	return node && spread
}

func (m *mergeRun) result(o Outcome) {
	if len(o.rets) == 0 {
		return
	}
	v := m.field(m.idx[0], o.rets[0])
	at := m.p.instrPos(o.at)
	if o.st.mon["early"] != "" {
		m.r.bad("every node", m.word+":early", at, "the loop over the %s is left before its end (%s)", m.word, trailOf(o.st))
	}
	if len(o.rets) > 1 && m.x.knownNonNil(o.st, o.rets[len(o.rets)-1]) {
		return
	}
	if m.isM(v) || m.throughMerge(o.st, v) || v.isNil() && o.rets[0].Op == "zero" && o.st.mon["done"] == "" {
		m.r.ok("result", m.word+" "+at)
		return
	}
	m.r.bad("merged", m.word+":result", at, "the result's %s is %s instead of the merged one (%s)", m.word, v, trailOf(o.st))
}
