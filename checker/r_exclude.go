package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// exclusions: what is collected under not is compiled into functions that reject it, and merging
// collections loses none of it.

// exKind: what a field of the collection excludes.
func exKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Map:
		switch {
		case typeName(deref(u.Elem())) == "Regexp":
			return "pattern"
		case isCheckFunc(u.Elem()):
			return "format"
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 || isBoolT(u.Elem()) {
			return "value"
		}
	case *types.Slice:
		if isStringT(u.Elem()) {
			return "property"
		}
	}
	return ""
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (r *R) exclusions() {
	p := r.p
	n := p.namedType("", "constraintCollection")
	if n == nil {
		r.missing("the collection of exclusions")
		return
	}
	cst, ok := n.Underlying().(*types.Struct)
	if !ok {
		r.missing("the collection of exclusions")
		return
	}
	var compile, merge *ssa.Function
	var adds []*ssa.Function
	for _, f := range p.Funcs {
		if recvName(f) != "constraintCollection" || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		rs := f.Signature.Results()
		switch {
		case rs.Len() == 1 && p.constraintKind(rs.At(0).Type()) == "all":
			compile = f
		case len(f.Params) == 2 && typeName(deref(f.Params[1].Type())) == "constraintCollection":
			merge = f
		case len(f.Params) == 2:
			adds = append(adds, f)
		}
	}
	if compile == nil {
		r.missing("the compilation of exclusions")
	} else {
		r.compileExclusions(compile, cst)
	}
	if merge == nil {
		r.missing("the merge of exclusions")
	} else {
		r.mergeExclusions(merge, cst)
	}
	sort.Slice(adds, func(i, j int) bool { return adds[i].String() < adds[j].String() })
	for _, f := range adds {
		r.addExclusion(f, cst)
	}
	r.need("exclusion added", 4)
}

type exField struct {
	i    int
	kind string
	name string
}

func exFields(r *R, cst *types.Struct) (out []exField) {
	for i := 0; i < cst.NumFields(); i++ {
		k := exKind(cst.Field(i).Type())
		if k == "" {
			r.bad("exclusion", cst.Field(i).Name(), r.p.posAt(cst.Field(i).Pos()), "the field %s excludes something of an unknown kind", cst.Field(i).Name())
			continue
		}
		out = append(out, exField{i, k, cst.Field(i).Name()})
	}
	return
}

func ownedBy(t *Term, param int) bool {
	_, _, base, ok := fieldRead(t)
	return ok && base.any(func(q *Term) bool { return q.Op == "param" && q.N == param })
}

func ofField(t *Term, f exField, param int) bool {
	t = strip(t)
	return isField(t, "constraintCollection", f.name) && ownedBy(t, param)
}

// elemOfField: an element of the field visited by a loop (a map entry or a slice element).
func elemOfField(x *Exec, t *Term, f exField, param int) bool {
	return t.any(func(q *Term) bool {
		if c, ok := elemOf(q); ok && ofField(c, f, param) {
			return true
		}
		return q.Op == "next" && len(q.A) > 0 && q.A[0].any(func(c *Term) bool { return ofField(c, f, param) })
	})
}

func (r *R) compileExclusions(f *ssa.Function, cst *types.Struct) {
	p := r.p
	key := shortFn(f)
	fields := exFields(r, cst)
	prefix := map[string]map[string]bool{}
	keysOf := func(x *Exec, k *Term) string {
		ps := x.catParts(k)
		if len(ps) > 0 {
			if s, ok := strConst(ps[0]); ok {
				return s
			}
		}
		return ""
	}
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool {
			return !p.recursive(g) && (g.Parent() != nil || recvName(g) == "constraintCollection" || fnPkgPath(g) == repoModule)
		},
		Fact: func(t *Term) int { return 1 },
	})
	swept := map[*Loop]exField{}
	x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
		c := x.loopOver(st, l)
		for _, fd := range fields {
			if c != nil && ofField(c, fd, 0) {
				swept[l] = fd
				st.mon[x.sweepKey(l, st)] = "ok"
				delete(st.mon, "it:"+fd.kind)
			}
		}
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		fd, ok := swept[l]
		if !ok {
			return
		}
		if st.mon["it:"+fd.kind] == "" {
			st.mon[x.sweepKey(l, st)] = "bad"
		}
		delete(st.mon, "it:"+fd.kind)
	}
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		fd, ok := swept[l]
		if !ok {
			return
		}
		k := x.sweepKey(l, st)
		if end && st.mon[k] == "ok" {
			st.mon["all:"+fd.kind] = "1"
		}
		delete(st.mon, k)
	}
	inside := false
	x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || inside || !isCheckFunc(mu.Value.Type()) {
			return
		}
		fn := strip(x.val(st, mu.Value))
		if fn.Op != "closure" && fn.Op != "func" {
			r.bad("exclusion", key, p.instrPos(in), "%s enters a check that cannot be told", key)
			return
		}
		inside = true
		kind, why := r.exclusionCheck(x, st, fn, fields)
		inside = false
		if why != "" {
			r.bad("exclusion", key+":"+kind, p.instrPos(in), "%s enters a check that may accept what is excluded: %s", key, why)
			return
		}
		kt := x.val(st, mu.Key)
		if prefix[kind] == nil {
			prefix[kind] = map[string]bool{}
		}
		prefix[kind][keysOf(x, kt)] = true
		for _, fd := range fields {
			if fd.kind != kind {
				continue
			}
			if kind == "pattern" || kind == "format" {
				// one entry for each element
				if kt.any(func(q *Term) bool { return elemKeyOf(q, fd) }) {
					st.mon["it:"+kind] = "1"
				}
			} else {
				st.mon["all:"+kind] = "1"
			}
		}
		r.ok("exclusion", kind+" rejected")
	}
	outs := x.Root(f, nil)
	r.exec(x, key)
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		for _, fd := range fields {
			if o.st.mon["all:"+fd.kind] != "" {
				r.ok("exclusion", fd.name+" compiled")
				continue
			}
			fv := r.fieldOf(x, o.st, f, 0, cst, fd.i)
			if _, hi := x.interval(o.st, x.lenOf(o.st, fv)); hi != nil && hi.String() == "0" {
				r.ok("exclusion", fd.name+" empty")
				continue
			}
			r.bad("exclusion", key+":"+fd.name, p.instrPos(o.at), "%s leaves out exclusions of %s (%s)", key, fd.name, trailOf(o.st))
		}
	}
	// entries for different things do not replace each other
	var ks []string
	for k := range prefix {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, a := range ks {
		for _, b := range ks[i+1:] {
			for s := range prefix[a] {
				for t := range prefix[b] {
					if strings.HasPrefix(s, t) || strings.HasPrefix(t, s) {
						r.bad("exclusion", key+":"+a+"/"+b, p.posAt(f.Pos()), "the entries for %s and %s exclusions may have the same name: one can replace the other", a, b)
					}
				}
			}
		}
	}
	r.need("exclusion", 8)
}

// elemKeyOf: the key of the entry a loop over the field is at.
func elemKeyOf(q *Term, fd exField) bool {
	if q.Op != "next" || q.Aux != "key" {
		return false
	}
	return q.any(func(c *Term) bool { return ofField(c, fd, 0) })
}

func (r *R) fieldOf(x *Exec, st *State, f *ssa.Function, param int, cst *types.Struct, i int) *Term {
	pt := x.T.mk("param", f.Params[param], param, f.Params[param].Type(), nil, nil)
	if _, isP := f.Params[param].Type().Underlying().(*types.Pointer); isP {
		return x.load(st, x.faddr(pt, cst, i))
	}
	return x.field(pt, cst, i)
}

// exclusionCheck runs a compiled check on an unknown value: if it returns true, the value is not excluded.
func (r *R) exclusionCheck(x *Exec, st *State, fn *Term, fields []exField) (kind, why string) {
	body := fn.Aux.(*ssa.Function)
	if len(body.Params) != 1 {
		return "", "it takes something else than a value"
	}
	el := x.T.mk("param", body.Params[0], 900, body.Params[0].Type(), nil, nil)
	sub := st.clone()
	// loops of the check over the field
	old := x.cfg
	defer func() { x.cfg = old }()
	swept := map[*Loop]*Term{}
	x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
		if c := x.loopOver(st, l); c != nil && ofField(c, exField{name: propField(fields)}, 0) {
			swept[l] = c
			st.mon[x.sweepKey(l, st)] = "ok"
		}
	}
	missing := func(st *State, coll *Term) bool {
		for a, v := range st.facts {
			if v || a.Op != "lookupok" || len(a.A) < 2 {
				continue
			}
			if c, ok := elemOf(a.A[1]); ok && c == coll && a.A[0].any(func(q *Term) bool { return q == el }) {
				return true
			}
		}
		return false
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		if c := swept[l]; c != nil && !missing(st, c) {
			st.mon[x.sweepKey(l, st)] = "bad"
		}
	}
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		if swept[l] == nil {
			return
		}
		k := x.sweepKey(l, st)
		if end && st.mon[k] == "ok" {
			st.mon["props"] = "1"
		}
		delete(st.mon, k)
	}
	outs := x.run(body, sub, []*Term{el}, fn.A, nil, nil)
	kinds := map[string]int{}
	total := 0
	for _, o := range outs {
		if o.kind != "return" || len(o.rets) != 1 {
			continue
		}
		if v, known := x.decide(o.st, o.rets[0]); known && !v {
			continue
		}
		ns := o.st.clone()
		x.assume(ns, o.rets[0], true, o.at)
		total++
		wrongType := false
		for a, v := range ns.facts {
			if a.Op == "tassertok" && !v && a.A[0] == el {
				wrongType = true
			}
			if v {
				continue
			}
			for _, fd := range fields {
				switch fd.kind {
				case "pattern":
					if callTo2any(a, "MatchString", "Match") && (elemOfField(x, a.A[0], fd, 0) || isPtr(a.A[0]) && elemOfField(x, x.load(ns, a.A[0]), fd, 0)) && a.any(func(q *Term) bool { return q == el }) {
						kinds["pattern"]++
					}
				case "format":
					if a.Op == "call" && a.Aux == "dynamic" && len(a.A) >= 2 && elemOfField(x, a.A[0], fd, 0) && stripI(a.A[len(a.A)-1]) == el {
						kinds["format"]++
					}
				case "value":
					if a.Op == "lookupok" && ofField(a.A[0], fd, 0) && a.A[1].any(func(q *Term) bool { return q == el }) {
						kinds["value"]++
					}
				}
			}
		}
		if ns.mon["props"] != "" {
			kinds["property"]++
		}
		if wrongType {
			for _, k := range []string{"pattern", "property"} {
				kinds[k]++
				kinds["wt"+k]++
			}
		}
	}
	for _, fd := range fields {
		if kinds[fd.kind] >= total && total > 0 && kinds["wt"+fd.kind] < total {
			return fd.kind, ""
		}
	}
	return "", "no path of it shows that the value is not one of those excluded (" + strconv.Itoa(total) + " accepting paths)"
}

func propField(fields []exField) string {
	for _, f := range fields {
		if f.kind == "property" {
			return f.name
		}
	}
	return ""
}

func callTo2any(t *Term, names ...string) bool {
	if t.Op != "call" && t.Op != "pcall" {
		return false
	}
	f, ok := t.Aux.(*ssa.Function)
	if !ok {
		return false
	}
	for _, n := range names {
		if f.Name() == n {
			return true
		}
	}
	return false
}

func (r *R) mergeExclusions(f *ssa.Function, cst *types.Struct) {
	p := r.p
	key := shortFn(f)
	fields := exFields(r, cst)
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool { return !p.recursive(g) && p.inRepo(g) },
		Fact:   func(t *Term) int { return 1 },
	})
	swept := map[*Loop]exField{}
	x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
		c := x.loopOver(st, l)
		for _, fd := range fields {
			if c != nil && ofField(c, fd, 1) {
				swept[l] = fd
				st.mon[x.sweepKey(l, st)] = "ok"
				delete(st.mon, "it:"+fd.name)
			}
		}
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		if fd, ok := swept[l]; ok {
			if st.mon["it:"+fd.name] == "" && !r.alreadyIn(st, fd) {
				st.mon[x.sweepKey(l, st)] = "bad"
			}
			delete(st.mon, "it:"+fd.name)
		}
	}
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		if fd, ok := swept[l]; ok {
			k := x.sweepKey(l, st)
			if end && st.mon[k] == "ok" {
				st.mon["all:"+fd.name] = "1"
			}
			delete(st.mon, k)
		}
	}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee != nil && fullName(originOf(ev.Callee)) == "maps.Copy" && len(ev.Args) == 2 {
			for _, fd := range fields {
				if ofField(ev.Args[0], fd, 0) && ofField(ev.Args[1], fd, 1) {
					ev.St.mon["all:"+fd.name] = "1"
				}
			}
		}
		return false
	}
	x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m, k, v := x.val(st, mu.Map), x.val(st, mu.Key), x.val(st, mu.Value)
		for _, fd := range fields {
			if !ofField(m, fd, 0) {
				continue
			}
			fromKey := k.any(func(c *Term) bool { return ofField(c, fd, 1) })
			fromVal := fd.kind == "value" || v.any(func(c *Term) bool { return ofField(c, fd, 1) })
			if fromKey && fromVal {
				st.mon["it:"+fd.name] = "1"
			}
		}
	}
	outs := x.Root(f, nil)
	r.exec(x, key)
	other := x.T.mk("param", f.Params[1], 1, f.Params[1].Type(), nil, nil)
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		if x.knownNil(o.st, other) {
			r.ok("merged", key+" nothing to merge")
			continue
		}
		for _, fd := range fields {
			if o.st.mon["all:"+fd.name] != "" {
				r.ok("merged", fd.name)
				continue
			}
			if fd.kind == "property" {
				v := r.fieldOf(x, o.st, f, 0, cst, fd.i)
				base, pieces := unwind(v)
				hasOther, hasOwn := ofField(base, fd, 1), ofField(base, fd, 0)
				for _, pc := range pieces {
					hasOther = hasOther || ofField(pc, fd, 1)
					hasOwn = hasOwn || ofField(pc, fd, 0)
				}
				if hasOther && hasOwn {
					r.ok("merged", fd.name)
					continue
				}
			}
			ov := r.fieldOf(x, o.st, f, 1, cst, fd.i)
			if _, hi := x.interval(o.st, x.lenOf(o.st, ov)); hi != nil && hi.String() == "0" {
				continue
			}
			r.bad("merged", key+":"+fd.name, p.instrPos(o.at), "%s loses exclusions of %s (%s)", key, fd.name, trailOf(o.st))
		}
	}
	r.need("merged", len(fields))
}

// alreadyIn: the path knows that the entry is there.
func (r *R) alreadyIn(st *State, fd exField) bool {
	for a, v := range st.facts {
		if v && a.Op == "lookupok" && ofField(a.A[0], fd, 0) {
			return true
		}
	}
	return false
}

// addExclusion: what is to be excluded is entered, is there already, or cannot be (an error).
func (r *R) addExclusion(f *ssa.Function, cst *types.Struct) {
	p := r.p
	key := shortFn(f)
	fields := exFields(r, cst)
	x := newExec(p, Config{
		Inline: func(g *ssa.Function) bool { return !p.recursive(g) && p.inRepo(g) },
		Fact:   func(t *Term) int { return 1 },
	})
	param := x.T.mk("param", f.Params[1], 1, f.Params[1].Type(), nil, nil)
	list := isSliceT(f.Params[1].Type())
	swept := map[*Loop]bool{}
	x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
		if c := x.loopOver(st, l); c != nil && strip(c) == param {
			swept[l] = true
			st.mon[x.sweepKey(l, st)] = "ok"
			delete(st.mon, "it")
		}
	}
	there := func(st *State) bool {
		for a, v := range st.facts {
			if v && a.Op == "lookupok" && isNodeless(a.A[0], fields) && a.A[1].any(func(q *Term) bool { return q == param }) {
				return true
			}
		}
		return false
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		if swept[l] {
			if st.mon["it"] == "" && !there(st) {
				st.mon[x.sweepKey(l, st)] = "bad"
			}
			delete(st.mon, "it")
		}
	}
	x.cfg.OnExit = func(st *State, fr *frame, l *Loop, end bool) {
		if swept[l] {
			k := x.sweepKey(l, st)
			if end && st.mon[k] == "ok" {
				st.mon["all"] = "1"
			}
			delete(st.mon, k)
		}
	}
	x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok {
			return
		}
		m, k, v := x.val(st, mu.Map), x.val(st, mu.Key), x.val(st, mu.Value)
		for _, fd := range fields {
			if !ofField(m, fd, 0) {
				continue
			}
			uses := func(t *Term) bool { return t.any(func(q *Term) bool { return q == param }) }
			if list {
				if uses(k) {
					st.mon["it"] = "1"
				}
			} else if strip(k) == param && uses(v) {
				st.mon["all"] = "1"
			}
		}
	}
	outs := x.Root(f, nil)
	r.exec(x, key)
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		if len(o.rets) == 1 && isErrT(f.Signature.Results().At(0).Type()) && (x.nonNil(o.st, o.rets[0]) || x.knownNonNil(o.st, o.rets[0])) {
			r.ok("exclusion added", key+" error")
			continue
		}
		if o.st.mon["all"] != "" || !list && there(o.st) {
			r.ok("exclusion added", key+" "+p.instrPos(o.at))
			continue
		}
		good := false
		for _, fd := range fields {
			if fd.kind != "property" {
				continue
			}
			base, pieces := unwind(r.fieldOf(x, o.st, f, 0, cst, fd.i))
			mine, own := false, ofField(base, fd, 0)
			for _, pc := range pieces {
				mine = mine || pc == param
				own = own || ofField(pc, fd, 0)
			}
			good = good || mine && own
		}
		if good {
			r.ok("exclusion added", key+" "+p.instrPos(o.at))
			continue
		}
		r.bad("exclusion added", key, p.instrPos(o.at), "%s does not enter what it is to exclude (%s)", key, trailOf(o.st))
	}
}

func isNodeless(t *Term, fields []exField) bool {
	for _, fd := range fields {
		if ofField(t, fd, 0) {
			return true
		}
	}
	return false
}

func isPtr(t *Term) bool {
	_, ok := t.typ().Underlying().(*types.Pointer)
	return ok
}
