package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C14", "Every function of the parser that handles schemas and can report a problem (it returns an error or holds the parser's state) is interpreted on all paths. Whatever error a call may have produced is, on every path on which it is not known to be nil, part of a returned error, recorded in the error collection, or the call was to a function shown to record its own errors; a null generator is returned without an error only by a parser that never fails. The error collection is shown to store each error it is given next to the ones recorded before at the same place, and to report all entries of all documents.",
		"problems that never become an error value (a keyword that is not looked at at all).", runC14)
}

// mentionsSchema: the function handles schemas or generators.
func (p *Prog) mentionsSchema(f *ssa.Function) bool {
	gen := p.iface("", "Generator")
	is := func(t types.Type) bool {
		if mentionsNode(t, 0) {
			return true
		}
		switch typeName(t) {
		case "RootGenerator", "Generator", "ifStatement", "ifConstraint":
			return true
		}
		return gen != nil && types.Identical(t.Underlying(), gen)
	}
	sig := f.Signature
	if sig.Recv() != nil && is(sig.Recv().Type()) {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if is(sig.Params().At(i).Type()) {
			return true
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if is(sig.Results().At(i).Type()) {
			return true
		}
	}
	return false
}

func holdsMetadata(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil && typeName(sig.Recv().Type()) == "parserMetadata" {
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if typeName(sig.Params().At(i).Type()) == "parserMetadata" {
			return true
		}
	}
	for _, fv := range f.FreeVars {
		if typeName(deref(fv.Type())) == "parserMetadata" || typeName(fv.Type()) == "parserMetadata" {
			return true
		}
	}
	return false
}

func errResult(f *ssa.Function) int {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isErrT(f.Signature.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// recorder: a method of the error collection that takes an error.
func isRecorder(f *ssa.Function) bool {
	if f == nil || recvName(f) != "errorCollection" {
		return false
	}
	return errParam(f) >= 0
}

func errParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isErrT(p.Type()) {
			return i
		}
	}
	return -1
}

type errFlow struct {
	p     *Prog
	self  map[*ssa.Function]bool // record their own errors
	roots map[*ssa.Function]bool
}

// matters: a failed test or numeric search leaves the schema as it was.
func matters(c ssa.CallInstruction) bool {
	rs := c.Common().Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		switch t := rs.At(i).Type().Underlying().(type) {
		case *types.Basic:
			if t.Kind() != types.Bool {
				return true
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsNumeric == 0 || b.Kind() == types.Byte {
				return true
			}
		default:
			if !isErrT(rs.At(i).Type()) || rs.Len() == 1 {
				return true
			}
		}
	}
	return false
}

func errKey(e *Term) string { return "e" + strconv.Itoa(e.id) }
func recKey(e *Term) string { return "r" + strconv.Itoa(e.id) }

// run interprets one function; report is nil while summaries are computed.
func (ef *errFlow) run(r *R, f *ssa.Function) (selfRec bool) {
	p := ef.p
	key := shortFn(f)
	pend := map[string]*Term{}
	x := newExec(p, Config{
		Track: noNodes(nil),
		Inline: func(g *ssa.Function) bool {
			if isRecorder(g) || ef.roots[g] || p.recursive(g) {
				return false
			}
			// helpers that report errors for others
			return errParam(g) >= 0 || g.Parent() != nil
		},
		Fact: func(a *Term) int {
			if a.Op == "bin" && a.Aux == "==" && (isErrT(a.A[0].T) || isErrT(a.A[1].T)) {
				return 1
			}
			return 0
		},
	})
	settle := func(st *State, v *Term) {
		v.any(func(t *Term) bool {
			if isErrT(t.T) {
				delete(st.mon, errKey(t))
				st.mon[recKey(t)] = "1"
			}
			return false
		})
		st.mon[recKey(v)] = "1"
	}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if isRecorder(ev.Callee) && recvName(f) != "errorCollection" {
			// a report made because of an error covers it
			for k := range ev.St.mon {
				if e := pend[k]; e != nil && x.knownNonNil(ev.St, e) {
					delete(ev.St.mon, k)
					ev.St.mon[recKey(e)] = "1"
				}
			}
			if i := errParam(ev.Callee); i < len(ev.Args) {
				settle(ev.St, ev.Args[i])
			}
			return true
		}
		return false
	}
	x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
		if ev.Callee != nil {
			switch fullName(ev.Callee) {
			case "errors.New", "fmt.Errorf", "errors.Join", "errors.Unwrap", "os.Getwd":
				return
			}
			if ef.self[originOf(ev.Callee)] {
				return
			}
		} else if fs, ext := p.calleesOf(ev.In); len(fs) > 0 && !ext {
			all := true
			for _, g := range fs {
				all = all && ef.self[g]
			}
			if all {
				return
			}
		}
		if ev.Method != nil && ev.Method.Name() == "Close" || !matters(ev.In) {
			return
		}
		for _, e := range rets {
			if isErrT(e.T) && (e.Op == "call" || e.Op == "pcall") {
				if v, known := x.isNilFact(ev.St, e); known && v {
					continue
				}
				if ev.St.mon[recKey(e)] != "" {
					continue
				}
				pend[errKey(e)] = e
				ev.St.mon[errKey(e)] = x.P.instrPos(ev.In)
			}
		}
	}
	x.cfg.OnFact = func(st *State, a *Term, val bool, at ssa.Instruction) {
		if a.Op == "bin" && a.Aux == "==" && val {
			for i := 0; i < 2; i++ {
				if a.A[1-i].isNil() {
					delete(st.mon, errKey(a.A[i]))
				}
			}
		}
	}
	end := func(st *State, what string, rets []*Term) {
		for k, pos := range st.mon {
			e := pend[k]
			if !strings.HasPrefix(k, "e") || e == nil {
				continue
			}
			if x.knownNil(st, e) {
				continue
			}
			reported := false
			for _, v := range rets {
				if v == nil || !isErrT(v.T) && v.T != nil && !v.isNil() && !types.Implements(v.T, errT.Underlying().(*types.Interface)) {
					continue
				}
				if v.any(func(t *Term) bool { return t == e }) || x.nonNil(st, v) || x.knownNonNil(st, v) {
					reported = true
				}
			}
			if !reported && r != nil {
				r.bad("error kept", key+":"+calleeName(e), pos, "an error of %s is neither returned nor recorded %s (%s)", calleeName(e), what, trailOf(st))
			} else if r != nil {
				r.ok("error kept", key+" "+calleeName(e)+" "+pos)
			}
		}
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		for k := range st.mon {
			if e := pend[k]; e != nil && strings.HasPrefix(k, "e") && e.Ctx != nil && x.owned(e, l, st.ctx) {
				one := st.clone()
				for q := range one.mon {
					if q != k {
						delete(one.mon, q)
					}
				}
				end(one, "before the next round of a loop", nil)
				delete(st.mon, k)
			}
		}
		for k := range st.mon {
			if strings.HasPrefix(k, "r") {
				delete(st.mon, k)
			}
		}
	}
	outs := x.Root(f, nil)
	if r != nil {
		r.exec(x, key)
	}
	ei := errResult(f)
	selfRec = ei >= 0 && x.fail == ""
	nulls, fails := "", false
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		end(o.st, "on a way out", o.rets)
		if ei < 0 || ei >= len(o.rets) {
			continue
		}
		e := o.rets[ei]
		if !e.isNil() && !x.knownNil(o.st, e) {
			fails = true
			if !ef.recorded(o.st, e) {
				selfRec = false
			}
		}
		if len(o.rets) == 2 && ei == 1 && isNullGen(o.rets[0]) && (e.isNil() || x.knownNil(o.st, e)) && !anyRecorded(o.st) && !x.replacedNil(o.st) {
			nulls = x.P.instrPos(o.at) + "\x00" + trailOf(o.st)
		} else {
			if len(o.rets) == 2 && !isNullGen(o.rets[0]) {
				fails = true
			}
		}
	}
	if r != nil && ei == 1 && len(outs) > 0 && f.Signature.Results().Len() == 2 && typeName(f.Signature.Results().At(0).Type()) == "Generator" {
		if nulls != "" && fails {
			q := strings.SplitN(nulls, "\x00", 2)
			r.bad("null with error", key, q[0], "a null generator stands in for a sub-schema although no error is returned or recorded (%s)", q[1])
		} else {
			r.ok("null with error", key)
		}
	}
	return selfRec
}

// replacedNil: the null generator stands in for a generator that is absent.
func (x *Exec) replacedNil(st *State) bool {
	for a, v := range st.facts {
		if v && a.Op == "bin" && a.Aux == "==" {
			for i := 0; i < 2; i++ {
				if a.A[1-i].isNil() && typeName(a.A[i].T) == "Generator" {
					return true
				}
			}
		}
	}
	return false
}

func anyRecorded(st *State) bool {
	for k := range st.mon {
		if strings.HasPrefix(k, "r") {
			return true
		}
	}
	return false
}

func isNullGen(t *Term) bool {
	if t == nil || t.Op != "iface" || t.T == nil {
		return false
	}
	return typeName(t.T) == "nullGenerator" || typeName(deref(t.T)) == "nullGenerator"
}

// recorded: the returned error, or one it wraps that says the same, is in the collection.
func (ef *errFlow) recorded(st *State, e *Term) bool {
	if st.mon[recKey(e)] != "" {
		return true
	}
	return e.any(func(t *Term) bool {
		if !isErrT(t.T) {
			return false
		}
		if st.mon[recKey(t)] != "" {
			return true
		}
		if f, ok := t.Aux.(*ssa.Function); ok && t.Op == "call" && ef.self[f] {
			return true
		}
		return false
	})
}

func calleeName(e *Term) string {
	switch f := e.Aux.(type) {
	case *ssa.Function:
		return shortFn(f)
	case string:
		return f
	}
	return "a call"
}

func runC14(r *R) {
	p := r.p
	side := p.parseSide()
	ef := &errFlow{p: p, self: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{}}
	for f := range side {
		if !p.inRepo(f) || len(f.Blocks) == 0 || f.Pkg != p.Repo[""] && (f.Parent() == nil || f.Parent().Pkg != p.Repo[""]) || f.Synthetic != "" {
			continue
		}
		if recvName(f) == "errorCollection" {
			continue
		}
		if (errResult(f) >= 0 || holdsMetadata(f)) && p.mentionsSchema(f) {
			ef.roots[f] = true
		}
	}
	if len(ef.roots) < 30 {
		r.missing("the functions of the parser that can report a problem")
	}
	// functions that record every error they return
	for changed := true; changed; {
		changed = false
		for _, f := range sortedFns(ef.roots) {
			if errResult(f) >= 0 && !ef.self[f] && holdsMetadata(f) && ef.run(nil, f) {
				ef.self[f] = true
				changed = true
			}
		}
	}
	for _, f := range sortedFns(ef.roots) {
		ef.run(r, f)
		if ef.self[f] {
			r.ok("records its own errors", shortFn(f))
		}
	}
	r.need("error kept", 60)
	r.need("null with error", 15)
	r.collection()
}

// collection: what is recorded is stored and reported.
func (r *R) collection() {
	p := r.p
	n := 0
	for _, f := range p.allBodies() {
		if !isRecorder(f) {
			continue
		}
		n++
		key := shortFn(f)
		var x *Exec
		x = newExec(p, Config{Fact: func(a *Term) int { return 1 }, OnInstr: func(st *State, fr *frame, in ssa.Instruction) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			v, m, k := x.val(st, mu.Value), x.val(st, mu.Map), x.val(st, mu.Key)
			held := m.any(func(t *Term) bool { return t.Op == "load" && isField(t, "errorCollection", "Errors") })
			if held && v.Op == "makemap" {
				st.mon["new"+strconv.Itoa(v.id)] = "1"
			}
			if !isErrT(mu.Value.Type()) || !held && st.mon["new"+strconv.Itoa(m.id)] == "" {
				return
			}
			// what was there before stays
			old := func(t *Term) bool { return t.Op == "lookup" && t.A[1] == k && t.A[0] == m }
			kept := v.any(old)
			for a, val := range st.facts {
				if a.Op == "lookupok" && a.A[0] == m && a.A[1] == k && !val {
					kept = true
				}
				if callTo(a, "errors.Is") && val && a.A[1].any(old) {
					kept = true // the new error includes the old one
				}
				if eq, o, isEq := eqOperands(a); isEq && val && (old(eq) && o.isNil() || old(o) && eq.isNil()) {
					kept = true
				}
			}
			if !kept && !m.any(func(t *Term) bool { return t.Op == "makemap" }) {
				r.bad("recorded", key+":lost", p.instrPos(in), "an error recorded before at the same place is overwritten (%s)", trailOf(st))
			}
			if v.any(func(t *Term) bool { return t.Op == "param" && isErrT(t.T) }) {
				st.mon["stored"] = "1"
			}
		}})
		outs := x.Root(f, nil)
		r.exec(x, key)
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			if o.st.mon["stored"] != "" || r.alreadyThere(x, o.st) {
				r.ok("recorded", key)
			} else {
				r.bad("recorded", key+":not stored", p.instrPos(o.at), "%s returns without storing the error (%s)", key, trailOf(o.st))
			}
		}
	}
	if n < 2 {
		r.missing("the methods of the error collection that record an error")
	}
	r.reported()
}

// alreadyThere: the same error or text is part of what is recorded already.
func (r *R) alreadyThere(x *Exec, st *State) bool {
	isP := func(t *Term) bool {
		return t.any(func(t *Term) bool { return t.Op == "param" && isErrT(t.T) })
	}
	isOld := func(t *Term) bool { return t.any(func(t *Term) bool { return t.Op == "lookup" }) }
	for a, v := range st.facts {
		if !v {
			continue
		}
		if callTo(a, "errors.Is") && isOld(a.A[0]) && isP(a.A[1]) {
			return true
		}
		if l, e, ok := membership(a); ok && isP(e) && isOld(l) {
			return true
		}
		if l, e, ok := eqOperands(a); ok && (isP(e) && isOld(l) || isP(l) && isOld(e)) {
			return true
		}
		if isP(a) && l2(a, isP) {
			return true
		}
	}
	return st.mon["nilerr"] != ""
}

func l2(a *Term, isP func(*Term) bool) bool {
	// the error handed in is nil
	l, e, ok := eqOperands(a)
	return ok && (l.Op == "param" && e.isNil() || e.Op == "param" && l.isNil())
}

// reported: the methods that read the collection leave nothing out.
func (r *R) reported() {
	p := r.p
	found := 0
	for _, f := range p.allBodies() {
		if recvName(f) != "errorCollection" || f.Parent() != nil || errParam(f) >= 0 || f.Signature.Results().Len() != 1 {
			continue
		}
		res := f.Signature.Results().At(0).Type()
		if _, isMap := res.Underlying().(*types.Map); !isMap {
			continue
		}
		found++
		r.collect(f)
	}
	if found == 0 {
		r.missing("the method that collects the recorded errors")
	}
	r.need("recorded", 2)
	r.need("reported", 2)
}

// keepsText: the call's result contains all of its arguments.
func keepsText(t *Term) bool {
	if callTo(t, "fmt.Sprintf") {
		for _, a := range t.A {
			if f, ok := strConst(a); ok {
				return !strings.Contains(f, "%.")
			}
		}
	}
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln", "strings.Join", "strconv.Quote", "net/url.QueryEscape", "net/url.PathEscape", "errors.Join"} {
		if callTo(t, n) {
			return true
		}
	}
	return false
}

func (r *R) collect(f *ssa.Function) {
	p := r.p
	key := shortFn(f)
	x := newExec(p, Config{})
	isAll := func(t *Term) bool { return t.Op == "load" && isField(t, "errorCollection", "Errors") }
	isEntry := func(t *Term) bool {
		t = strip(t)
		return t.Op == "lookup" && t.A[0].Op == "lookup" && isAll(t.A[0].A[0])
	}
	loopKey := func(l *Loop) string { return "ran" + strconv.Itoa(x.loopID(l)) }
	x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
		mu, ok := in.(*ssa.MapUpdate)
		if !ok || !isErrT(mu.Value.Type()) {
			return
		}
		k, v := x.val(st, mu.Key), x.val(st, mu.Value)
		if !v.any(isEntry) {
			return
		}
		st.mon["put"] = strconv.Itoa(x.val(st, mu.Map).id)
		e := v
		v.any(func(t *Term) bool {
			if isEntry(t) {
				e = strip(t)
			}
			return false
		})
		var in1 func(t, q *Term) bool
		in1 = func(t, q *Term) bool {
			if t == nil || t == q {
				return t == q
			}
			if t.Op == "next" || t.Op == "slice" || t.Op == "index" || t.Op == "lookup" {
				return false
			}
			if strings.HasPrefix(t.Op, "call") && !keepsText(t) {
				return false // the rest may be the same for different arguments
			}
			for _, a := range t.A {
				if in1(a, q) {
					return true
				}
			}
			return false
		}
		has := func(q *Term) bool { return in1(k, q) }
		if !has(e.A[1]) || !has(e.A[0].A[1]) {
			r.bad("reported", key+":key", p.instrPos(in), "errors are reported under %s, which does not tell documents and places apart", k)
		}
	}
	x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
		st.mon[loopKey(l)] = "1"
		for b := range l.Blocks {
			for _, s := range b.Succs {
				if !l.Blocks[s] && b != l.Header {
					r.bad("reported", key+":early", p.instrPos(b.Instrs[len(b.Instrs)-1]), "the loop over the recorded errors can be left before its end")
				}
			}
		}
	}
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		inner := ""
		for _, o := range fr.fi.loops {
			if o != l && l.Blocks[o.Header] {
				inner = loopKey(o)
			}
		}
		if inner == "" && st.mon["put"] == "" || inner != "" && st.mon[inner] == "" {
			r.bad("reported", key+":skipped", p.instrPos(l.Header.Instrs[0]), "a recorded error is left out (%s)", trailOf(st))
		} else {
			r.ok("reported", key+" "+strconv.Itoa(l.Header.Index))
		}
		if inner == "" {
			delete(st.mon, "put")
		} else {
			delete(st.mon, inner)
		}
	}
	for _, o := range x.Root(f, nil) {
		if o.kind == "return" && len(o.rets) == 1 && o.rets[0].Op != "makemap" {
			r.bad("reported", key+":result", p.instrPos(o.at), "%s returns %s instead of the collected errors", key, o.rets[0])
		}
	}
	r.exec(x, key)
}
