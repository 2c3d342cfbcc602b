package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C13", "Every function of the parser that takes part in recursion, and every entry point, is interpreted on all paths with its helpers inlined while watching the current location, the list of references being resolved and the nesting depth. Each change of the location adds a text or takes the text added last off again (or puts a saved location back), each change of the list or the depth adds or removes a known number, and on every way out, deferred calls included, and around every loop the net change is nothing. Calls that recurse are assumed balanced, which is what is shown for each of them.",
		"paths that end in a panic.", runC13)
}

// parseRoots: the entry points of the parser.
func (p *Prog) parseEntries() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.libRoots() {
		if f.Pkg == p.Repo[""] && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "Parse") {
			out = append(out, f)
		}
	}
	return out
}

// parseSide: every function reachable from an entry point that does not generate.
func (p *Prog) parseSide() map[*ssa.Function]*ssa.Function {
	return p.reach(p.parseEntries(), func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && (isGenerate(f) || f.Name() == "Apply" || f.Name() == "String")
	})
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func mentionsNode(t types.Type, d int) bool {
	if t == nil || d > 4 {
		return false
	}
	switch u := t.(type) {
	case *types.Named:
		n := u.Obj().Name()
		return n == "schemaNode" || n == "schemaNodeOrFalse" || n == "itemsData"
	case *types.Pointer:
		return mentionsNode(u.Elem(), d+1)
	case *types.Slice:
		return mentionsNode(u.Elem(), d+1)
	case *types.Array:
		return mentionsNode(u.Elem(), d+1)
	case *types.Map:
		return mentionsNode(u.Elem(), d+1)
	}
	return false
}

// noNodes: cells that hold parts of schemas are not followed.
func noNodes(keep func(a *Term) bool) func(a *Term) bool {
	memo := map[*Term]bool{}
	return func(a *Term) bool {
		if v, ok := memo[a]; ok {
			return v
		}
		v := true
		if keep == nil || !keep(a) {
			if mentionsNode(elemType(a), 0) {
				v = false
			}
			for k := a; k != nil && (k.Op == "faddr" || k.Op == "iaddr"); k = k.A[0] {
				if mentionsNode(elemType(k.A[0]), 0) {
					v = false
				}
			}
		}
		memo[a] = v
		return v
	}
}

func isPathAddr(a *Term) bool {
	return a.Op == "faddr" && ownerName(a) == "referenceHandler" && fieldName(a) == "CurrentPath"
}

func isDepthAddr(a *Term) bool {
	return a.Op == "faddr" && ownerName(a) == "parserMetadata" && fieldName(a) == "ParseDepth"
}

// balance follows the bookkeeping of the parser.
type balance struct {
	x   *Exec
	r   *R
	key string
	cur ssa.Instruction
}

const (
	monPath  = "location"
	monRefs  = "references"
	monDepth = "depth"
)

var balNames = map[string]string{monPath: "the current location", monRefs: "the list of references being resolved", monDepth: "the nesting depth"}

// entries of a monitor: what was added and the value before it
func pushMon(st *State, m string, what, before int) {
	s := strconv.Itoa(what) + ":" + strconv.Itoa(before)
	if st.mon[m] != "" {
		s = st.mon[m] + "," + s
	}
	st.mon[m] = s
}

func popMon(st *State, m string) (what string, ok bool) {
	s := st.mon[m]
	if s == "" {
		return "", false
	}
	i := strings.LastIndex(s, ",")
	last := s[i+1:]
	if strings.HasPrefix(last, "*") {
		return "", false
	}
	if i < 0 {
		delete(st.mon, m)
	} else {
		st.mon[m] = s[:i]
	}
	return strings.SplitN(last, ":", 2)[0], true
}

// restored: v is a value the cell had before an entry was added.
func restored(st *State, m string, a, v *Term) bool {
	s := st.mon[m]
	if v.Op == "load" && v.A[0] == a && (len(v.A) < 2 || v.A[1] == nil) {
		delete(st.mon, m) // the value on entry
		return true
	}
	if s == "" {
		return false
	}
	parts := strings.Split(s, ",")
	for i, q := range parts {
		if strings.HasSuffix(q, ":"+strconv.Itoa(v.id)) {
			if i == 0 {
				delete(st.mon, m)
			} else {
				st.mon[m] = strings.Join(parts[:i], ",")
			}
			return true
		}
	}
	return false
}

func (b *balance) instr(st *State, fr *frame, in ssa.Instruction) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return
	}
	x := b.x
	a := x.val(st, s.Addr)
	pos := x.P.instrPos(in)
	bad := func(m, f string, args ...interface{}) {
		b.r.bad("change", b.key+":"+m, pos, balNames[m]+" "+f, args...)
	}
	switch {
	case isPathAddr(a):
		if rootTerm(a).Op == "alloc" {
			return
		}
		v, cur := x.val(st, s.Val), x.load(st, a)
		if v == cur || restored(st, monPath, a, v) {
			b.r.ok("change", b.key+" "+pos)
			return
		}
		if rest, ok := x.suffixOf(v, cur); ok {
			pushMon(st, monPath, rest.id, cur.id)
			b.r.ok("change", b.key+" "+pos)
			return
		}
		if part, ok := x.cutBy(v, cur); ok {
			what, had := popMon(st, monPath)
			if !had {
				bad(monPath, "loses %s, which was not added on this path (%s)", part, trailOf(st))
			} else if what != strconv.Itoa(part.id) {
				bad(monPath, "loses %s, which is not what was added last (%s)", part, trailOf(st))
			} else {
				b.r.ok("change", b.key+" "+pos)
			}
			return
		}
		bad(monPath, "is set to %s", v)
	case isResolutionsAddr(a):
		if rootTerm(a).Op == "alloc" {
			return
		}
		v, cur := x.val(st, s.Val), x.load(st, a)
		if v == cur || restored(st, monRefs, a, v) {
			b.r.ok("change", b.key+" "+pos)
			return
		}
		if v.Op == "append" && v.A[0] == cur {
			l, isL := x.asList(st, v.A[1])
			if !isL {
				bad(monRefs, "grows by an unknown number of entries")
				return
			}
			for range l.A {
				pushMon(st, monRefs, 0, cur.id)
			}
			b.r.ok("change", b.key+" "+pos)
			return
		}
		if v.Op == "slice" && v.A[0] == cur && (v.A[1] == nil || isZeroC(v.A[1])) && v.A[2] != nil {
			if l := v.A[2]; l.Op == "len" && restored(st, monRefs, a, l.A[0]) {
				b.r.ok("change", b.key+" "+pos) // cut back to an earlier length
				return
			}
			base, c := splitAdd(v.A[2])
			lb, lc := splitAdd(x.lenOf(st, cur))
			if c -= lc; base != nil && base == lb && c <= 0 {
				for ; c < 0; c++ {
					if _, had := popMon(st, monRefs); !had {
						bad(monRefs, "loses an entry that was not added on this path (%s)", trailOf(st))
						return
					}
				}
				b.r.ok("change", b.key+" "+pos)
				return
			}
		}
		bad(monRefs, "is set to %s", v)
	case isDepthAddr(a):
		if rootTerm(a).Op == "alloc" {
			return
		}
		v, cur := x.val(st, s.Val), x.load(st, a)
		vb, vc := splitAdd(v)
		cb, cc := splitAdd(cur)
		switch {
		case v == cur || restored(st, monDepth, a, v):
		case vb == cb && vc > cc:
			for ; vc > cc; vc-- {
				pushMon(st, monDepth, 0, cur.id)
			}
		case vb == cb:
			for ; vc < cc; vc++ {
				if _, had := popMon(st, monDepth); !had {
					bad(monDepth, "is lowered although it was not raised on this path (%s)", trailOf(st))
					return
				}
			}
		default:
			bad(monDepth, "is set to %s", v)
			return
		}
		b.r.ok("change", b.key+" "+pos)
	}
}

// suffixOf: v is cur followed by something.
func (x *Exec) suffixOf(v, cur *Term) (*Term, bool) {
	vp, cp := x.catParts(v), x.catParts(cur)
	if len(vp) < len(cp) {
		return nil, false
	}
	var rest []*Term
	for i := range cp {
		if vp[i] == cp[i] {
			continue
		}
		a, ok := strConst(vp[i])
		c, ok2 := strConst(cp[i])
		if i == len(cp)-1 && ok && ok2 && strings.HasPrefix(a, c) {
			rest = append(rest, x.T.Str(a[len(c):]))
			continue
		}
		return nil, false
	}
	rest = append(rest, vp[len(cp):]...)
	if len(rest) == 0 {
		return nil, false
	}
	return x.cat(rest...), true
}

// cutBy: v is cur without a text at its end.
func (x *Exec) cutBy(v, cur *Term) (*Term, bool) {
	if callTo(v, "strings.TrimSuffix") && v.A[0] == cur {
		return v.A[1], true
	}
	if v.Op == "slice" && v.A[0] == cur && (v.A[1] == nil || isZeroC(v.A[1])) && v.A[2] != nil {
		h := v.A[2]
		if h.Op == "bin" && h.Aux == "-" && h.A[0].Op == "len" && h.A[0].A[0] == cur && h.A[1].Op == "len" {
			return h.A[1].A[0], true
		}
		// a constant text
		if base, c := splitAdd(h); base != nil && base.Op == "len" && base.A[0] == cur && c < 0 {
			if cp := x.catParts(cur); len(cp) > 0 {
				if s, ok := strConst(cp[len(cp)-1]); ok && int64(len(s)) >= -c {
					return x.T.Str(s[int64(len(s))+c:]), true
				}
			}
			return x.T.mk("text", nil, int(-c), types.Typ[types.String], nil, nil), true
		}
	}
	// the remaining text is spelled out
	if rest, ok := x.suffixOf(cur, v); ok {
		return rest, true
	}
	return nil, false
}

func runC13(r *R) {
	p := r.p
	side := p.parseSide()
	touch := p.touching(func(in ssa.Instruction) bool {
		s, ok := in.(*ssa.Store)
		if !ok {
			return false
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		return ok && (usesField(fa, "referenceHandler", "CurrentPath") || usesField(fa, "referenceResolver", "resolutions") || usesField(fa, "parserMetadata", "ParseDepth"))
	}, nil)
	roots := map[*ssa.Function]bool{}
	for f := range side {
		if touch[f] && p.inRepo(f) && len(f.Blocks) > 0 && p.recursive(f) {
			roots[f] = true
		}
	}
	for _, f := range p.parseEntries() {
		roots[f] = true
	}
	if len(roots) < 8 {
		r.missing("the recursive functions of the parser")
	}
	for _, root := range sortedFns(roots) {
		key := shortFn(root)
		x := newExec(p, Config{
			Inline: func(f *ssa.Function) bool { return touch[f] && !roots[f] && !p.recursive(f) },
			Track:  noNodes(nil),
			Fact: func(a *Term) int {
				if a.Op != "bin" {
					return 0
				}
				return -1
			},
		})
		x.keyTrack = func(m string) bool {
			return strings.HasSuffix(m, "CurrentPath") || strings.HasSuffix(m, "resolutions") || strings.HasSuffix(m, "ParseDepth")
		}
		b := &balance{x: x, r: r, key: key}
		x.cfg.OnInstr = b.instr
		mons := []string{monPath, monRefs, monDepth}
		x.cfg.OnHead = func(st *State, fr *frame, l *Loop) {
			for _, m := range mons {
				st.mon[x.loopMon(l, st, m)] = st.mon[m]
			}
		}
		x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
			// what this round deferred runs later: its effect counts for this round
			n := len(st.defers)
			for n > 0 && l.Blocks[st.defers[n-1].in.Block()] {
				n--
			}
			ends := []*State{st}
			if n < len(st.defers) {
				t := st.clone()
				t.defers = append([]deferRec(nil), st.defers[n:]...)
				t.looped = nil
				ends = nil
				for _, o := range x.runDefers(fr, t) {
					if o.kind == "return" {
						ends = append(ends, o.st)
					}
				}
			}
			for _, m := range mons {
				was := st.mon[x.loopMon(l, st, m)]
				if len(ends) == 1 && ends[0] == st && onlyAdds(was, st.mon[m]) {
					// any number of entries, to be taken off together
					st.mon[m] = strings.TrimPrefix(was+",*:0", ",")
					continue
				}
				for _, e := range ends {
					if e.mon[m] != was {
						r.bad("balance", key+":loop:"+m, p.instrPos(l.Header.Instrs[0]), "%s changes with every round of a loop (%s)", balNames[m], trailOf(st))
					}
				}
				if was == "" {
					delete(st.mon, m)
				} else {
					st.mon[m] = was
				}
			}
		}
		outs := x.Root(root, nil)
		r.exec(x, key)
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			for _, m := range mons {
				if o.st.mon[m] != "" {
					r.bad("balance", key+":"+m, p.instrPos(o.at), "%s is not what it was before on a way out of %s (%s)", balNames[m], key, trailOf(o.st))
				} else {
					r.ok("balance", key+" "+m)
				}
			}
		}
	}
	r.need("balance", 30)
	r.need("change", 6)
}

// onlyAdds: the entries of now are those of was and at least one more.
func onlyAdds(was, now string) bool {
	return len(now) > len(was) && strings.HasPrefix(now, was) && (was == "" || now[len(was)] == ',')
}

func (x *Exec) loopMon(l *Loop, st *State, m string) string {
	return "at" + strconv.Itoa(x.loopID(l)) + "." + strconv.Itoa(st.ctx.id) + "." + m
}
