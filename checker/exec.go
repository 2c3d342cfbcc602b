package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The engine: a forward, path-sensitive dataflow over SSA with value numbering. A
// state holds value numbers of live registers, tracked memory cells, branch facts
// and the state of the monitors of the rule at hand. States at one program point are
// merged when equal; loops are summarised by forgetting what they may change.

type PathNode struct {
	prev *PathNode
	text string
	n    int
}

type deferRec struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
	meth bool
}

type State struct {
	looped []deferRec // calls deferred by summarised loops: each runs any number of times
	env    map[ssa.Value]*Term
	heap   map[*Term]*Term
	facts  map[*Term]bool
	epochs map[string]*Term
	mon    map[string]string
	defers []deferRec
	ctx    *Ctx
	path   *PathNode
}

func (s *State) clone() *State {
	n := &State{env: make(map[ssa.Value]*Term, len(s.env)), heap: make(map[*Term]*Term, len(s.heap)),
		facts: make(map[*Term]bool, len(s.facts)), epochs: make(map[string]*Term, len(s.epochs)),
		mon: make(map[string]string, len(s.mon)), ctx: s.ctx, path: s.path}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.epochs {
		n.epochs[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	n.defers = append([]deferRec(nil), s.defers...)
	n.looped = append([]deferRec(nil), s.looped...)
	return n
}

func (s *State) step(text string) {
	n := 0
	if s.path != nil {
		n = s.path.n + 1
	}
	s.path = &PathNode{prev: s.path, text: text, n: n}
}

func (s *State) trail(max int) string {
	var out []string
	for p := s.path; p != nil && len(out) < max; p = p.prev {
		out = append(out, p.text)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " -> ")
}

type Outcome struct {
	st   *State
	rets []*Term
	kind string // "return", "panic", "exit"
	at   ssa.Instruction
}

type CallEvent struct {
	X      *Exec
	St     *State
	In     ssa.CallInstruction
	Fr     *frame
	Callee *ssa.Function // static or resolved
	Method *types.Func   // for interface calls
	Recv   *Term
	Fun    *Term
	Args   []*Term // including the receiver for methods
	Defer  bool
}

func (c *CallEvent) name() string {
	if c.Callee != nil {
		return fullName(c.Callee)
	}
	if c.Method != nil {
		return "invoke." + c.Method.Name()
	}
	return ""
}

type Config struct {
	Inline   func(fn *ssa.Function) bool
	Fact     func(atom *Term) int // 1 keep always, 0 keep while alive, -1 drop
	Track    func(addr *Term) bool
	OnCall   func(ev *CallEvent) bool // true: treat as opaque without looking inside
	OnFact   func(st *State, atom *Term, val bool, at ssa.Instruction)
	OnInstr  func(st *State, fr *frame, in ssa.Instruction)
	OnBack   func(st *State, fr *frame, l *Loop)
	OnHead   func(st *State, fr *frame, l *Loop)           // a summarised loop is entered from outside
	OnEntry  func(lv, v *Term)                             // a loop counter is entered with a value
	OnExit   func(st *State, fr *frame, l *Loop, end bool) // a loop is left, at its end or earlier
	Lows     bool                                          // keep lower bounds of values carried around loops
	WideNil  bool                                          // slices that start out nil are summarised like others
	NoUnroll bool                                          // every loop is summarised
	OnOpaque func(ev *CallEvent, rets []*Term)
	Blur     func(st *types.Struct, i int) bool // fields that are not told apart
	Pure     func(fn *ssa.Function) bool        // repository functions treated as pure values
	LoopMods func(l *Loop, mods map[string]bool) map[string]bool
	Max      int
}

type Exec struct {
	P                 *Prog
	T                 *Terms
	cfg               Config
	info              map[*ssa.Function]*fnInfo
	steps             int
	fail              string
	visited           map[*ssa.Function]bool
	seed              map[*Term]*Term
	nInstr            int
	keyTrack          func(string) bool
	blurKeys          map[string]bool
	priv              map[ssa.Value]bool
	netBool, netHosts map[string]bool
}

type frame struct {
	fn    *ssa.Function
	base  *Ctx
	up    *frame
	roots []*Term
	seen  map[string]bool
	fi    *fnInfo
	out   []Outcome
	depth int
	vals  map[string]map[*ssa.Phi]map[*Term]bool
	call  ssa.CallInstruction
	wide  map[*Loop]bool
}

func newExec(p *Prog, cfg Config) *Exec {
	if cfg.Max == 0 {
		cfg.Max = 400000
	}
	return &Exec{P: p, T: newTerms(), cfg: cfg, info: map[*ssa.Function]*fnInfo{}, visited: map[*ssa.Function]bool{}}
}

func (x *Exec) fi(fn *ssa.Function) *fnInfo {
	f := x.info[fn]
	if f == nil {
		f = analyseFn(fn)
		x.info[fn] = f
	}
	return f
}

func (x *Exec) undecided(format string, a ...interface{}) {
	if x.fail == "" {
		x.fail = fmt.Sprintf(format, a...)
	}
}

// Root runs a function from an unconstrained state. mk may set up the state.
func (x *Exec) Root(fn *ssa.Function, setup func(st *State, params []*Term)) []Outcome {
	st := &State{env: map[ssa.Value]*Term{}, heap: map[*Term]*Term{}, facts: map[*Term]bool{}, epochs: map[string]*Term{}, mon: map[string]string{}}
	st.ctx = x.T.ctx(nil, nil, nil, 0, fn)
	for k, v := range x.seed {
		st.heap[k] = v
	}
	var params []*Term
	for i, p := range fn.Params {
		params = append(params, x.T.mk("param", p, i, p.Type(), nil, nil))
	}
	var fvs []*Term
	for i, p := range fn.FreeVars {
		fvs = append(fvs, x.T.mk("param", p, 1000+i, p.Type(), nil, nil))
	}
	if setup != nil {
		setup(st, params)
	}
	return x.run(fn, st, params, fvs, nil, nil)
}

func (x *Exec) run(fn *ssa.Function, st *State, args, fvs []*Term, up *frame, call ssa.CallInstruction) []Outcome {
	fi := x.fi(fn)
	x.visited[fn] = true
	if fi.irred {
		x.undecided("%s has irreducible control flow", fn)
	}
	fr := &frame{fn: fn, base: st.ctx, up: up, fi: fi, seen: map[string]bool{}, call: call, wide: map[*Loop]bool{}, vals: map[string]map[*ssa.Phi]map[*Term]bool{}}
	if up != nil {
		fr.depth = up.depth + 1
		fr.roots = append(fr.roots, up.roots...)
		for _, t := range st.env {
			fr.roots = append(fr.roots, t)
		}
		for _, d := range st.defers {
			fr.roots = append(fr.roots, d.args...)
			if d.fn != nil {
				fr.roots = append(fr.roots, d.fn)
			}
		}
	}
	ns := st.clone()
	ns.env = map[ssa.Value]*Term{}
	ns.defers = nil
	ns.looped = nil
	for i, p := range fn.Params {
		if i < len(args) {
			ns.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(fvs) {
			ns.env[p] = fvs[i]
		}
	}
	x.enter(fr, ns, nil, fn.Blocks[0])
	return fr.out
}

func (x *Exec) key(fr *frame, st *State, live map[ssa.Value]bool) string {
	var parts []string
	for v, t := range st.env {
		if live == nil || live[v] {
			parts = append(parts, x.T.aux(v)+"="+strconv.Itoa(t.id))
		}
	}
	for k, v := range st.heap {
		parts = append(parts, "h"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range st.facts {
		if v {
			parts = append(parts, "+"+strconv.Itoa(k.id))
		} else {
			parts = append(parts, "-"+strconv.Itoa(k.id))
		}
	}
	for k, v := range st.epochs {
		parts = append(parts, "e"+k+"="+strconv.Itoa(v.id))
	}
	for k, v := range st.mon {
		parts = append(parts, "m"+k+"="+v)
	}
	sort.Strings(parts)
	for _, d := range st.defers {
		parts = append(parts, "d"+x.T.aux(d.in))
		for _, a := range d.args {
			parts = append(parts, strconv.Itoa(a.id))
		}
	}
	for _, d := range st.looped {
		parts = append(parts, "l"+x.T.aux(d.in))
	}
	parts = append(parts, "c"+strconv.Itoa(st.ctx.id))
	return strings.Join(parts, ";")
}

// enter moves a state along an edge into a block.
func (x *Exec) enter(fr *frame, st *State, from, to *ssa.BasicBlock) {
	if x.fail != "" {
		return
	}
	x.steps++
	if x.steps > x.cfg.Max {
		x.undecided("state limit reached in %s", fr.fn)
		return
	}
	if from != nil {
		if l := fr.fi.loops[from]; l != nil && !l.Blocks[to] {
			x.notFound(fr, st, l)
		}
		if x.cfg.OnExit != nil {
			for _, l := range fr.fi.loops {
				if l.Blocks[from] && !l.Blocks[to] {
					x.cfg.OnExit(st, fr, l, l.Header == from)
				}
			}
		}
	}
	// leave unrolled iterations of loops that do not contain the target
	for st.ctx.Loop != nil && st.ctx != fr.base && !st.ctx.Loop.Blocks[to] {
		st.ctx = st.ctx.Parent
	}
	// phis
	nphi := 0
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
				break
			}
		}
		var vals []*Term
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			nphi++
			vals = append(vals, x.val(st, ph.Edges[pi]))
		}
		for i := 0; i < nphi; i++ {
			st.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
		}
	}
	live := fr.fi.liveIn[to.Index]
	for v := range st.env {
		if !live[v] {
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == to {
				continue
			}
			delete(st.env, v)
		}
	}
	if l := fr.fi.loops[to]; l != nil {
		if !x.loopHead(fr, st, from, l) {
			return
		}
	}
	if len(to.Preds) > 1 || from == nil {
		x.gc(fr, st, nil)
		k := strconv.Itoa(to.Index) + "|" + x.key(fr, st, nil)
		if fr.seen[k] {
			return
		}
		fr.seen[k] = true
	}
	x.block(fr, st, to, nphi)
}

const maxUnroll = 80

// notFound: a search loop that ran to its end has compared every element without success.
func (x *Exec) notFound(fr *frame, st *State, l *Loop) {
	if !l.searched {
		l.searched = true
		l.search = findSearch(l)
	}
	if len(l.search) == 0 {
		return
	}
	mods := x.loopMods(l)
	for _, s := range l.search {
		c, k := x.invariant(st, s.coll, l, mods), x.invariant(st, s.key, l, mods)
		if c == nil || k == nil {
			continue
		}
		a := x.T.mk("member", nil, 0, types.Typ[types.Bool], nil, nil, c, k)
		st.facts[a] = false
	}
}

// invariant evaluates a value that does not change while the loop runs.
func (x *Exec) invariant(st *State, v ssa.Value, l *Loop, mods map[string]bool) *Term {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function:
		return x.val(st, v)
	}
	in, isInstr := v.(ssa.Instruction)
	if !isInstr || !l.Blocks[in.Block()] {
		if t, ok := st.env[v]; ok {
			return t
		}
		return nil
	}
	switch w := v.(type) {
	case *ssa.UnOp:
		if w.Op != token.MUL {
			return nil
		}
		if fa, ok := w.X.(*ssa.FieldAddr); ok && mods[locKey(fa)] {
			return nil
		}
		if a := x.invariant(st, w.X, l, mods); a != nil {
			return x.load(st, a)
		}
	case *ssa.FieldAddr:
		if a := x.invariant(st, w.X, l, mods); a != nil {
			return x.faddr(a, structOf(w.X.Type()), w.Field)
		}
	case *ssa.Field:
		if a := x.invariant(st, w.X, l, mods); a != nil {
			return x.field(a, structOf(w.X.Type()), w.Field)
		}
	case *ssa.MakeInterface:
		return x.invariant(st, w.X, l, mods)
	case *ssa.ChangeType:
		return x.invariant(st, w.X, l, mods)
	}
	return nil
}

type searchPair struct{ coll, key ssa.Value }

// findSearch: comparisons of the loop's element with something, passed unsuccessfully by every
// way around the loop.
func findSearch(l *Loop) []searchPair {
	if _, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	var out []searchPair
	for b := range l.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b == l.Header {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		ne := b.Succs[1]
		if cmp.Op == token.NEQ {
			ne = b.Succs[0]
		}
		okAll := true
		for _, la := range l.Latch {
			if la == b {
				if ne != l.Header || b.Succs[0] == b.Succs[1] {
					okAll = false
				}
			} else if ne == l.Header {
				okAll = false
			} else if len(ne.Preds) != 1 || !ne.Dominates(la) {
				okAll = false
			}
		}
		if ne == l.Header {
			// the only latch is the comparison itself
			okAll = len(l.Latch) == 1 && l.Latch[0] == b
		}
		if !okAll {
			continue
		}
		for _, p := range [][2]ssa.Value{{cmp.X, cmp.Y}, {cmp.Y, cmp.X}} {
			ld, ok := p[0].(*ssa.UnOp)
			if !ok || ld.Op != token.MUL {
				continue
			}
			ia, ok := ld.X.(*ssa.IndexAddr)
			if !ok || !inductive(ia.Index, l) {
				continue
			}
			out = append(out, searchPair{ia.X, p[1]})
		}
	}
	return out
}

// inductive: an index that starts at the first element and visits all of them.
func inductive(v ssa.Value, l *Loop) bool {
	off := int64(0)
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return false
		}
		off, _ = constant.Int64Val(c.Value)
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != l.Header {
		return false
	}
	lo, ok := inductionLow(ph, l)
	if !ok || lo+off != 0 {
		return false
	}
	for i, p := range l.Header.Preds {
		if !l.Blocks[p] {
			continue
		}
		b, ok := ph.Edges[i].(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Value == nil || c.Value.ExactString() != "1" {
			return false
		}
	}
	return true
}

// loopHead decides whether the loop is unrolled for this entry or summarised.
func (x *Exec) loopHead(fr *frame, st *State, from *ssa.BasicBlock, l *Loop) bool {
	back := from != nil && l.Blocks[from]
	unrolled := st.ctx.Loop == l
	if (!back || unrolled) && !fr.wide[l] && !x.cfg.NoUnroll {
		if x.headDecided(fr, st, l) {
			iter := 0
			if unrolled {
				iter = st.ctx.Iter + 1
				st.ctx = st.ctx.Parent
			}
			if iter <= maxUnroll {
				st.ctx = x.T.ctx(st.ctx, nil, l, iter, fr.fn)
				return true
			}
		} else if unrolled {
			// stop unrolling: fall back to a summary from here on
			st.ctx = st.ctx.Parent
		}
	}
	if !back && x.cfg.OnHead != nil {
		x.cfg.OnHead(st, fr, l)
	}
	if back && x.cfg.OnBack != nil {
		x.cfg.OnBack(st, fr, l)
	}
	if back {
		// calls deferred by this round
		n := len(st.defers)
		for n > 0 && l.Blocks[st.defers[n-1].in.Block()] {
			n--
		}
	next:
		for _, d := range st.defers[n:] {
			for _, e := range st.looped {
				if e.in == d.in {
					continue next
				}
			}
			st.looped = append(st.looped, d)
		}
		st.defers = st.defers[:n]
	}
	x.forget(fr, st, l, back)
	return true
}

// headDecided: the branch in the loop header follows from the state.
func (x *Exec) headDecided(fr *frame, st *State, l *Loop) bool {
	iff, ok := l.Header.Instrs[len(l.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if b := l.Header.Succs; l.Blocks[b[0]] && l.Blocks[b[1]] {
		return false // the header does not leave the loop
	}
	tmp := st.clone()
	for _, in := range l.Header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Extract, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			x.simple(fr, tmp, in)
		case *ssa.Call:
			c := in.(*ssa.Call)
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				tmp.env[c] = x.lenOf(tmp, x.val(tmp, c.Call.Args[0]))
				continue
			}
			return false
		case *ssa.If:
		default:
			return false
		}
	}
	// only integer-indexed loops with constant bounds are unrolled
	c := x.val(tmp, iff.Cond)
	return c.isConst()
}

// owned: the term was produced inside the loop l of the activation ctx.
func (x *Exec) owned(t *Term, l *Loop, ctx *Ctx) bool {
	k := [3]int{t.id, x.loopID(l), ctx.id}
	if v, ok := x.T.ownsMM[k]; ok {
		return v
	}
	res := false
	if t.Ctx != nil {
		res = inLoop(t.Ctx, t.Site, l, ctx)
	}
	if !res {
		for _, a := range t.A {
			if a != nil && x.owned(a, l, ctx) {
				res = true
				break
			}
		}
	}
	x.T.ownsMM[k] = res
	return res
}

func (x *Exec) loopID(l *Loop) int {
	x.T.aux(l)
	return x.T.auxID[l]
}

func inLoop(c *Ctx, site ssa.Instruction, l *Loop, ctx *Ctx) bool {
	for c != nil {
		if c == ctx {
			return site != nil && l.Blocks[site.Block()]
		}
		if c.Call != nil {
			site = c.Call
		}
		c = c.Parent
	}
	return false
}

func (x *Exec) loopMods(l *Loop) map[string]bool {
	m := x.P.loopMods(l)
	if x.cfg.LoopMods != nil {
		m = x.cfg.LoopMods(l, m)
	}
	return m
}

func (x *Exec) forget(fr *frame, st *State, l *Loop, back bool) {
	ctx := st.ctx
	lows := map[*Term]int64{}
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := st.env[ph]
		lv := x.T.mk("loopvar", ph, 0, ph.Type(), ph, ctx)
		keep := false
		if !back && v != nil && x.cfg.OnEntry != nil {
			x.cfg.OnEntry(lv, v)
		}
		if v != nil && (v.isConst() || v.isNil() && !(x.cfg.WideNil && isSliceT(ph.Type()))) && !l.Induct[ph] {
			m := fr.vals[strconv.Itoa(ctx.id)]
			if m == nil {
				m = map[*ssa.Phi]map[*Term]bool{}
				fr.vals[strconv.Itoa(ctx.id)] = m
			}
			if m[ph] == nil {
				m[ph] = map[*Term]bool{}
			}
			if m[ph][v] || len(m[ph]) < 4 {
				m[ph][v] = true
				keep = true
			}
		}
		if v != nil && !keep && !x.owned(v, l, ctx) && x.invariantPhi(ph, l) {
			keep = true
		}
		if !keep {
			if x.cfg.Lows && v != nil && isIntT(ph.Type()) {
				if lo, _ := x.interval(st, v); lo != nil {
					if n, ok := constant.Int64Val(constant.ToInt(lo)); ok && n >= 0 {
						lows[lv] = min(n, 4)
					}
				}
			}
			st.env[ph] = lv
		}
	}
	for v, t := range st.env {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == l.Header {
			continue
		}
		if x.owned(t, l, ctx) {
			delete(st.env, v) // defined in an earlier iteration: dead
		}
	}
	mods := x.loopMods(l)
	hv := func(k *Term) *Term { return x.T.mk("havoc", "loop", 0, k.T, l.Header.Instrs[0], ctx, k) }
	for k, v := range st.heap {
		if x.owned(k, l, ctx) {
			delete(st.heap, k)
			continue
		}
		if x.modded(k, mods, fr) {
			st.heap[k] = hv(k)
		} else if x.owned(v, l, ctx) {
			st.heap[k] = hv(k)
		}
	}
	// fields of whole objects held in one cell
	var add []*Term
	for k, v := range st.heap {
		if t := elemType(k); t != nil {
			if sst, ok := t.Underlying().(*types.Struct); ok && v.Op != "havoc" {
				if x.localOnly(k, l, mods, fr) {
					continue
				}
				for i := 0; i < sst.NumFields(); i++ {
					if mods[fieldKey(t, sst, i)] && !x.blurred(sst, i) {
						fa := x.faddr(k, sst, i)
						if _, ok := st.heap[fa]; !ok {
							add = append(add, fa)
						}
					}
				}
			}
		}
	}
	for _, fa := range add {
		if x.cfg.Track != nil && !x.cfg.Track(fa) {
			st.heap[fa] = x.T.mk("untracked", nil, 0, nil, nil, nil, fa)
			continue
		}
		st.heap[fa] = hv(fa)
	}
	for m := range mods {
		if x.blurKeys[m] {
			continue
		}
		st.epochs[m] = x.T.mk("epoch", m, 0, nil, l.Header.Instrs[0], ctx)
	}
	for f := range st.facts {
		if x.owned(f, l, ctx) {
			delete(st.facts, f)
		}
	}
	for lv, lo := range lows {
		st.facts[x.T.mk("bin", "<", 0, types.Typ[types.Bool], nil, nil, lv, x.T.Int(lo))] = false
	}
	// lower bounds of counting loops
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if st.env[ph] == nil || st.env[ph].Op != "loopvar" {
			continue
		}
		if lo, ok := inductionLow(ph, l); ok {
			// not (lv < lo)
			st.facts[x.T.mk("bin", "<", 0, types.Typ[types.Bool], nil, nil, st.env[ph], x.T.Int(lo))] = false
		}
	}
}

func (x *Exec) invariantPhi(ph *ssa.Phi, l *Loop) bool {
	// every edge from inside carries the phi itself
	for i, p := range l.Header.Preds {
		if l.Blocks[p] && ph.Edges[i] != ssa.Value(ph) {
			return false
		}
	}
	return true
}

func inductionLow(ph *ssa.Phi, l *Loop) (int64, bool) {
	lo := int64(0)
	have := false
	for i, p := range l.Header.Preds {
		e := ph.Edges[i]
		if !l.Blocks[p] {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
				return 0, false
			}
			v, _ := constant.Int64Val(c.Value)
			if !have || v < lo {
				lo = v
			}
			have = true
			continue
		}
		if e == ssa.Value(ph) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(ph) {
			return 0, false
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil || constant.Sign(c.Value) < 0 || c.Value.Kind() != constant.Int {
			return 0, false
		}
	}
	return lo, have
}

// modded: a memory cell may be changed by code with the given effects.
func (x *Exec) modded(k *Term, mods map[string]bool, fr *frame) bool {
	root := rootTerm(k)
	if root.Op == "alloc" {
		al := root.Site.(*ssa.Alloc)
		if al.Parent() == fr.fn && mods["alloc:"+al.Name()] && k == root {
			if _, ok := deref(al.Type()).Underlying().(*types.Struct); !ok {
				return true
			}
		}
		if !al.Heap && al.Parent() != fr.fn {
			return false
		}
		if !al.Heap && !mods["alloc:"+al.Name()] {
			return false
		}
	}
	switch k.Op {
	case "faddr":
		if mods[cellKey(k)] {
			return true
		}
		return x.moddedParent(k.A[0], mods, fr)
	case "iaddr", "mcell":
		return mods[cellKey(k)]
	case "global":
		return mods["global:"+k.Aux.(*ssa.Global).String()]
	default:
		t := elemType(k)
		if t == nil {
			return false
		}
		if _, ok := t.Underlying().(*types.Struct); ok {
			return false
		}
		return mods["deref:"+t.String()]
	}
}

func (x *Exec) moddedParent(k *Term, mods map[string]bool, fr *frame) bool {
	if k.Op == "faddr" {
		return mods[cellKey(k)]
	}
	return false
}

func (x *Exec) localOnly(k *Term, l *Loop, mods map[string]bool, fr *frame) bool {
	root := rootTerm(k)
	if root.Op != "alloc" {
		return false
	}
	al := root.Site.(*ssa.Alloc)
	if al.Heap {
		return false
	}
	return al.Parent() != fr.fn || !mods["alloc:"+al.Name()]
}

func rootTerm(k *Term) *Term {
	for {
		switch k.Op {
		case "faddr":
			k = k.A[0]
		case "iaddr":
			if k.A[0].Op == "slice" {
				return k
			}
			k = k.A[0]
		case "mcell":
			k = k.A[0]
		default:
			return k
		}
	}
}

func elemType(k *Term) types.Type {
	if k.T == nil {
		return nil
	}
	if p, ok := k.T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func cellKey(k *Term) string {
	switch k.Op {
	case "faddr":
		st := k.Aux.(*types.Struct)
		base := elemType(k.A[0])
		if base == nil {
			return st.Field(k.N).Name()
		}
		return fieldKey(base, st, k.N)
	case "iaddr":
		return "elem:" + elemType(k).String()
	case "mcell":
		return "map:" + k.A[0].T.Underlying().String()
	case "global":
		return "global:" + k.Aux.(*ssa.Global).String()
	}
	if t := elemType(k); t != nil {
		return "deref:" + t.String()
	}
	return "?"
}

type callAt struct {
	site ssa.Instruction
	ctx  *Ctx
}

// gc drops cells and facts about objects that are no longer reachable.
func (x *Exec) gc(fr *frame, st *State, extra []*Term) {
	reach := map[*Term]bool{}
	calls := map[callAt]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		if t.Op == "call" {
			calls[callAt{t.Site, t.Ctx}] = true
		}
		for _, a := range t.A {
			mark(a)
		}
	}
	for _, t := range st.env {
		mark(t)
	}
	for _, t := range fr.roots {
		mark(t)
	}
	for _, t := range extra {
		mark(t)
	}
	for _, d := range st.defers {
		for _, a := range d.args {
			mark(a)
		}
		if d.fn != nil {
			mark(d.fn)
		}
	}
	for changed := true; changed; {
		changed = false
		for k, v := range st.heap {
			r := rootTerm(k)
			if (r.Op != "alloc" && r.Op != "makemap") || reach[r] {
				if !reach[v] {
					mark(v)
					changed = true
				}
			}
		}
	}
	for k := range st.heap {
		r := rootTerm(k)
		if (r.Op == "alloc" || r.Op == "makemap") && !reach[r] {
			delete(st.heap, k)
		}
	}
	for f := range st.facts {
		if x.cfg.Fact != nil && x.cfg.Fact(f) == 1 {
			continue
		}
		dead := f.any(func(t *Term) bool {
			switch t.Op {
			case "call":
				return !calls[callAt{t.Site, t.Ctx}] // another result of the same call may live on
			case "loopvar", "alloc", "havoc", "makemap", "next", "untracked":
				return !reach[t]
			}
			return false
		})
		if dead {
			delete(st.facts, f)
		}
	}
}

// ---- blocks

func (x *Exec) block(fr *frame, st *State, b *ssa.BasicBlock, start int) {
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.nInstr++
		if x.fail != "" {
			return
		}
		if x.cfg.OnInstr != nil {
			x.cfg.OnInstr(st, fr, in)
		}
		switch v := in.(type) {
		case *ssa.Phi:
			continue // first block only
		case *ssa.If:
			x.branch(fr, st, b, v)
			return
		case *ssa.Jump:
			x.enter(fr, st, b, b.Succs[0])
			return
		case *ssa.Return:
			var rets []*Term
			for _, r := range v.Results {
				rets = append(rets, x.val(st, r))
			}
			fr.out = append(fr.out, Outcome{st: st, rets: rets, kind: "return", at: v})
			return
		case *ssa.Panic:
			fr.out = append(fr.out, Outcome{st: st, rets: []*Term{x.val(st, v.X)}, kind: "panic", at: v})
			return
		case *ssa.Call:
			outs := x.call(fr, st, v, false)
			x.resume(fr, outs, v, b, i)
			return
		case *ssa.Defer:
			ev := x.mkEvent(fr, st, v)
			ev.Defer = true
			st.defers = append(st.defers, deferRec{in: v, fn: ev.Fun, args: ev.Args, meth: v.Call.IsInvoke()})
			if x.cfg.OnCall != nil {
				x.cfg.OnCall(ev)
			}
		case *ssa.RunDefers:
			outs := x.runDefers(fr, st)
			seen := map[string]bool{}
			for _, o := range outs {
				if o.kind != "return" {
					fr.out = append(fr.out, o)
					continue
				}
				k := x.key(fr, o.st, fr.fi.liveAt[v])
				if seen[k] {
					continue
				}
				seen[k] = true
				x.block(fr, o.st, b, i+1)
			}
			return
		case *ssa.Store:
			x.store(st, x.val(st, v.Addr), x.val(st, v.Val), v)
		case *ssa.MapUpdate:
			x.mapUpdate(st, x.val(st, v.Map), x.val(st, v.Key), x.val(st, v.Value), v)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			// no concurrency in the analysed code; rules that care reject it
			x.undecided("%s: concurrency construct in %s", x.P.instrPos(in), fr.fn)
			return
		default:
			x.simple(fr, st, in)
		}
	}
}

func (x *Exec) resume(fr *frame, outs []Outcome, v *ssa.Call, b *ssa.BasicBlock, i int) {
	live := fr.fi.liveAt[v]
	seen := map[string]bool{}
	for _, o := range outs {
		if o.kind != "return" {
			fr.out = append(fr.out, o)
			continue
		}
		for ev := range o.st.env {
			if !live[ev] {
				delete(o.st.env, ev)
			}
		}
		if live[v] {
			o.st.env[v] = x.tuple(v.Type(), o.rets)
		}
		if len(outs) > 1 {
			x.gc(fr, o.st, nil)
			k := x.key(fr, o.st, live)
			if seen[k] {
				continue
			}
			seen[k] = true
			gk := fmt.Sprintf("%d.%d|%s", b.Index, i, k)
			if fr.seen[gk] {
				continue
			}
			fr.seen[gk] = true
		}
		x.block(fr, o.st, b, i+1)
	}
}

func (x *Exec) tuple(t types.Type, rets []*Term) *Term {
	if tt, ok := t.(*types.Tuple); ok {
		if tt.Len() == 0 {
			return x.T.nilT()
		}
		return x.T.mk("tuple", nil, 0, t, nil, nil, rets...)
	}
	if len(rets) == 1 {
		return rets[0]
	}
	return x.T.nilT()
}

func (x *Exec) branch(fr *frame, st *State, b *ssa.BasicBlock, v *ssa.If) {
	c := x.val(st, v.Cond)
	val, known := x.decide(st, c)
	if known {
		if val {
			x.enter(fr, st, b, b.Succs[0])
		} else {
			x.enter(fr, st, b, b.Succs[1])
		}
		return
	}
	pos := x.P.instrPos(v)
	for i, bv := range []bool{true, false} {
		ns := st
		if i == 0 {
			ns = st.clone()
		}
		if !c.blur {
			ns.step(fmt.Sprintf("%s %s is %v", pos, c, bv))
		}
		x.assume(ns, c, bv, v)
		x.enter(fr, ns, b, b.Succs[i])
	}
}

// ---- conditions

// norm turns a boolean term into an atom and a polarity.
func (x *Exec) norm(t *Term) (*Term, bool) {
	pol := true
	for {
		switch {
		case t.Op == "un" && t.Aux == "!":
			pol = !pol
			t = t.A[0]
			continue
		case t.Op == "bin":
			a, b := t.A[0], t.A[1]
			bt := types.Typ[types.Bool]
			switch t.Aux.(string) {
			case "!=":
				t = x.bin("==", a, b, bt)
				pol = !pol
				continue
			case ">":
				t = x.bin("<", b, a, bt)
				continue
			case ">=":
				t = x.bin("<", a, b, bt)
				pol = !pol
				continue
			case "<=":
				t = x.bin("<", b, a, bt)
				pol = !pol
				continue
			case "==":
				// bool comparisons
				if a.isConst() && a.cv().Kind() == constant.Bool {
					a, b = b, a
				}
				if b.isConst() && b.cv().Kind() == constant.Bool {
					if !constant.BoolVal(b.cv()) {
						pol = !pol
					}
					t = a
					continue
				}
				// empty string
				if a.isConst() && a.cv().Kind() == constant.String {
					a, b = b, a
				}
				if b.isConst() && b.cv().Kind() == constant.String && constant.StringVal(b.cv()) == "" && !a.isConst() {
					t = x.bin("==", x.T.mk("len", nil, 0, types.Typ[types.Int], nil, nil, a), x.T.Int(0), bt)
					continue
				}
				if a.isConst() || a.isNil() || (!b.isConst() && !b.isNil() && b.id < a.id) {
					a, b = b, a
				}
				n := x.T.mk("bin", "==", 0, bt, nil, nil, a, b)
				if n == t {
					return t, pol
				}
				t = n
				continue
			}
		}
		return t, pol
	}
}

func (x *Exec) decide(st *State, c *Term) (val, known bool) {
	a, pol := x.norm(c)
	if a.isConst() && a.cv().Kind() == constant.Bool {
		return constant.BoolVal(a.cv()) == pol, true
	}
	if a.blur {
		if a.Op == "bin" && a.Aux == "==" && a.A[1].isNil() && x.nonNil(st, a.A[0]) {
			return !pol, true
		}
		return false, false
	}
	if v, ok := st.facts[a]; ok {
		return v == pol, true
	}
	if a.Op == "bin" {
		l, r := a.A[0], a.A[1]
		switch a.Aux.(string) {
		case "==":
			if l == r {
				return pol, true
			}
			if l.isConst() && r.isConst() {
				return constant.Compare(l.cv(), token.EQL, r.cv()) == pol, true
			}
			if r.isNil() && x.nonNil(st, l) {
				return !pol, true
			}
			if r.isNil() && l.isNil() {
				return pol, true
			}
			if r.isConst() {
				// another constant is known to be equal
				for f, v := range st.facts {
					if v && f.Op == "bin" && f.Aux == "==" && f.A[0] == l && f.A[1].isConst() && f.A[1].cv().Kind() == r.cv().Kind() {
						return constant.Compare(f.A[1].cv(), token.EQL, r.cv()) == pol, true
					}
				}
				if isNum(r) {
					lo, hi := x.interval(st, l)
					v := r.cv()
					if (lo != nil && constant.Compare(v, token.LSS, lo)) || (hi != nil && constant.Compare(v, token.GTR, hi)) {
						return !pol, true
					}
					if lo != nil && hi != nil && constant.Compare(lo, token.EQL, hi) && constant.Compare(lo, token.EQL, v) {
						return pol, true
					}
				}
			}
		case "<":
			if l == r {
				return !pol, true
			}
			llo, lhi := x.interval(st, l)
			rlo, rhi := x.interval(st, r)
			if lhi != nil && rlo != nil && constant.Compare(lhi, token.LSS, rlo) {
				return pol, true
			}
			if llo != nil && rhi != nil && constant.Compare(llo, token.GEQ, rhi) {
				return !pol, true
			}
			// t < t+c
			if isIntT(l.T) {
				lb, lc := splitAdd(l)
				rb, rc := splitAdd(r)
				if lb == rb {
					return (lc < rc) == pol, true
				}
				// facts of the shape (lb+i < rb+j) or not
				for f, v := range st.facts {
					if f.Op != "bin" || f.Aux != "<" {
						continue
					}
					fb, fc := splitAdd(f.A[0])
					gb, gc := splitAdd(f.A[1])
					if v && fb == lb && gb == rb {
						// fb+fc < gb+gc  =>  lb+lc < rb+rc when lc-rc <= fc-gc
						if lc-rc <= fc-gc {
							return pol, true
						}
					}
					if v && fb == rb && gb == lb {
						// rb+fc < lb+gc, i.e. lb > rb+fc-gc, lb >= rb+fc-gc+1; l<r false when lb+lc >= rb+rc
						if fc-gc+1+lc >= rc {
							return !pol, true
						}
					}
					if !v && fb == lb && gb == rb {
						// lb+fc >= rb+gc ; l<r false when lb+lc>=rb+rc: lb >= rb+gc-fc
						if gc-fc+lc >= rc {
							return !pol, true
						}
					}
					if !v && fb == rb && gb == lb {
						// rb+fc >= lb+gc : lb <= rb+fc-gc ; l<r when lb+lc < rb+rc : fc-gc+lc < rc
						if fc-gc+lc < rc {
							return pol, true
						}
					}
				}
			}
		}
	}
	return false, false
}

func isIntT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func splitAdd(t *Term) (*Term, int64) {
	if t.isConst() && t.cv().Kind() == constant.Int {
		v, ok := constant.Int64Val(t.cv())
		if ok {
			return nil, v
		}
	}
	if t.Op == "bin" && (t.Aux == "+" || t.Aux == "-") && isIntT(t.T) {
		if c := t.A[1]; c.isConst() && c.cv().Kind() == constant.Int {
			v, _ := constant.Int64Val(c.cv())
			if t.Aux == "-" {
				v = -v
			}
			b, o := splitAdd(t.A[0])
			return b, o + v
		}
		if c := t.A[0]; t.Aux == "+" && c.isConst() && c.cv().Kind() == constant.Int {
			v, _ := constant.Int64Val(c.cv())
			b, o := splitAdd(t.A[1])
			return b, o + v
		}
	}
	return t, 0
}

func isNum(t *Term) bool {
	return t.isConst() && (t.cv().Kind() == constant.Int || t.cv().Kind() == constant.Float)
}

// interval: bounds of a numeric term that follow from constants and facts.
func (x *Exec) interval(st *State, t *Term) (lo, hi constant.Value) {
	return x.intervalD(st, t, 0)
}

func (x *Exec) intervalD(st *State, t *Term, d int) (lo, hi constant.Value) {
	if isNum(t) {
		return t.cv(), t.cv()
	}
	if t.Op == "len" {
		lo = constant.MakeInt64(0)
	}
	tighten := func(nlo, nhi constant.Value) {
		if nlo != nil && (lo == nil || constant.Compare(nlo, token.GTR, lo)) {
			lo = nlo
		}
		if nhi != nil && (hi == nil || constant.Compare(nhi, token.LSS, hi)) {
			hi = nhi
		}
	}
	isInt := isIntT(t.T)
	one := constant.MakeInt64(1)
	var neqs []constant.Value
	for f, v := range st.facts {
		if f.Op != "bin" {
			continue
		}
		a, b := f.A[0], f.A[1]
		switch f.Aux.(string) {
		case "==":
			if a == t && isNum(b) {
				if v {
					tighten(b.cv(), b.cv())
				} else {
					neqs = append(neqs, b.cv())
				}
			}
		case "<":
			if a == t && isNum(b) { // t < b or t >= b
				if v {
					h := b.cv()
					if isInt && h.Kind() == constant.Int {
						h = constant.BinaryOp(h, token.SUB, one)
					}
					tighten(nil, h)
				} else {
					tighten(b.cv(), nil)
				}
			}
			if b == t && isNum(a) { // a < t or a >= t
				if v {
					l := a.cv()
					if isInt && l.Kind() == constant.Int {
						l = constant.BinaryOp(l, token.ADD, one)
					}
					tighten(l, nil)
				} else {
					tighten(nil, a.cv())
				}
			}
		}
	}
	if isInt {
		for i := 0; i < 3; i++ {
			for _, n := range neqs {
				if lo != nil && constant.Compare(lo, token.EQL, n) {
					lo = constant.BinaryOp(lo, token.ADD, one)
				}
				if hi != nil && constant.Compare(hi, token.EQL, n) {
					hi = constant.BinaryOp(hi, token.SUB, one)
				}
			}
		}
		if b, c := splitAdd(t); b != nil && b != t && d < 3 {
			l2, h2 := x.intervalD(st, b, d+1)
			cc := constant.MakeInt64(c)
			if l2 != nil {
				tighten(constant.BinaryOp(l2, token.ADD, cc), nil)
			}
			if h2 != nil {
				tighten(nil, constant.BinaryOp(h2, token.ADD, cc))
			}
		}
	}
	return
}

func (x *Exec) nonNil(st *State, t *Term) bool {
	switch t.Op {
	case "alloc", "faddr", "iaddr", "func", "closure", "iface", "global", "makemap", "makeslice", "list", "slicelit":
		return true
	case "append":
		return t.N == 1
	case "slice":
		return t.A[0].Op == "alloc"
	case "pcall", "call":
		if f, ok := t.Aux.(*ssa.Function); ok {
			switch fullName(f) {
			case "fmt.Errorf", "errors.New", "regexp.MustCompile", "math/rand.New", "math/rand.NewSource":
				return true
			}
			if _, isVar, ok := flagDecl(f); ok && !isVar {
				return true
			}
		}
	}
	for f, v := range st.facts {
		if f.Op == "bin" && f.Aux == "==" && f.A[0] == t && f.A[1].isNil() {
			return !v
		}
		// a non-zero length
		if f.Op == "bin" && f.A[0].Op == "len" && f.A[0].A[0] == t {
			if lo, _ := x.interval(st, f.A[0]); lo != nil && constant.Sign(lo) > 0 {
				return true
			}
		}
	}
	return false
}

func (x *Exec) assume(st *State, c *Term, val bool, at ssa.Instruction) {
	a, pol := x.norm(c)
	v := val == pol
	if x.cfg.OnFact != nil {
		x.cfg.OnFact(st, a, v, at)
	}
	if a.blur || x.cfg.Fact != nil && x.cfg.Fact(a) < 0 {
		return
	}
	st.facts[a] = v
}

func (x *Exec) holds(st *State, c *Term) bool {
	v, ok := x.decide(st, c)
	return ok && v
}

func (x *Exec) bin(op string, a, b *Term, t types.Type) *Term {
	if a.isConst() && b.isConst() {
		if v := foldBin(op, a.cv(), b.cv(), t); v != nil {
			return x.T.cst(v, t)
		}
	}
	if a.isNil() && b.isNil() {
		if op == "==" {
			return x.T.Bool(true)
		}
		if op == "!=" {
			return x.T.Bool(false)
		}
	}
	return x.T.mk("bin", op, 0, t, nil, nil, a, b)
}

var opTok = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM,
	"==": token.EQL, "!=": token.NEQ, "<": token.LSS, ">": token.GTR, "<=": token.LEQ, ">=": token.GEQ, "&": token.AND, "|": token.OR, "&^": token.AND_NOT, "^": token.XOR}

func foldBin(op string, a, b constant.Value, t types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	tk, ok := opTok[op]
	if !ok {
		return nil
	}
	switch tk {
	case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
		return constant.MakeBool(constant.Compare(a, tk, b))
	case token.QUO:
		if constant.Sign(b) == 0 {
			return nil
		}
		if isIntT(t) {
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
	}
	return constant.BinaryOp(a, tk, b)
}

func isSliceT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
