package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lin: a sum of terms with integer factors.
type lin struct {
	c  int64
	m  map[string]int64
	ts map[string]*Term
}

func linear(t *Term, name func(*Term) string) *lin {
	r := &lin{m: map[string]int64{}, ts: map[string]*Term{}}
	r.add(t, 1, name)
	for k, v := range r.m {
		if v == 0 {
			delete(r.m, k)
			delete(r.ts, k)
		}
	}
	return r
}

func (r *lin) add(t *Term, f int64, name func(*Term) string) {
	for t.Op == "conv" || t.Op == "iface" {
		t = t.A[0]
	}
	if t.isConst() && t.cv().Kind() == constant.Int {
		k, _ := constant.Int64Val(t.cv())
		r.c += f * k
		return
	}
	if t.Op == "bin" {
		switch t.Aux {
		case "+":
			r.add(t.A[0], f, name)
			r.add(t.A[1], f, name)
			return
		case "-":
			r.add(t.A[0], f, name)
			r.add(t.A[1], -f, name)
			return
		case "*":
			for i := 0; i < 2; i++ {
				if k, ok := intConst(t.A[i]); ok {
					r.add(t.A[1-i], f*k, name)
					return
				}
			}
		case "<<":
			if k, ok := intConst(t.A[1]); ok && k >= 0 && k < 31 {
				r.add(t.A[0], f<<uint(k), name)
				return
			}
		}
	}
	n := ""
	if name != nil {
		n = name(t)
	}
	if n == "" {
		n = fmt.Sprintf("#%d", t.id)
	}
	r.m[n] += f
	r.ts[n] = t
}

func (r *lin) String() string {
	var s []string
	for k, v := range r.m {
		s = append(s, fmt.Sprintf("%d*%s", v, k))
	}
	sort.Strings(s)
	return strings.Join(append(s, fmt.Sprint(r.c)), "+")
}

func (r *lin) minus(o *lin) *lin {
	q := &lin{c: r.c - o.c, m: map[string]int64{}, ts: map[string]*Term{}}
	for k, v := range r.m {
		q.m[k] += v
		q.ts[k] = r.ts[k]
	}
	for k, v := range o.m {
		q.m[k] -= v
		q.ts[k] = o.ts[k]
	}
	for k, v := range q.m {
		if v == 0 {
			delete(q.m, k)
		}
	}
	return q
}

func (g *regenRun) count(t *Term) string {
	o, n, b, ok := fieldRead(t)
	switch {
	case ok && o == "Regexp" && strip(b) == g.args && (n == "Min" || n == "Max"):
		return n
	case ok && o == "GeneratorArgs" && (n == "MinUnboundedRepeatCount" || n == "MaxUnboundedRepeatCount"):
		return n
	}
	return ""
}

func (g *regenRun) repeat(st *State, items []rItem, at ssa.Instruction, fail func(string, string, ...interface{})) {
	unbounded := func(field string) bool {
		for a, v := range st.facts {
			l, e, ok := eqOperands(a)
			if ok && v && (g.own(l, field) || g.own(e, field)) {
				for _, q := range []*Term{l, e} {
					if k, isC := intConst(q); isC && k == -1 {
						return true
					}
				}
			}
		}
		return false
	}
	lo, hi := "", ""
	switch g.op {
	case "Quest":
		lo, hi = "0", "1"
	case "Plus":
		lo, hi = "1", "1*MaxUnboundedRepeatCount+0"
	case "Star":
		lo, hi = "1*MinUnboundedRepeatCount+0", "1*MaxUnboundedRepeatCount+0"
	case "Repeat":
		lo, hi = "1*Min+0", "1*Max+0"
		if unbounded("Min") {
			lo = "1*MinUnboundedRepeatCount+0"
		}
		if unbounded("Max") {
			hi = "1*MaxUnboundedRepeatCount+0"
		}
	}
	if len(items) == 0 {
		if lo != "0" {
			fail("count", "a repetition that is not optional emits nothing")
		}
		return
	}
	if len(items) == 1 && g.single(items[0]) {
		if g.op != "Quest" {
			fail("count", "a repetition emits a single value")
		}
		return
	}
	if len(items) != 1 || items[0].loop == "" {
		fail("count", "a repetition does not emit its sub-pattern again and again")
		return
	}
	its, why := g.rounds(st, items[0])
	if why != "" {
		fail("count", "%s", why)
		return
	}
	for _, it := range its {
		if len(it) != 1 || !g.single(it[0]) {
			g.bad("round", at, "a round of a repetition emits %s instead of one value of its sub-pattern", g.show(it))
			return
		}
	}
	b := g.bnds[items[0].loop]
	if b == nil {
		fail("count", "the number of rounds of a repetition is not known")
		return
	}
	n := linear(b, g.count)
	var drawn *Term
	for k, t := range n.ts {
		if d, off := g.draw(t); d != nil && off == 0 && n.m[k] == 1 && drawn == nil {
			drawn = d
			delete(n.m, k)
			delete(n.ts, k)
		}
	}
	if drawn == nil {
		fail("count", "the number of rounds %s of a repetition is not drawn", b)
		return
	}
	if n.String() != lo {
		fail("count", "a repetition is emitted at least %s times, not %s", n, lo)
		return
	}
	d := linear(drawn, g.count)
	d.c-- // the largest draw
	top := d.minus(&lin{c: -n.c, m: neg(n.m), ts: n.ts})
	if top.String() != hi {
		fail("count", "a repetition is emitted at most %s times, not %s", top, hi)
	}
}

func neg(m map[string]int64) map[string]int64 {
	o := map[string]int64{}
	for k, v := range m {
		o[k] = -v
	}
	return o
}

const minusInf = int64(-1) << 62

// low: a lower bound of an offset.
func (g *regenRun) low(st *State, t *Term) int64 {
	t = g.unconv(t)
	if k, ok := intConst(t); ok {
		return k
	}
	if n, off := g.draw(t); n != nil {
		return off
	}
	if t.Op == "bin" && t.Aux == "+" {
		a, b := g.low(st, t.A[0]), g.low(st, t.A[1])
		if a == minusInf || b == minusInf {
			return minusInf
		}
		return a + b
	}
	if s := g.ints[t]; s != nil && !s.busy {
		s.busy = true
		defer func() { s.busy = false }()
		l := g.low(st, s.init)
		if l < 0 {
			return minusInf
		}
		for _, n := range s.nexts {
			v := g.unconv(n.t)
			// what is taken off was found to be no more than what is left
			if v.Op == "bin" && v.Aux == "-" && g.unconv(v.A[0]) == t {
				if is, known := g.x.decide(n.st, g.x.bin("<", v.A[0], v.A[1], types.Typ[types.Bool])); known && !is {
					l = 0
					continue
				}
			}
			if m := g.low(n.st, v); m >= 0 {
				l = min(l, m)
				continue
			}
			return minusInf
		}
		return l
	}
	return minusInf
}

// atMost: the path compared a with b and found it smaller.
func (g *regenRun) less(st *State, a, b *Term) bool {
	is, known := g.x.decide(st, g.x.bin("<", a, b, types.Typ[types.Bool]))
	return known && is
}

// runeFields: the range a character is taken from: the fields that hold its first character and its size.
func (g *regenRun) char(st *State, items []rItem, at ssa.Instruction, fail func(string, string, ...interface{})) {
	if len(items) != 1 || items[0].t == nil || items[0].t.Op != "rune" {
		fail("char", "a construct that stands for one character does not emit one character")
		return
	}
	r := g.unconv(items[0].t.A[0])
	switch g.op {
	case "AnyChar":
		return
	case "AnyCharNotNL":
		if lo := g.low(st, r); lo <= '\n' {
			// a newline has to be told apart
			for a, v := range st.facts {
				l, e, ok := eqOperands(a)
				if k, isC := intConst(e); ok && !v && isC && k == '\n' && g.unconv(l) == r {
					return
				}
			}
			fail("char", "the character may be a line feed")
		}
		return
	}
	// an offset into one of the ranges
	if r.Op != "bin" || r.Aux != "+" {
		fail("char", "the character is not taken from one of the ranges")
		return
	}
	for i := 0; i < 2; i++ {
		start, off := g.unconv(r.A[i]), g.unconv(r.A[1-i])
		_, sn, sb, ok := fieldRead(start)
		if !ok || g.ranged(sb) == nil {
			continue
		}
		if g.low(st, off) < 0 {
			fail("char", "the offset %s into a range may be negative", off)
			return
		}
		for a := range st.facts {
			if a.Op != "bin" || len(a.A) != 2 {
				continue
			}
			l, e := g.unconv(a.A[0]), g.unconv(a.A[1])
			if l != off {
				l, e = e, l
			}
			if l != off || !g.less(st, l, e) {
				continue
			}
			_, zn, zb, ok := fieldRead(e)
			if !ok || strip(zb) != strip(sb) {
				continue
			}
			if why := g.ranges(st, g.ranged(sb), sn, zn); why != "" {
				fail("ranges", "%s", why)
			}
			return
		}
		fail("char", "the offset %s was not compared with the size of the range it is used in", off)
		return
	}
	fail("char", "the character is not taken from one of the ranges")
}

// ranged: the list of ranges a range is taken from.
func (g *regenRun) ranged(b *Term) *Term {
	b = strip(b)
	if b.Op == "iaddr" {
		return strip(b.A[0])
	}
	if c, ok := elemOf(b); ok {
		return strip(c)
	}
	return nil
}

// ranges: every range in the list spans one pair of the class's characters.
func (g *regenRun) ranges(st *State, l *Term, start, size string) string {
	its := g.acc.iters[l]
	if len(its) == 0 {
		return "the ranges " + l.String() + " are not built from the characters of the class"
	}
	pair := func(t *Term) (*lin, bool) {
		c, ok := elemOf(g.unconv(t))
		if !ok || !g.own(c, "Rune") {
			return nil, false
		}
		t = g.unconv(t)
		if t.Op != "load" && t.Op != "sload" || t.A[0].Op != "iaddr" {
			return nil, false
		}
		return linear(t.A[0].A[1], nil), true
	}
	for _, it := range its {
		if it.reset {
			return "ranges found before are dropped"
		}
		if len(it.added) == 0 {
			continue // the range only has characters that are never generated
		}
		for _, pc := range it.added {
			if pc.Op != "list" {
				return "it adds " + pc.String()
			}
			for _, e := range pc.A {
				s, z := g.member(it.st, e, start), g.member(it.st, e, size)
				if s == nil || z == nil {
					return "a range without a start and a size is added"
				}
				// size - 1 + start is the last character
				last := linear(g.x.bin("+", g.unconv(z), g.unconv(s), types.Typ[types.Int32]), nil)
				last.c--
				if len(last.m) != 1 || last.c != 0 {
					return fmt.Sprintf("a range does not end at the character given: it starts at %s and has %s characters", s, z)
				}
				var end *lin
				for k, t := range last.ts {
					if q, ok := pair(t); ok && last.m[k] == 1 {
						end = q
					}
				}
				if end == nil {
					return fmt.Sprintf("a range does not end at a character of the class: it starts at %s and has %s characters", s, z)
				}
				if k, isC := intConst(g.unconv(s)); isC {
					// the null character is left out
					ok := false
					for a, v := range it.st.facts {
						p, e, isE := eqOperands(a)
						if isE && v && k == 1 {
							if q, isP := pair(p); isP && isZeroC(e) && end.minus(q).String() == "1" {
								ok = true
							}
						}
					}
					if !ok {
						return fmt.Sprintf("a range starts at %d whatever the class says", k)
					}
					continue
				}
				q, ok := pair(s)
				if !ok {
					return fmt.Sprintf("a range starts at %s, which is no character of the class", s)
				}
				if end.minus(q).String() != "1" {
					return fmt.Sprintf("a range starts and ends at characters that are no pair (positions %s and %s)", q, end)
				}
				even := q.c%2 == 0
				for _, v := range q.m {
					if v%2 != 0 {
						even = even && g.step2(it.loop)
					}
				}
				if !even {
					return fmt.Sprintf("a range starts at the second character of a pair (position %s)", q)
				}
			}
		}
	}
	return ""
}

// step2: the loop goes over the characters two at a time.
func (g *regenRun) step2(l *Loop) bool {
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, e := range ph.Edges {
			if bo, ok := e.(*ssa.BinOp); ok && bo.X == ph {
				if c, ok := bo.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "2" {
					return true
				}
			}
		}
	}
	return false
}

func (g *regenRun) member(st *State, v *Term, name string) *Term {
	if v.T == nil {
		return nil
	}
	s, ok := deref(v.T).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			if _, isP := v.T.Underlying().(*types.Pointer); isP {
				return g.x.load(st, g.x.faddr(v, s, i))
			}
			return g.x.field(v, s, i)
		}
	}
	return nil
}

// regenHandlers: what a group emits unless told otherwise is the value of its sub-pattern.
func regenHandlers(r *R, pkg *ssa.Package) {
	p := r.p
	for _, f := range p.Funcs {
		if f.Pkg != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() != "CaptureGroupHandler" {
					continue
				}
				v := s.Val
				if c, ok := v.(*ssa.ChangeType); ok {
					v = c.X
				}
				h, ok := v.(*ssa.Function)
				if !ok {
					continue
				}
				x := newExec(p, Config{})
				gr := &regenRun{p: p, r: r, x: x}
				x.cfg.OnCall = func(ev *CallEvent) bool { return gr.isGenerate(ev) }
				for _, o := range x.Root(h, nil) {
					if o.kind != "return" {
						continue
					}
					if q := gr.genOf(strip(o.rets[0])); q == nil || q.Op != "param" {
						r.bad("group", h.Name(), p.instrPos(o.at), "a group emits %s instead of a value of its own sub-pattern", o.rets[0])
					} else {
						r.ok("group", h.Name())
					}
				}
				r.exec(x, h.Name())
			}
		}
	}
}
