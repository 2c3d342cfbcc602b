package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C07", "Every loop of every function reachable from a Generate or Apply method must have, on every way round it, a test between a quantity that strictly advances with each round (a counter with a constant step, the length of a list that is appended to, a buffer that is written to, a range) and a bound that the loop does not change. The retry loops of not, oneOf, if and uniqueItems are interpreted with their helpers: the number of rounds is exactly ScaledRetryBudget of the option for that keyword (the plain option for uniqueItems). ScaledRetryBudget lies between one and its argument on every path.",
		"recursion between generators (bounded by C05 and C08); the time one round takes.", runC07)
}

// finite decides whether a loop has a bounded test on every way round it.
func (p *Prog) finite(fn *ssa.Function, l *Loop) (bool, string) {
	bounded := func(b, s *ssa.BasicBlock) bool {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || b.Succs[0] == b.Succs[1] {
			return false
		}
		return p.boundedTest(fn, l, iff.Cond, b.Succs[0] == s)
	}
	seen := map[*ssa.BasicBlock]bool{}
	var bad *ssa.BasicBlock
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		seen[b] = true
		for _, s := range b.Succs {
			if !l.Blocks[s] || bounded(b, s) {
				continue
			}
			if s == l.Header {
				bad = b
				return true
			}
			if !seen[s] && walk(s) {
				return true
			}
		}
		return false
	}
	if walk(l.Header) {
		return false, "there is a way round the loop, ending at " + p.instrPos(bad.Instrs[len(bad.Instrs)-1]) + ", without a test of an advancing quantity against a fixed bound"
	}
	return true, ""
}

func (p *Prog) boundedTest(fn *ssa.Function, l *Loop, cond ssa.Value, val bool) bool {
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return p.boundedTest(fn, l, c.X, !val)
		}
	case *ssa.Extract:
		if n, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && val {
			r, ok := n.Iter.(*ssa.Range)
			return ok && !l.Blocks[r.Block()]
		}
	case *ssa.Phi:
		// && and ||: the value is decided by the edge; handled where the condition is computed
		return false
	case *ssa.BinOp:
		op := c.Op
		x, y := c.X, c.Y
		if q := nonEmptyTest(c, val); q != nil && p.shrinks(l, q) {
			return true
		}
		if !val {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			default:
				return false
			}
		}
		switch op {
		case token.LSS, token.LEQ:
			return p.advances(l, x, 1) && p.fixed(l, y) || p.advances(l, y, -1) && p.fixed(l, x)
		case token.GTR, token.GEQ:
			return p.advances(l, x, -1) && p.fixed(l, y) || p.advances(l, y, 1) && p.fixed(l, x)
		}
	}
	return false
}

// advances: v strictly grows (dir 1) or shrinks (dir -1) with every round of l.
func (p *Prog) advances(l *Loop, v ssa.Value, dir int) bool {
	switch w := v.(type) {
	case *ssa.Phi:
		if w.Block() != l.Header {
			return false
		}
		for i, pr := range l.Header.Preds {
			if !l.Blocks[pr] {
				continue
			}
			d, ok := p.minStep(w.Edges[i], w, dir, 0)
			if !ok || d <= 0 {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if w.Op == token.ADD || w.Op == token.SUB {
			if p.fixed(l, w.Y) && p.advances(l, w.X, dir) {
				return true
			}
			if w.Op == token.ADD && p.fixed(l, w.X) && p.advances(l, w.Y, dir) {
				return true
			}
		}
	case *ssa.Convert:
		return p.advances(l, w.X, dir)
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if ld, ok := w.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL && dir == 1 {
				return p.cellGrows(l, ld.X)
			}
			ph, ok := w.Call.Args[0].(*ssa.Phi)
			if !ok || ph.Block() != l.Header {
				return false
			}
			for i, pr := range l.Header.Preds {
				if !l.Blocks[pr] {
					continue
				}
				if !grows(ph.Edges[i], ph, dir, 0) {
					return false
				}
			}
			return true
		}
		if f := w.Call.StaticCallee(); f != nil && dir == 1 && f.Name() == "Len" && len(w.Call.Args) == 1 {
			switch fullName(f) {
			case "strings.Builder.Len", "bytes.Buffer.Len":
				return everyRound(l, func(in ssa.Instruction) bool {
					c, ok := in.(*ssa.Call)
					if !ok {
						return false
					}
					g := c.Call.StaticCallee()
					if g == nil || len(c.Call.Args) != 2 || c.Call.Args[0] != w.Call.Args[0] {
						return false
					}
					return (g.Name() == "Write" || g.Name() == "WriteString") && nonEmptyText(c.Call.Args[1], 0) || g.Name() == "WriteByte" || g.Name() == "WriteRune"
				})
			}
		}
	}
	return false
}

// nonEmptyTest: the condition holding (or not) means that the returned string or slice is not empty.
func nonEmptyTest(c *ssa.BinOp, val bool) ssa.Value {
	x, y, op := c.X, c.Y, c.Op
	if _, isC := x.(*ssa.Const); isC {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	k, ok := y.(*ssa.Const)
	if !ok || k.Value == nil {
		return nil
	}
	if !val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		default:
			return nil
		}
	}
	if k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "" && op == token.NEQ {
		return x
	}
	if k.Value.Kind() == constant.Int {
		call, ok := x.(*ssa.Call)
		if !ok {
			return nil
		}
		b, ok := call.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return nil
		}
		n, _ := constant.Int64Val(k.Value)
		if op == token.NEQ && n == 0 || op == token.GTR && n >= 0 || op == token.GEQ && n >= 1 {
			return call.Call.Args[0]
		}
	}
	return nil
}

// shrinks: every round of l cuts at least one element off v.
func (p *Prog) shrinks(l *Loop, v ssa.Value) bool {
	switch w := v.(type) {
	case *ssa.Phi:
		if w.Block() != l.Header {
			return false
		}
		for i, pr := range l.Header.Preds {
			if l.Blocks[pr] && !grows(w.Edges[i], w, -1, 0) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if w.Op != token.MUL || !p.fixed(l, w.X) {
			return false
		}
		cell := w.X
		cut := func(in ssa.Instruction) (bool, bool) { // is a store to the cell, cuts
			s, ok := in.(*ssa.Store)
			if !ok {
				return false, false
			}
			if s.Addr != cell && !(sameField(s.Addr, cell)) {
				return false, false
			}
			sl, ok := s.Val.(*ssa.Slice)
			if !ok {
				return true, false
			}
			ld, ok := sl.X.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || ld.X != cell && !sameField(ld.X, cell) {
				return true, false
			}
			if c, ok := sl.Low.(*ssa.Const); ok && sl.High == nil && c.Value != nil && constant.Sign(c.Value) > 0 {
				return true, true
			}
			return true, false
		}
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if is, c := cut(in); is && !c {
					return false
				}
			}
		}
		return everyRound(l, func(in ssa.Instruction) bool { is, c := cut(in); return is && c })
	}
	return false
}

// sameField: both addresses are the same field of the same unchanging base.
func sameField(a, b ssa.Value) bool {
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if !ok || !ok2 || x.Field != y.Field {
		return false
	}
	return x.X == y.X || sameLoad(x.X, y.X) || sameField(x.X, y.X)
}

// everyRound: some instruction that satisfies pred is executed on every way round the loop.
func everyRound(l *Loop, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool // reaches the header again without pred
	walk = func(b *ssa.BasicBlock) bool {
		seen[b] = true
		for _, in := range b.Instrs {
			if pred(in) {
				return false
			}
		}
		for _, s := range b.Succs {
			if s == l.Header {
				return true
			}
			if l.Blocks[s] && !seen[s] && walk(s) {
				return true
			}
		}
		return false
	}
	return !walk(l.Header)
}

// minStep: by how much v exceeds ph at least (in direction dir).
func (p *Prog) minStep(v ssa.Value, ph *ssa.Phi, dir, d int) (int64, bool) {
	if v == ssa.Value(ph) {
		return 0, true
	}
	if d > 8 {
		return 0, false
	}
	switch w := v.(type) {
	case *ssa.BinOp:
		if w.Op != token.ADD && w.Op != token.SUB {
			return 0, false
		}
		c, ok := w.Y.(*ssa.Const)
		x := w.X
		if !ok && w.Op == token.ADD {
			c, ok = w.X.(*ssa.Const)
			x = w.Y
		}
		if !ok || c.Value == nil {
			return 0, false
		}
		if c.Value.Kind() != constant.Int {
			return 0, false
		}
		s, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, false
		}
		if w.Op == token.SUB {
			s = -s
		}
		b, ok := p.minStep(x, ph, dir, d+1)
		return b + s*int64(dir), ok
	case *ssa.Phi:
		have := false
		var m int64
		for _, e := range w.Edges {
			if e == ssa.Value(w) {
				continue
			}
			s, ok := p.minStep(e, ph, dir, d+1)
			if !ok {
				return 0, false
			}
			if !have || s < m {
				m, have = s, true
			}
		}
		return m, have
	}
	return 0, false
}

// grows: the slice v is ph with at least one element more (or less).
func grows(v ssa.Value, ph ssa.Value, dir, d int) bool {
	n, ok := lenStep(v, ph, d)
	return ok && n*int64(dir) > 0
}

func lenStep(v ssa.Value, ph ssa.Value, d int) (int64, bool) {
	if v == ph {
		return 0, true
	}
	if d > 8 {
		return 0, false
	}
	switch w := v.(type) {
	case *ssa.Call:
		if f := w.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
			return lenStepCall(w, 0, ph, d)
		}
		b, ok := w.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(w.Call.Args) != 2 {
			return 0, false
		}
		s, ok := lenStep(w.Call.Args[0], ph, d+1)
		if !ok || s < 0 {
			return 0, false
		}
		if sl, ok := w.Call.Args[1].(*ssa.Slice); ok {
			if al, ok := sl.X.(*ssa.Alloc); ok {
				if at, ok := deref(al.Type()).Underlying().(*types.Array); ok && sl.Low == nil && sl.High == nil {
					return s + at.Len(), true
				}
			}
		}
		return s, true
	case *ssa.BinOp:
		if b, ok := w.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 || w.Op != token.ADD {
			return 0, false
		}
		for _, q := range [][2]ssa.Value{{w.X, w.Y}, {w.Y, w.X}} {
			if s, ok := lenStep(q[0], ph, d+1); ok && s >= 0 {
				if nonEmptyText(q[1], 0) {
					s++
				}
				return s, true
			}
		}
		return 0, false
	case *ssa.Extract:
		if c, ok := w.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && len(f.Blocks) > 0 {
				return lenStepCall(c, w.Index, ph, d)
			}
		}
		return 0, false
	case *ssa.UnOp:
		// the current contents of a variable
		if cell, ok := ph.(*cellBase); ok && w.Op == token.MUL && sameCell(w.X, cell.cell) && cell.fresh(w) {
			return 0, true
		}
		return 0, false
	case *ssa.Slice:
		// x[1:] or x[:len(x)-1]
		s, ok := lenStep(w.X, ph, d+1)
		if !ok || s > 0 {
			return 0, false
		}
		if c, ok := w.Low.(*ssa.Const); ok && w.High == nil && c.Value != nil {
			n, _ := constant.Int64Val(c.Value)
			return s - n, true
		}
		if b, ok := w.High.(*ssa.BinOp); ok && w.Low == nil && b.Op == token.SUB {
			if lc, ok := b.X.(*ssa.Call); ok {
				if bi, ok := lc.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && lc.Call.Args[0] == w.X {
					if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil {
						n, _ := constant.Int64Val(c.Value)
						return s - n, true
					}
				}
			}
		}
		return 0, false
	case *ssa.Phi:
		have := false
		var lo, hi int64
		for _, e := range w.Edges {
			if e == ssa.Value(w) {
				continue
			}
			s, ok := lenStep(e, ph, d+1)
			if !ok {
				return 0, false
			}
			if !have || s < lo {
				lo = s
			}
			if !have || s > hi {
				hi = s
			}
			have = true
		}
		if lo >= 0 {
			return lo, have
		}
		return hi, have && hi < 0
	}
	return 0, false
}

// nonEmptyText: text that has at least one character.
func nonEmptyText(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch w := v.(type) {
	case *ssa.Const:
		return w.Value != nil && w.Value.Kind() == constant.String && constant.StringVal(w.Value) != ""
	case *ssa.Convert:
		return nonEmptyText(w.X, d+1)
	case *ssa.BinOp:
		return w.Op == token.ADD && (nonEmptyText(w.X, d+1) || nonEmptyText(w.Y, d+1))
	case *ssa.Phi:
		for _, e := range w.Edges {
			if !nonEmptyText(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := w.Call.StaticCallee()
		if f == nil {
			return false
		}
		if strings.HasPrefix(fnPkgPath(f), "github.com/go-faker/faker") {
			return true // texts of the faker are never empty
		}
		if pk := fnPkgPath(f); pk == "strings" && (f.Name() == "TrimSpace" || f.Name() == "ToLower" || f.Name() == "ToUpper" || f.Name() == "Title" || f.Name() == "TrimSuffix" || f.Name() == "TrimRight") {
			return nonEmptyText(w.Call.Args[0], d+1)
		}
		n := 0
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(ret.Results) != 1 || !nonEmptyText(ret.Results[0], d+1) {
					return false
				}
				n++
			}
		}
		return n > 0
	}
	return false
}

// lenStepCall: the helper returns one of its arguments with elements added.
func lenStepCall(c *ssa.Call, idx int, ph ssa.Value, d int) (int64, bool) {
	f := c.Call.StaticCallee()
	for i, a := range c.Call.Args {
		if i >= len(f.Params) {
			break
		}
		if _, isS := a.Type().Underlying().(*types.Slice); !isS {
			continue
		}
		s, ok := lenStep(a, ph, d+1)
		if !ok || s < 0 {
			continue
		}
		have := false
		var lo int64
		all := true
		for _, b := range f.Blocks {
			ret, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !isR {
				continue
			}
			n, ok := lenStep(ret.Results[idx], f.Params[i], d+1)
			if !ok || n < 0 {
				all = false
				break
			}
			if !have || n < lo {
				lo, have = n, true
			}
		}
		if all && have {
			return s + lo, true
		}
	}
	return 0, false
}

// cellBase stands for the contents of a variable at the point of a store to it.
type cellBase struct {
	*ssa.Const
	cell ssa.Value
	at   *ssa.Store
}

func sameCell(a, b ssa.Value) bool { return a == b || sameField(a, b) }

// fresh: nothing may have changed the variable between this load and the store.
func (c *cellBase) fresh(ld *ssa.UnOp) bool {
	if ld.Block() != c.at.Block() {
		return false
	}
	on := false
	for _, in := range ld.Block().Instrs {
		if in == ssa.Instruction(ld) {
			on = true
			continue
		}
		if in == ssa.Instruction(c.at) {
			return on
		}
		if !on {
			continue
		}
		switch v := in.(type) {
		case *ssa.Store:
			if sameCell(v.Addr, c.cell) {
				return false
			}
		case ssa.CallInstruction:
			if touchesCell(v, c.cell) {
				return false
			}
		}
	}
	return false
}

// touchesCell: the call gets at the variable through an argument or a closure.
func touchesCell(c ssa.CallInstruction, cell ssa.Value) bool {
	if _, isB := c.Common().Value.(*ssa.Builtin); isB {
		return false
	}
	for _, a := range c.Common().Args {
		if sameCell(a, cell) {
			return true
		}
		if mc, ok := a.(*ssa.MakeClosure); ok && bindingOf(mc, cell) >= 0 {
			return true
		}
	}
	if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok && bindingOf(mc, cell) >= 0 {
		return true
	}
	return false
}

func bindingOf(mc *ssa.MakeClosure, cell ssa.Value) int {
	for i, b := range mc.Bindings {
		if b == cell {
			return i
		}
	}
	return -1
}

// cellStep: how the instruction changes the length of the slice held by the variable.
func (p *Prog) cellStep(in ssa.Instruction, cell ssa.Value, d int) (n int64, ok bool) {
	switch v := in.(type) {
	case *ssa.Store:
		if sameCell(v.Addr, cell) {
			return lenStep(v.Val, &cellBase{cell: cell, at: v}, 0)
		}
	case ssa.CallInstruction:
		if _, isD := in.(*ssa.Defer); isD || !touchesCell(v, cell) {
			return 0, !isD || !touchesCell(v, cell)
		}
		f := v.Common().StaticCallee()
		if f == nil || len(f.Blocks) == 0 || d > 4 {
			return 0, false
		}
		if mc, isM := v.Common().Value.(*ssa.MakeClosure); isM {
			return p.cellStepFn(f, f.FreeVars[bindingOf(mc, cell)], d+1)
		}
		for i, a := range v.Common().Args {
			if sameCell(a, cell) {
				return p.cellStepFn(f, f.Params[i], d+1)
			}
		}
		return 0, false
	}
	return 0, true
}

// onlyUsed: the variable is only loaded from, stored to and handed to calls and closures that are called.
func onlyUsed(cell ssa.Value) bool {
	refs := cell.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch v := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if v.Val == cell {
				return false
			}
		case ssa.CallInstruction:
			if v.Common().StaticCallee() == nil {
				return false
			}
		case *ssa.MakeClosure:
			mr := v.Referrers()
			if mr == nil {
				return false
			}
			for _, u := range *mr {
				c, ok := u.(ssa.CallInstruction)
				if !ok || c.Common().Value != ssa.Value(v) {
					if _, dbg := u.(*ssa.DebugRef); !dbg {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func (p *Prog) cellStepFn(f *ssa.Function, cell ssa.Value, d int) (int64, bool) {
	if !onlyUsed(cell) {
		return 0, false
	}
	grown := map[ssa.Instruction]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			n, ok := p.cellStep(in, cell, d)
			if !ok || n < 0 {
				return 0, false
			}
			if n > 0 {
				grown[in] = true
			}
		}
	}
	// every path from the entry to a return passes a growth
	seen := map[*ssa.BasicBlock]bool{}
	var bare func(b *ssa.BasicBlock) bool
	bare = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if grown[in] {
				return false
			}
			if _, ok := in.(*ssa.Return); ok {
				return true
			}
		}
		for _, s := range b.Succs {
			if bare(s) {
				return true
			}
		}
		return false
	}
	if bare(f.Blocks[0]) {
		return 0, true
	}
	return 1, true
}

// cellGrows: the slice held by a local variable gets longer with every round.
func (p *Prog) cellGrows(l *Loop, cell ssa.Value) bool {
	al, ok := cell.(*ssa.Alloc)
	if !ok || l.Blocks[al.Block()] || !onlyUsed(al) {
		return false
	}
	grown := map[ssa.Instruction]bool{}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			n, ok := p.cellStep(in, cell, 0)
			if !ok || n < 0 {
				return false
			}
			if n > 0 {
				grown[in] = true
			}
		}
	}
	return everyRound(l, func(in ssa.Instruction) bool { return grown[in] })
}

// fixed: v does not change while the loop runs.
func (p *Prog) fixed(l *Loop, v ssa.Value) bool {
	switch w := v.(type) {
	case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
		return true
	case ssa.Instruction:
		if !l.Blocks[w.Block()] {
			return true
		}
	}
	mods := p.loopMods(l)
	switch w := v.(type) {
	case *ssa.Field:
		return p.fixed(l, w.X)
	case *ssa.FieldAddr:
		return p.fixed(l, w.X)
	case *ssa.BinOp:
		return p.fixed(l, w.X) && p.fixed(l, w.Y)
	case *ssa.Convert:
		return p.fixed(l, w.X)
	case *ssa.ChangeType:
		return p.fixed(l, w.X)
	case *ssa.UnOp:
		if w.Op == token.MUL {
			if !p.fixed(l, w.X) {
				return false
			}
			if al, ok := addrRoot(w.X).(*ssa.Alloc); ok {
				if w.X == ssa.Value(al) {
					return !mods["alloc:"+al.Name()] && !(al.Heap && mods["deref:"+deref(al.Type()).String()])
				}
				if !al.Heap && !mods["alloc:"+al.Name()] {
					return true
				}
			}
			return !mods[locKey(w.X)]
		}
		return p.fixed(l, w.X)
	case *ssa.Call:
		if b, ok := w.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				for _, a := range w.Call.Args {
					if !p.fixed(l, a) {
						return false
					}
					if _, isM := a.Type().Underlying().(*types.Map); isM && mods["map:"+a.Type().Underlying().String()] {
						return false
					}
				}
				return true
			}
		}
	}
	return false
}

// checkLoops records the finiteness of every loop of the functions.
func (r *R) checkLoops(fns []*ssa.Function, kind string, extra func(fn *ssa.Function, l *Loop) bool) {
	p := r.p
	for _, fn := range fns {
		if !p.inRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		r.fn(fn)
		fi := analyseFn(fn)
		if fi.irred {
			r.bad(kind, shortFn(fn), p.posAt(fn.Pos()), "the loops of %s have more than one entry", shortFn(fn))
		}
		for _, b := range fn.Blocks {
			l := fi.loops[b]
			if l == nil {
				continue
			}
			key := fmt.Sprintf("%s", shortFn(fn))
			ok, why := p.finite(fn, l)
			if !ok && extra != nil && extra(fn, l) {
				ok = true
			}
			pos := p.instrPos(b.Instrs[len(b.Instrs)-1])
			if ok {
				r.ok(kind, key+" "+pos)
			} else {
				r.bad(kind, key, pos, "the loop at %s of %s is not shown to end: %s", pos, shortFn(fn), why)
			}
		}
	}
}

func runC07(r *R) {
	p := r.p
	gens := p.generateImpls()
	applies := p.constraintApplies()
	if len(gens) == 0 || len(applies) == 0 {
		r.missing("generators and constraints")
		return
	}
	roots := append(append([]*ssa.Function{}, gens...), applies...)
	// generators of patterns
	for _, it := range []*types.Interface{p.iface("internal/regen", "Generator")} {
		if it != nil {
			roots = append(roots, p.implementations(it, "Generate")...)
		}
	}
	from := p.reach(roots, func(f *ssa.Function) bool { return f.Name() == "String" && f.Signature.Recv() != nil && false })
	var fns []*ssa.Function
	for _, f := range p.allBodies() {
		if _, ok := from[f]; ok {
			fns = append(fns, f)
		}
	}
	r.checkLoops(fns, "loop", nil)
	r.need("loop", 15)

	// retry loops
	opts := map[string]string{"oneOfConstraint": "MaximumOneOfAttempts", "multiConstraint": "MaximumUniqueGeneratorAttempts", "ifConstraint": "MaximumIfAttempts", "multipleIfConstraints": "MaximumIfAttempts", "arrayGenerator": "MaximumUniqueGeneratorAttempts"}
	budget := p.budgetFn()
	if budget == nil {
		r.missing("the function that scales a number of attempts")
		return
	}
	for _, root := range roots {
		rt := recvName(root)
		want, has := opts[rt]
		isApply := root.Name() == "Apply"
		if isApply && !has {
			r.bad("retry loop", shortFn(root), p.posAt(root.Pos()), "no option is known for the retries of this constraint")
			continue
		}
		if !isApply && rt != "arrayGenerator" {
			continue
		}
		r.retries(root, want, isApply, budget)
	}
	r.need("retry loop", 5)
	r.budget(budget)
}

// budgetFn: the options method from a number of attempts to a number of attempts.
func (p *Prog) budgetFn() *ssa.Function {
	for _, f := range p.Funcs {
		s := f.Signature
		if recvName(f) == "GeneratorOptions" && s.Params().Len() == 1 && s.Results().Len() == 1 && isIntT(s.Params().At(0).Type()) && isIntT(s.Results().At(0).Type()) {
			return f
		}
	}
	return nil
}

func (r *R) retries(root *ssa.Function, want string, isApply bool, budget *ssa.Function) {
	p := r.p
	key := shortFn(root)
	attemptOpt := func(t *Term) string {
		o, n, _, ok := fieldRead(strip(t))
		if ok && o == "GeneratorOptions" && len(n) > 8 && n[len(n)-8:] == "Attempts" {
			return n
		}
		return ""
	}
	mentions := func(t *Term) string {
		n := ""
		t.any(func(u *Term) bool {
			if s := attemptOpt(u); s != "" {
				n = s
			}
			return false
		})
		return n
	}
	touch := p.touching(func(in ssa.Instruction) bool {
		return callsMethod(in, "Generate") || usesField(in, "GeneratorOptions", "MaximumOneOfAttempts", "MaximumIfAttempts", "MaximumUniqueGeneratorAttempts")
	}, isGenerate)
	entries := map[*Term]map[*Term]bool{}
	x := newExec(p, Config{
		Inline: func(f *ssa.Function) bool { return f != budget && touch[f] && p.genInline(f) },
		Fact:   relevantFacts(func(t *Term) bool { return attemptOpt(t) != "" || t.Op == "loopvar" }),
		OnEntry: func(lv, v *Term) {
			if entries[lv] == nil {
				entries[lv] = map[*Term]bool{}
			}
			entries[lv][v] = true
		},
	})
	gens := 0
	const mon = "gen"
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.name() == "invoke.Generate" && (!isApply || len(root.Params) > 1 && rootParamIs(strip(ev.Recv)) && strip(ev.Recv).N == 1) {
			gens++
			ev.St.mon[mon] = "1"
			if isApply && ev.St.ctx != nil && !x.inAnyLoop(ev) {
				r.bad("retry loop", key+":outside", p.instrPos(ev.In), "a value is generated again outside of a retry loop")
			}
		}
		return false
	}
	// the bound of a counter: how often the body runs
	bound := func(st *State, lv *Term) (n *Term, opt string) {
		var start, startV *Term
		if len(entries[lv]) == 1 {
			for e := range entries[lv] {
				startV = e
			}
			start = startV
		}
		if start == nil {
			return nil, ""
		}
		for f, v := range st.facts {
			if f.Op != "bin" || f.Aux != "<" {
				continue
			}
			a, b := f.A[0], f.A[1]
			switch {
			case a == lv && v && mentions(b) != "": // lv < B
				if c, ok := intConst(start); ok {
					return x.bin("+", b, x.T.Int(-c), b.T), mentions(b)
				}
			case b == lv && !v && mentions(a) != "": // lv <= B
				if c, ok := intConst(start); ok {
					return x.bin("+", a, x.T.Int(1-c), a.T), mentions(a)
				}
			case b == lv && v && mentions(start) != "": // c < lv, counting down
				if c, ok := intConst(a); ok {
					return x.bin("+", start, x.T.Int(-c), start.T), mentions(start)
				}
			case a == lv && !v && mentions(start) != "": // lv >= c
				if c, ok := intConst(b); ok {
					return x.bin("+", start, x.T.Int(1-c), start.T), mentions(start)
				}
			case a.Op == "bin" && v && mentions(b) != "": // lv+1 < B (range over an int or slice)
				if q, off := splitAdd(a); q == lv {
					if c, ok := intConst(start); ok {
						return x.bin("+", b, x.T.Int(-c-off), b.T), mentions(b)
					}
				}
			}
		}
		return nil, ""
	}
	found := false
	x.cfg.OnBack = func(st *State, fr *frame, l *Loop) {
		gen := st.mon[mon] != ""
		delete(st.mon, mon)
		var n *Term
		opt := ""
		step := false
		for _, in := range l.Header.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			lv := x.T.mk("loopvar", ph, 0, ph.Type(), ph, st.ctx)
			rotated := false
			for _, la := range l.Latch {
				if _, ok := la.Instrs[len(la.Instrs)-1].(*ssa.If); ok {
					rotated = true
				}
			}
			if m, o := bound(st, lv); (m == nil || rotated) && st.env[ph] != nil && len(entries[lv]) == 1 {
				// test at the end of the round: the next value is below the bound
				for e := range entries[lv] {
					c, isC := intConst(e)
					for f, v := range st.facts {
						if isC && v && f.Op == "bin" && f.Aux == "<" && f.A[0] == st.env[ph] && mentions(f.A[1]) != "" {
							n, opt = x.bin("+", f.A[1], x.T.Int(-c), f.A[1].T), mentions(f.A[1])
							step = true
							for i, pr := range l.Header.Preds {
								if l.Blocks[pr] {
									if d, ok := p.minStep(ph.Edges[i], ph, 1, 0); !ok || d != 1 {
										step = false
									}
								}
							}
						}
					}
				}
			} else if m != nil {
				n, opt = m, o
				if b, c := splitAdd(st.env[ph]); b == lv && (c == 1 || c == -1) {
					step = true
				}
			}
		}
		pos := p.instrPos(l.Header.Instrs[len(l.Header.Instrs)-1])
		if opt == "" {
			if isApply && gen {
				r.bad("retry loop", key, pos, "a loop that generates again is not bounded by the number of attempts configured (%s)", trailOf(st))
			}
			return
		}
		if !isApply && !gen {
			return
		}
		b, c := splitAdd(n)
		var good bool
		if isApply {
			good = callTo(strip(b), fullName(budget)) && attemptOpt(strip(b).A[len(strip(b).A)-1]) == want
		} else {
			good = attemptOpt(b) == want
		}
		switch {
		case !good:
			r.bad("retry loop", key, pos, "the number of attempts is bounded by %s; the option for this keyword is %s", n, want)
		case c != 0:
			r.bad("retry loop", key, pos, "the number of attempts is %s, not the number configured", n)
		case !step:
			r.bad("retry loop", key, pos, "the attempts are not counted one by one")
		default:
			found = true
			r.ok("retry loop", key)
		}
	}
	x.Root(root, nil)
	r.exec(x, key)
	if !found && len(r.bads["retry loop"]) == 0 {
		r.bad("retry loop", key+":none", p.posAt(root.Pos()), "no retry loop bounded by %s was found", want)
	}
}

// inAnyLoop: the call happens inside a loop of one of the active functions.
func (x *Exec) inAnyLoop(ev *CallEvent) bool {
	var site ssa.Instruction = ev.In
	for fr := ev.Fr; fr != nil; fr = fr.up {
		for _, l := range fr.fi.loops {
			if l.Blocks[site.Block()] {
				return true
			}
		}
		if fr.call == nil {
			return false
		}
		site = fr.call
	}
	return false
}

// budget: the scaled number of attempts is at least one and at most the number given.
func (r *R) budget(f *ssa.Function) {
	p := r.p
	x := newExec(p, Config{Inline: func(g *ssa.Function) bool { return !p.recursive(g) }})
	outs := x.Root(f, nil)
	key := shortFn(f)
	r.exec(x, key)
	base := x.T.mk("param", f.Params[1], 1, f.Params[1].Type(), nil, nil)
	one := x.T.Int(1)
	bt := types.Typ[types.Bool]
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		st, v := o.st, o.rets[0]
		pos := p.instrPos(o.at)
		if lt, known := x.decide(st, x.bin("<", v, one, bt)); !known || lt {
			r.bad("attempts at least one", key, pos, "%s attempts may be less than one (%s)", v, trailOf(st))
		} else {
			r.ok("attempts at least one", key+" "+pos)
		}
		okUp := v == base
		if lo, hi := x.interval(st, v); lo != nil && hi != nil && constant.Compare(lo, token.EQL, hi) && constant.Compare(hi, token.EQL, constant.MakeInt64(1)) {
			okUp = true // one attempt is always made
		}
		if gt, known := x.decide(st, x.bin("<", base, v, bt)); known && !gt {
			okUp = true
		}
		if !okUp {
			okUp = x.scaledDown(st, v, base)
		}
		if okUp {
			r.ok("attempts at most configured", key+" "+pos)
		} else {
			r.bad("attempts at most configured", key, pos, "%s attempts are not shown to be at most the number given (%s)", v, trailOf(st))
		}
	}
	r.need("attempts at least one", 1)
	r.need("attempts at most configured", 1)
}

// scaledDown: v is base times a ratio that is at most one on this path.
func (x *Exec) scaledDown(st *State, v, base *Term) bool {
	var num, den []*Term
	var flat func(t *Term, inv bool)
	var rawDen *Term
	flat = func(t *Term, inv bool) {
		raw := t
		t = strip(t)
		if t.Op == "bin" && t.Aux == "*" {
			flat(t.A[0], inv)
			flat(t.A[1], inv)
			return
		}
		if t.Op == "bin" && t.Aux == "/" {
			flat(t.A[0], inv)
			flat(t.A[1], !inv)
			return
		}
		if inv {
			den, rawDen = append(den, t), raw
		} else {
			num = append(num, t)
		}
	}
	flat(v, false)
	if len(num) != 2 || len(den) != 1 {
		return false
	}
	// a negative divisor turns the ratio round
	positive := false
	for _, d := range []*Term{rawDen, den[0]} {
		if gt, known := x.decide(st, x.bin("<", x.T.zero(d.T), d, types.Typ[types.Bool])); known && gt {
			positive = true
		}
	}
	if s := den[0]; !positive && s.Op == "bin" && s.Aux == "-" {
		gt, known := x.decide(st, x.bin("<", s.A[1], s.A[0], types.Typ[types.Bool]))
		positive = known && gt
	}
	if !positive {
		return false
	}
	for i := range num {
		if num[i] != base {
			continue
		}
		n, d := num[1-i], den[0]
		if n.Op == "bin" && n.Aux == "-" && d.Op == "bin" && d.Aux == "-" && strip(n.A[0]) == strip(d.A[0]) {
			// (c - b) / (c - a) with a <= b
			lt, known := x.decide(st, x.bin("<", strip(n.A[1]), strip(d.A[1]), types.Typ[types.Bool]))
			if known && !lt {
				return true
			}
		}
	}
	return false
}
