package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A hazard is an instruction that stops the program when its operand is not what it should be.
type hazard struct {
	in   ssa.Instruction
	kind string // nil, index, slice, assert, panic, div, map, positive
	v    ssa.Value
}

type hazards struct {
	p *Prog
}

// hazardsOf lists the hazards of an instruction.
func hazardsOf(in ssa.Instruction) []hazard {
	var out []hazard
	add := func(k string, v ssa.Value) { out = append(out, hazard{in, k, v}) }
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			add("nil", v.X)
		}
	case *ssa.FieldAddr:
		add("nil", v.X)
	case *ssa.Store:
		add("nil", v.Addr)
	case *ssa.MapUpdate:
		add("nil", v.Map)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Slice); ok {
			add("index", v.Index)
		}
	case *ssa.Lookup:
		if isStrT(v.X.Type()) {
			add("index", v.Index)
		}
	case *ssa.Slice:
		if v.Low != nil || v.High != nil {
			add("slice", v.X)
		}
	case *ssa.TypeAssert:
		if !v.CommaOk {
			add("assert", v.X)
		}
	case *ssa.Panic:
		add("panic", v.X)
	case *ssa.BinOp:
		if (v.Op == token.QUO || v.Op == token.REM) && isIntT(v.X.Type()) {
			add("div", v.Y)
		}
	case *ssa.MakeSlice:
		add("make", v.Len)
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		com := c.Common()
		switch {
		case com.IsInvoke():
			add("nil", com.Value)
		case com.StaticCallee() == nil:
			if _, ok := com.Value.(*ssa.Builtin); !ok {
				add("nil", com.Value)
			}
		default:
			switch fullName(com.StaticCallee()) {
			case "math/rand.Rand.Intn", "math/rand.Intn", "math/rand.Rand.Int31n", "math/rand.Rand.Int63n", "math/rand.Int31n", "math/rand.Int63n":
				add("positive", com.Args[len(com.Args)-1])
			case "strings.Repeat":
				add("make", com.Args[1])
			case "regexp.MustCompile", "regexp.MustCompilePOSIX":
				add("const", com.Args[0])
			}
		}
	}
	return out
}

// safe decides a hazard in a state: proven, or unknown with the term it depends on.
func (h *hazards) safe(x *Exec, st *State, z hazard) (bool, *Term) {
	b := types.Typ[types.Bool]
	t := x.val(st, z.v)
	nonneg := func(i *Term) bool {
		if lo, _ := x.interval(st, i); lo != nil && constant.Sign(lo) >= 0 {
			return true
		}
		return x.holds(st, x.T.mk("un", "!", 0, b, nil, nil, x.bin("<", i, x.T.Int(0), b)))
	}
	le := func(a, c *Term) bool {
		v, k := x.decide(st, x.bin("<", c, a, b))
		return k && !v
	}
	switch z.kind {
	case "nil":
		if _, ok := z.v.(*ssa.FreeVar); ok {
			return true, t
		}
		if t.Op == "alloc" || t.Op == "faddr" || t.Op == "iaddr" || t.Op == "global" || t.Op == "closure" || t.Op == "func" || t.Op == "makemap" {
			return true, t
		}
		return x.knownNonNil(st, t), t
	case "index":
		var l *Term
		var s ssa.Value
		switch v := z.in.(type) {
		case *ssa.IndexAddr:
			s = v.X
		case *ssa.Lookup:
			s = v.X
		}
		l = x.lenOf(st, x.val(st, s))
		v, k := x.decide(st, x.bin("<", t, l, b))
		return k && v && nonneg(t), t
	case "slice":
		v := z.in.(*ssa.Slice)
		l := x.lenOf(st, t)
		if pt, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				l = x.T.Int(at.Len())
			}
		}
		lo, hi := x.T.Int(0), l
		ok := true
		if v.High != nil {
			hi = x.val(st, v.High)
			ok = ok && le(hi, l)
		}
		if v.Low != nil {
			lo = x.val(st, v.Low)
			ok = ok && nonneg(lo)
		}
		return ok && le(lo, hi), t
	case "assert":
		_, ok := x.typeAssert(t, z.in.(*ssa.TypeAssert).AssertedType)
		return x.holds(st, ok), t
	case "div":
		if t.isConst() {
			return constant.Sign(t.cv()) != 0, t
		}
		v, k := x.decide(st, x.bin("==", t, x.T.Int(0), b))
		return k && !v, t
	case "make":
		return nonneg(t), t
	case "positive":
		if lo, _ := x.interval(st, t); lo != nil && constant.Sign(lo) > 0 {
			return true, t
		}
		return x.holds(st, x.bin("<", x.T.Int(0), t, b)), t
	case "const":
		return t.isConst(), t
	}
	return false, t
}
