package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.T.zero(c.Type())
		}
		return x.T.cst(c.Value, c.Type())
	case *ssa.Global:
		return x.T.mk("global", c, 0, c.Type(), nil, nil)
	case *ssa.Function:
		return x.T.mk("func", c, 0, c.Type(), nil, nil)
	case *ssa.Builtin:
		return x.T.mk("builtin", c.Name(), 0, c.Type(), nil, nil)
	}
	if t, ok := st.env[v]; ok {
		return t
	}
	return x.T.mk("undef", v, 0, v.Type(), nil, nil)
}

func (x *Exec) faddr(base *Term, st *types.Struct, i int) *Term {
	return x.T.mk("faddr", st, i, types.NewPointer(st.Field(i).Type()), nil, nil, base)
}

// blurred: the field is not told apart from others of its kind.
func (x *Exec) blurred(st *types.Struct, i int) bool {
	return x.cfg.Blur != nil && x.cfg.Blur(st, i)
}

func (x *Exec) blurT(st *types.Struct, i int) *Term {
	t := x.T.mk("blur", st, i, st.Field(i).Type(), nil, nil)
	t.blur = true
	return t
}

func (x *Exec) field(v *Term, st *types.Struct, i int) *Term {
	if x.blurred(st, i) {
		return x.blurT(st, i)
	}
	for v.Op == "with" {
		if v.N == i {
			return v.A[1]
		}
		v = v.A[0]
	}
	switch v.Op {
	case "zero":
		return x.T.zero(st.Field(i).Type())
	case "untracked":
		return x.T.mk("untracked", nil, i, st.Field(i).Type(), nil, nil, v)
	case "sload":
		fa := x.faddr(v.A[0], st, i)
		ep := v.A[1+i]
		return x.T.mk("load", nil, 0, st.Field(i).Type(), nil, nil, fa, ep)
	}
	return x.T.mk("field", st, i, st.Field(i).Type(), nil, nil, v)
}

func (x *Exec) with(v *Term, i int, val *Term, st *types.Struct) *Term {
	if x.blurred(st, i) || x.field(v, st, i) == val {
		return v
	}
	if v.Op == "with" && v.N >= i {
		if v.N == i {
			return x.with(v.A[0], i, val, st)
		}
		inner := x.with(v.A[0], i, val, st)
		return x.T.mk("with", nil, v.N, v.T, nil, nil, inner, v.A[1])
	}
	return x.T.mk("with", nil, i, v.T, nil, nil, v, val)
}

// load reads memory.
func (x *Exec) load(st *State, addr *Term) *Term {
	t := elemType(addr)
	if addr.Op == "faddr" && x.cfg.Blur != nil {
		if sst, ok := addr.Aux.(*types.Struct); ok && x.blurred(sst, addr.N) {
			return x.blurT(sst, addr.N)
		}
	}
	if v, ok := x.cell(st, addr); ok {
		// overlay field cells
		if t != nil {
			if sst, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < sst.NumFields(); i++ {
					fa := x.faddr(addr, sst, i)
					if x.hasUnder(st, fa) {
						v = x.with(v, i, x.load(st, fa), sst)
					}
				}
			}
		}
		return v
	}
	if t == nil {
		return x.T.mk("load", nil, 0, nil, nil, nil, addr, x.epoch(st, addr))
	}
	if sst, ok := t.Underlying().(*types.Struct); ok {
		args := []*Term{addr}
		for i := 0; i < sst.NumFields(); i++ {
			if x.blurred(sst, i) {
				args = append(args, nil)
				continue
			}
			args = append(args, st.epochs[fieldKey(t, sst, i)])
		}
		v := x.T.mk("sload", nil, 0, t, nil, nil, args...)
		for i := 0; i < sst.NumFields(); i++ {
			fa := x.faddr(addr, sst, i)
			if x.hasUnder(st, fa) {
				v = x.with(v, i, x.load(st, fa), sst)
			}
		}
		return v
	}
	return x.T.mk("load", nil, 0, t, nil, nil, addr, x.epoch(st, addr))
}

func (x *Exec) hasUnder(st *State, addr *Term) bool {
	if _, ok := st.heap[addr]; ok {
		return true
	}
	t := elemType(addr)
	if t == nil {
		return false
	}
	if sst, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < sst.NumFields(); i++ {
			if x.hasUnder(st, x.faddr(addr, sst, i)) {
				return true
			}
		}
	}
	return false
}

// cell finds the value recorded for an address or for an object that contains it.
func (x *Exec) cell(st *State, addr *Term) (*Term, bool) {
	if v, ok := st.heap[addr]; ok {
		return v, true
	}
	switch addr.Op {
	case "faddr":
		if v, ok := x.cell(st, addr.A[0]); ok {
			return x.field(v, addr.Aux.(*types.Struct), addr.N), true
		}
	case "iaddr":
		b := addr.A[0]
		if b.Op == "alloc" {
			if v, ok := st.heap[b]; ok && v.Op == "zero" && addr.A[1].isConst() {
				// no store at a non-constant index happened (that would replace the cell)
				return x.T.zero(elemType(addr)), true
			}
			return nil, false
		}
		if b.Op == "list" || b.Op == "append" {
			if e, ok := listElem(b, addr.A[1]); ok {
				return e, true
			}
		}
	}
	return nil, false
}

func listElem(b *Term, i *Term) (*Term, bool) {
	if b.Op != "list" || !i.isConst() {
		return nil, false
	}
	n, ok := constant.Int64Val(i.cv())
	if !ok || n < 0 || int(n) >= len(b.A) {
		return nil, false
	}
	return b.A[n], true
}

func (x *Exec) epoch(st *State, addr *Term) *Term { return st.epochs[cellKey(addr)] }

func (x *Exec) store(st *State, addr, v *Term, at ssa.Instruction) {
	for a := addr; a.Op == "faddr" && x.cfg.Blur != nil; a = a.A[0] {
		if sst, ok := a.Aux.(*types.Struct); ok && x.blurred(sst, a.N) {
			return
		}
	}
	// remove cells inside the object
	for k := range st.heap {
		if k != addr && under(k, addr) {
			delete(st.heap, k)
		}
	}
	root := rootTerm(addr)
	if root.Op != "alloc" {
		// another pointer may name the same location
		ck := cellKey(addr)
		for k := range st.heap {
			if k == addr {
				continue
			}
			r := rootTerm(k)
			if r.Op == "alloc" {
				continue
			}
			if cellKey(k) == ck && !(addr.Op == "faddr" && k.Op == "faddr" && distinctBase(k.A[0], addr.A[0])) {
				delete(st.heap, k)
			}
		}
		m := map[string]bool{}
		if t := elemType(addr); t != nil {
			expandStruct(ck, t, m)
		} else {
			m[ck] = true
		}
		for k := range m {
			if x.blurKeys[k] {
				continue
			}
			st.epochs[k] = x.T.mk("epoch", k, 1, nil, at, st.ctx)
		}
	}
	if addr.Op == "iaddr" && !addr.A[1].isConst() && root.Op == "alloc" {
		for k := range st.heap {
			if k.Op == "iaddr" && k.A[0] == addr.A[0] {
				delete(st.heap, k)
			}
		}
		st.heap[addr.A[0]] = x.T.mk("havoc", "arr", 0, nil, at, st.ctx, addr.A[0])
	}
	if x.cfg.Track != nil && !x.cfg.Track(addr) {
		if root.Op == "alloc" {
			st.heap[addr] = x.T.mk("untracked", nil, 0, nil, nil, nil, addr)
		} else {
			delete(st.heap, addr)
			ck := cellKey(addr)
			delete(st.epochs, ck)
			if t := elemType(addr); t != nil {
				m := map[string]bool{}
				expandStruct(ck, t, m)
				for k := range m {
					delete(st.epochs, k)
				}
			}
		}
		return
	}
	st.heap[addr] = v
}

func distinctBase(a, b *Term) bool {
	return (a.Op == "alloc" || b.Op == "alloc") && a != b
}

func under(k, addr *Term) bool {
	for k.Op == "faddr" || k.Op == "iaddr" {
		k = k.A[0]
		if k == addr {
			return true
		}
	}
	return false
}

func (x *Exec) mapUpdate(st *State, m, k, v *Term, at ssa.Instruction) {
	mc := x.T.mk("mcell", nil, 0, types.NewPointer(v.typ()), nil, nil, m, k)
	for c := range st.heap {
		if c.Op != "mcell" || c == mc {
			continue
		}
		if c.A[0] == m && c.A[1].isConst() && k.isConst() && c.A[1] != k {
			continue
		}
		if c.A[0] != m && (c.A[0].Op == "makemap" || m.Op == "makemap") {
			continue
		}
		delete(st.heap, c)
	}
	if m.Op != "makemap" {
		key := "map:?"
		if m.T != nil {
			key = "map:" + m.T.Underlying().String()
		}
		st.epochs[key] = x.T.mk("epoch", key, 1, nil, at, st.ctx)
	} else {
		mk := x.T.mk("mapver", nil, 0, nil, nil, nil, m)
		st.heap[mk] = x.T.mk("epoch", "m", 1, nil, at, st.ctx)
	}
	if x.cfg.Track != nil && !x.cfg.Track(mc) {
		return
	}
	st.heap[mc] = v
}

func (t *Term) typ() types.Type {
	if t.T == nil {
		return types.Typ[types.Invalid]
	}
	return t.T
}

func (x *Exec) lookup(st *State, m, k *Term, vt types.Type) (v, ok *Term) {
	mc := x.T.mk("mcell", nil, 0, types.NewPointer(vt), nil, nil, m, k)
	if c, o := st.heap[mc]; o {
		return c, x.T.Bool(true)
	}
	var ep *Term
	if m.Op == "makemap" {
		ep = st.heap[x.T.mk("mapver", nil, 0, nil, nil, nil, m)]
		if ep == nil {
			return x.T.zero(vt), x.T.Bool(false)
		}
	} else if m.isNil() {
		return x.T.zero(vt), x.T.Bool(false)
	} else if m.T != nil {
		ep = st.epochs["map:"+m.T.Underlying().String()]
	}
	return x.T.mk("lookup", nil, 0, vt, nil, nil, m, k, ep), x.T.mk("lookupok", nil, 0, types.Typ[types.Bool], nil, nil, m, k, ep)
}

func (x *Exec) lenOf(st *State, t *Term) *Term {
	switch t.Op {
	case "const":
		if t.cv().Kind() == constant.String {
			return x.T.Int(int64(len(constant.StringVal(t.cv()))))
		}
	case "nil":
		return x.T.Int(0)
	case "list":
		return x.T.Int(int64(len(t.A)))
	case "makeslice":
		return t.A[0]
	case "slice":
		if l, ok := x.asList(st, t); ok {
			return x.T.Int(int64(len(l.A)))
		}
		if lo, hi := t.A[1], t.A[2]; hi != nil {
			if lo == nil {
				return hi
			}
			return x.bin("-", hi, lo, types.Typ[types.Int])
		} else if lo != nil {
			return x.bin("-", x.lenOf(st, t.A[0]), lo, types.Typ[types.Int])
		} else if _, ok := t.A[0].typ().Underlying().(*types.Slice); ok {
			return x.lenOf(st, t.A[0])
		}
	case "alloc":
		if a, ok := elemType(t).Underlying().(*types.Array); ok {
			return x.T.Int(a.Len())
		}
	case "append":
		l := x.lenOf(st, t.A[0])
		r := x.lenOf(st, t.A[1])
		return x.bin("+", l, r, types.Typ[types.Int])
	case "conv":
		if isByteOrStr(t.T) && isByteOrStr(t.A[0].T) {
			return x.lenOf(st, t.A[0])
		}
	}
	return x.T.mk("len", nil, 0, types.Typ[types.Int], nil, nil, t)
}

func isByteOrStr(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

// asList: a slice whose elements are all known.
func (x *Exec) asList(st *State, t *Term) (*Term, bool) {
	switch t.Op {
	case "list":
		return t, true
	case "nil":
		return x.T.mk("list", nil, 0, nil, nil, nil), true
	case "makeslice":
		if isZeroC(t.A[0]) {
			return x.T.mk("list", nil, 0, t.T, nil, nil), true
		}
	case "slice":
		b := t.A[0]
		if b.Op != "alloc" || t.A[1] != nil && !isZeroC(t.A[1]) {
			return nil, false
		}
		arr, ok := elemType(b).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		n := arr.Len()
		if t.A[2] != nil {
			if !t.A[2].isConst() {
				return nil, false
			}
			n, _ = constant.Int64Val(t.A[2].cv())
		}
		if n > 64 {
			return nil, false
		}
		var es []*Term
		for i := int64(0); i < n; i++ {
			ia := x.T.mk("iaddr", nil, 0, types.NewPointer(arr.Elem()), nil, nil, b, x.T.Int(i))
			if _, ok := x.cell(st, ia); !ok && !x.hasUnder(st, ia) {
				return nil, false
			}
			es = append(es, x.load(st, ia))
		}
		return x.T.mk("list", nil, 0, t.T, nil, nil, es...), true
	}
	return nil, false
}

func isZeroC(t *Term) bool {
	return t.isConst() && t.cv().Kind() == constant.Int && constant.Sign(t.cv()) == 0
}

func (x *Exec) iaddr(st *State, b, i *Term, t types.Type) *Term {
	if b.Op == "slice" && (b.A[1] == nil || isZeroC(b.A[1])) {
		return x.iaddr(st, b.A[0], i, t)
	}
	return x.T.mk("iaddr", nil, 0, t, nil, nil, b, i)
}

func (x *Exec) convert(v *Term, t types.Type) *Term {
	if v.isConst() {
		if b, ok := t.Underlying().(*types.Basic); ok {
			c := v.cv()
			switch {
			case b.Info()&types.IsInteger != 0 && (c.Kind() == constant.Int || c.Kind() == constant.Float):
				if i := constant.ToInt(c); i.Kind() == constant.Int {
					return x.T.cst(i, t)
				}
			case b.Info()&types.IsFloat != 0 && (c.Kind() == constant.Int || c.Kind() == constant.Float):
				return x.T.cst(c, t)
			case b.Info()&types.IsString != 0 && c.Kind() == constant.String:
				return x.T.cst(c, t)
			}
		}
	}
	if v.T != nil && types.Identical(v.T.Underlying(), t.Underlying()) {
		return v
	}
	return x.T.mk("conv", nil, 0, t, nil, nil, v)
}

func (x *Exec) simple(fr *frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, t *Term) { st.env[v] = t }
	switch v := in.(type) {
	case *ssa.Alloc:
		t := x.T.mk("alloc", nil, 0, v.Type(), v, st.ctx)
		for k := range st.heap {
			if rootTerm(k) == t {
				delete(st.heap, k)
			}
		}
		el := deref(v.Type())
		if _, ok := el.Underlying().(*types.Array); ok {
			st.heap[t] = x.T.zero(el)
		} else {
			st.heap[t] = x.T.zero(el)
		}
		set(v, t)
	case *ssa.UnOp:
		o := x.val(st, v.X)
		switch v.Op {
		case token.MUL:
			set(v, x.load(st, o))
		case token.NOT:
			if o.isConst() {
				set(v, x.T.Bool(!constant.BoolVal(o.cv())))
			} else {
				set(v, x.T.mk("un", "!", 0, v.Type(), nil, nil, o))
			}
		default:
			if o.isConst() && v.Op == token.SUB {
				set(v, x.T.cst(constant.UnaryOp(token.SUB, o.cv(), 0), v.Type()))
			} else {
				set(v, x.T.mk("un", v.Op.String(), 0, v.Type(), nil, nil, o))
			}
		}
	case *ssa.BinOp:
		set(v, x.bin(v.Op.String(), x.val(st, v.X), x.val(st, v.Y), v.Type()))
	case *ssa.FieldAddr:
		set(v, x.faddr(x.val(st, v.X), structOf(v.X.Type()), v.Field))
	case *ssa.Field:
		set(v, x.field(x.val(st, v.X), structOf(v.X.Type()), v.Field))
	case *ssa.IndexAddr:
		set(v, x.iaddr(st, x.val(st, v.X), x.val(st, v.Index), v.Type()))
	case *ssa.Index:
		set(v, x.T.mk("elem", nil, 0, v.Type(), nil, nil, x.val(st, v.X), x.val(st, v.Index)))
	case *ssa.Lookup:
		m, k := x.val(st, v.X), x.val(st, v.Index)
		if _, ok := v.X.Type().Underlying().(*types.Map); !ok {
			set(v, x.T.mk("elem", nil, 0, v.Type(), nil, nil, m, k))
			return
		}
		vt := v.X.Type().Underlying().(*types.Map).Elem()
		a, ok := x.lookup(st, m, k, vt)
		if v.CommaOk {
			set(v, x.T.mk("tuple", nil, 0, v.Type(), nil, nil, a, ok))
		} else {
			set(v, a)
		}
	case *ssa.Extract:
		t := x.val(st, v.Tuple)
		if t.Op == "tuple" && v.Index < len(t.A) {
			set(v, t.A[v.Index])
		} else {
			set(v, x.T.mk("extract", nil, v.Index, v.Type(), nil, nil, t))
		}
	case *ssa.ChangeType:
		set(v, x.val(st, v.X))
	case *ssa.ChangeInterface:
		set(v, x.val(st, v.X))
	case *ssa.Convert:
		set(v, x.convert(x.val(st, v.X), v.Type()))
	case *ssa.MultiConvert:
		set(v, x.T.mk("conv", nil, 0, v.Type(), nil, nil, x.val(st, v.X)))
	case *ssa.SliceToArrayPointer:
		set(v, x.T.mk("conv", nil, 0, v.Type(), nil, nil, x.val(st, v.X)))
	case *ssa.MakeInterface:
		set(v, x.T.mk("iface", nil, 0, v.X.Type(), nil, nil, x.val(st, v.X)))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, x.val(st, b))
		}
		set(v, x.T.mk("closure", v.Fn.(*ssa.Function), 0, v.Type(), nil, nil, bs...))
	case *ssa.MakeMap:
		t := x.T.mk("makemap", nil, 0, v.Type(), v, st.ctx)
		for k := range st.heap {
			if (k.Op == "mcell" || k.Op == "mapver") && k.A[0] == t {
				delete(st.heap, k)
			}
		}
		set(v, t)
	case *ssa.MakeSlice:
		set(v, x.T.mk("makeslice", nil, 0, v.Type(), v, st.ctx, x.val(st, v.Len), x.val(st, v.Cap)))
	case *ssa.MakeChan:
		set(v, x.T.mk("call", "makechan", 0, v.Type(), v, st.ctx))
	case *ssa.Slice:
		var lo, hi *Term
		if v.Low != nil {
			lo = x.val(st, v.Low)
		}
		if v.High != nil {
			hi = x.val(st, v.High)
		}
		b := x.val(st, v.X)
		if lo == nil && hi == nil && b.Op != "alloc" {
			set(v, b)
			return
		}
		set(v, x.T.mk("slice", nil, 0, v.Type(), nil, nil, b, lo, hi))
	case *ssa.Range:
		set(v, x.T.mk("range", nil, 0, nil, nil, nil, x.val(st, v.X)))
	case *ssa.Next:
		r := x.val(st, v.Iter)
		ok := x.T.mk("call", "next", 0, types.Typ[types.Bool], v, st.ctx, r)
		tt := v.Type().(*types.Tuple)
		k := x.T.mk("next", "key", 1, tt.At(1).Type(), v, st.ctx, r)
		var e *Term
		if v.IsString {
			e = x.T.mk("next", "rune", 2, tt.At(2).Type(), v, st.ctx, r)
		} else if r.Op == "range" {
			mt, isMap := r.A[0].typ().Underlying().(*types.Map)
			if isMap {
				var okT *Term
				e, okT = x.lookup(st, r.A[0], k, mt.Elem())
				st.facts[okT] = true
			}
		}
		if e == nil {
			e = x.T.mk("next", "val", 2, tt.At(2).Type(), v, st.ctx, r)
		}
		set(v, x.T.mk("tuple", nil, 0, v.Type(), nil, nil, ok, k, e))
	case *ssa.TypeAssert:
		o := x.val(st, v.X)
		val, ok := x.typeAssert(o, v.AssertedType)
		if v.CommaOk {
			set(v, x.T.mk("tuple", nil, 0, v.Type(), nil, nil, val, ok))
		} else {
			set(v, val)
		}
	case *ssa.DebugRef:
	default:
		x.undecided("%s: instruction %T is not modelled", x.P.instrPos(in), in)
	}
}

func (x *Exec) typeAssert(o *Term, t types.Type) (v, ok *Term) {
	if o.Op == "iface" {
		if types.IsInterface(t) {
			return o, x.T.Bool(types.Implements(o.T, t.Underlying().(*types.Interface)))
		}
		if types.Identical(o.T, t) {
			return o.A[0], x.T.Bool(true)
		}
		return x.T.zero(t), x.T.Bool(false)
	}
	if o.isNil() {
		return x.T.zero(t), x.T.Bool(false)
	}
	okT := x.T.mk("tassertok", t, 0, types.Typ[types.Bool], nil, nil, o)
	if types.IsInterface(t) {
		return o, okT
	}
	return x.T.mk("tassert", nil, 0, t, nil, nil, o), okT
}

// ---- calls

func (x *Exec) mkEvent(fr *frame, st *State, c ssa.CallInstruction) *CallEvent {
	com := c.Common()
	ev := &CallEvent{X: x, St: st, In: c, Fr: fr}
	if com.IsInvoke() {
		ev.Recv = x.val(st, com.Value)
		ev.Method = com.Method
		ev.Args = append(ev.Args, ev.Recv)
		if ev.Recv.Op == "iface" {
			if f := x.P.SSA.LookupMethod(ev.Recv.T, com.Method.Pkg(), com.Method.Name()); f != nil {
				ev.Callee = f
				ev.Args[0] = ev.Recv.A[0]
			}
		}
	} else {
		if f := com.StaticCallee(); f != nil {
			ev.Callee = f
		}
		ev.Fun = x.val(st, com.Value)
		switch ev.Fun.Op {
		case "func", "closure":
			ev.Callee = ev.Fun.Aux.(*ssa.Function)
		}
	}
	for _, a := range com.Args {
		ev.Args = append(ev.Args, x.val(st, a))
	}
	return ev
}

func (x *Exec) onStack(fr *frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

const maxDepth = 14

func (x *Exec) call(fr *frame, st *State, c ssa.CallInstruction, isDefer bool) []Outcome {
	ev := x.mkEvent(fr, st, c)
	return x.dispatch(fr, st, c, ev)
}

func (x *Exec) dispatch(fr *frame, st *State, c ssa.CallInstruction, ev *CallEvent) []Outcome {
	if ev.Fun != nil && ev.Fun.Op == "builtin" {
		return []Outcome{{st: st, rets: x.builtin(fr, st, c, ev), kind: "return", at: c}}
	}
	opaque := false
	if x.cfg.OnCall != nil {
		opaque = x.cfg.OnCall(ev)
	}
	f := ev.Callee
	if f != nil {
		switch fullName(f) {
		case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
			return []Outcome{{st: st, rets: ev.Args, kind: "exit", at: c}}
		case "log.Panic", "log.Panicf", "log.Panicln":
			return []Outcome{{st: st, rets: ev.Args, kind: "panic", at: c}}
		}
	}
	if !opaque && f != nil && len(f.Blocks) > 0 && !x.onStack(fr, f) && fr.depth < maxDepth && x.mayInline(f) {
		var fvs []*Term
		if ev.Fun != nil && ev.Fun.Op == "closure" {
			fvs = ev.Fun.A
		}
		saved := st.clone()
		in := st.clone()
		in.ctx = x.T.ctx(st.ctx, c, nil, 0, f)
		outs := x.run(f, in, ev.Args, fvs, fr, c)
		for i := range outs {
			o := outs[i].st
			o.env = map[ssa.Value]*Term{}
			for k, v := range saved.env {
				o.env[k] = v
			}
			o.defers = append([]deferRec(nil), saved.defers...)
			o.looped = append([]deferRec(nil), saved.looped...)
			o.ctx = saved.ctx
		}
		return outs
	}
	return []Outcome{{st: st, rets: x.opaque(fr, st, c, ev), kind: "return", at: c}}
}

func (x *Exec) mayInline(f *ssa.Function) bool {
	if x.cfg.Pure != nil && x.cfg.Pure(f) {
		return false
	}
	if !x.P.inRepo(f) {
		// synthetic wrappers around repository methods
		if f.Synthetic == "" || f.Pkg != nil && !x.P.inRepo(f) {
			return false
		}
		if !x.P.inRepo(f) {
			return false
		}
	}
	if x.cfg.Inline != nil {
		return x.cfg.Inline(f)
	}
	return true
}

func (x *Exec) resultTypes(c ssa.CallInstruction) []types.Type {
	var out []types.Type
	rs := c.Common().Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return out
}

func (x *Exec) opaque(fr *frame, st *State, c ssa.CallInstruction, ev *CallEvent) []*Term {
	var rets []*Term
	in := c.(ssa.Instruction)
	if ev.Callee != nil && (pureExternal(ev.Callee) || x.cfg.Pure != nil && x.cfg.Pure(ev.Callee)) {
		var args []*Term
		for _, a := range ev.Args {
			args = append(args, x.snapshot(st, a))
		}
		if r := x.foldFunc(st, ev.Callee, args); r != nil {
			rets = []*Term{r}
		} else if r := x.foldPure(st, ev.Callee, args); r != nil {
			rets = []*Term{r}
		} else {
			for i, t := range x.resultTypes(c) {
				rets = append(rets, x.T.mk("pcall", originOf(ev.Callee), i, t, nil, nil, args...))
			}
		}
		if x.cfg.OnOpaque != nil {
			x.cfg.OnOpaque(ev, rets)
		}
		return rets
	}
	var aux interface{}
	if ev.Callee != nil {
		aux = originOf(ev.Callee)
	} else if ev.Method != nil {
		aux = "invoke." + ev.Method.Name()
	} else {
		aux = "dynamic"
	}
	var args []*Term
	if ev.Callee == nil && ev.Method == nil && ev.Fun != nil {
		args = append(args, ev.Fun)
	}
	for _, a := range ev.Args {
		if l, ok := x.asList(st, a); ok && a.Op == "slice" {
			args = append(args, l)
			continue
		}
		args = append(args, a)
	}
	for i, t := range x.resultTypes(c) {
		rets = append(rets, x.T.mk("call", aux, i, t, in, st.ctx, args...))
	}
	// effects
	mods := map[string]bool{}
	repo := true
	if ev.Callee != nil {
		if x.P.inRepo(ev.Callee) && len(ev.Callee.Blocks) > 0 {
			for k := range x.P.modsOf(ev.Callee) {
				mods[k] = true
			}
		} else {
			repo = false
		}
	} else {
		x.P.callMods(c, mods)
		if _, ext := x.P.calleesOf(c); ext {
			repo = false
		}
	}
	for _, a := range ev.Args {
		if a.Op == "closure" || a.Op == "func" {
			for k := range x.P.modsOf(a.Aux.(*ssa.Function)) {
				mods[k] = true
			}
		}
	}
	x.havocMods(fr, st, mods, in, ev.Args)
	if !repo && !(ev.Callee != nil && readOnlyExternal(ev.Callee)) {
		// an external function may write what its pointer arguments lead to
		x.havocReach(st, ev.Args, in)
	}
	if x.cfg.OnOpaque != nil {
		x.cfg.OnOpaque(ev, rets)
	}
	return rets
}

func originOf(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// private: the address is only ever used to read and write it and as an argument of functions that do no more with it.
func (x *Exec) private(v ssa.Value) bool {
	if r, ok := x.priv[v]; ok {
		return r
	}
	if x.priv == nil {
		x.priv = map[ssa.Value]bool{}
	}
	x.priv[v] = true // assumed while recursive functions are looked at
	ok := true
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.FieldAddr:
			ok = ok && x.private(in)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			ok = ok && in.Val != v
		case ssa.CallInstruction:
			f := in.Common().StaticCallee()
			if f == nil || !x.P.inRepo(f) || len(f.Blocks) == 0 || in.Common().IsInvoke() {
				ok = false
				break
			}
			for i, a := range in.Common().Args {
				if a == v {
					ok = ok && i < len(f.Params) && x.private(f.Params[i])
				}
			}
		default:
			ok = false
		}
		if !ok {
			break
		}
	}
	if !ok {
		// what was found while this was assumed counts no longer
		for k, r := range x.priv {
			if r {
				delete(x.priv, k)
			}
		}
	}
	x.priv[v] = ok
	return ok
}

// args are the arguments of the call, nil if they are not known.
func (x *Exec) havocMods(fr *frame, st *State, mods map[string]bool, at ssa.Instruction, args []*Term) {
	if len(mods) == 0 {
		return
	}
	hv := func(k *Term) *Term {
		if x.cfg.Track != nil && !x.cfg.Track(k) {
			return x.T.mk("untracked", nil, 0, nil, nil, nil, k)
		}
		return x.T.mk("havoc", "call", 0, k.T, at, st.ctx, k)
	}
	var add []*Term
	for k, v := range st.heap {
		root := rootTerm(k)
		if root.Op == "alloc" {
			al := root.Site.(*ssa.Alloc)
			if !al.Heap {
				continue
			}
			if args != nil && x.private(al) {
				handed := false
				for _, a := range args {
					handed = handed || rootTerm(a) == root
				}
				if !handed {
					continue
				}
			}
		}
		if x.modded(k, mods, fr) {
			st.heap[k] = hv(k)
			continue
		}
		if t := elemType(k); t != nil && v.Op != "havoc" {
			if sst, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < sst.NumFields(); i++ {
					if mods[fieldKey(t, sst, i)] && !x.blurred(sst, i) {
						add = append(add, x.faddr(k, sst, i))
					}
				}
			}
		}
	}
	for _, fa := range add {
		st.heap[fa] = hv(fa)
	}
	for m := range mods {
		if (x.cfg.Track != nil || x.blurKeys != nil) && !x.trackedKey(m) {
			continue
		}
		st.epochs[m] = x.T.mk("epoch", m, 0, nil, at, st.ctx)
	}
}

// trackedKey: epochs of locations no rule looks at are not recorded.
func (x *Exec) trackedKey(m string) bool {
	if x.blurKeys[m] {
		return false
	}
	if x.keyTrack == nil {
		return true
	}
	return x.keyTrack(m)
}

func (x *Exec) havocReach(st *State, args []*Term, at ssa.Instruction) {
	seen := map[*Term]bool{}
	var objs []*Term
	var walk func(t *Term, depth int)
	walk = func(t *Term, depth int) {
		if t == nil || seen[t] || depth > 12 {
			return
		}
		seen[t] = true
		if t.Op == "closure" {
			if f, ok := t.Aux.(*ssa.Function); ok && x.P.readsOnly(f, 0) {
				return // what it captures can only be reached through it
			}
		}
		if t.Op == "alloc" || t.Op == "makemap" {
			objs = append(objs, t)
			for k, v := range st.heap {
				if rootTerm(k) == t {
					walk(v, depth+1)
				}
			}
		}
		if t.Op == "faddr" || t.Op == "iaddr" {
			walk(rootTerm(t), depth+1)
		}
		for _, a := range t.A {
			walk(a, depth+1)
		}
	}
	for _, a := range args {
		if !mayPoint(a) {
			continue
		}
		walk(a, 0)
	}
	for _, o := range objs {
		for k := range st.heap {
			if rootTerm(k) == o && k != o {
				delete(st.heap, k)
			}
		}
		if o.Op == "alloc" {
			st.heap[o] = x.T.mk("havoc", "ext", 0, elemType(o), at, st.ctx, o)
		} else {
			st.heap[x.T.mk("mapver", nil, 0, nil, nil, nil, o)] = x.T.mk("epoch", "m", 2, nil, at, st.ctx)
		}
	}
}

// readsOnly: running the function writes nothing but its own variables.
func (p *Prog) readsOnly(f *ssa.Function, depth int) bool {
	if f.Blocks == nil || depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch s := in.(type) {
			case *ssa.Store:
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					} else if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.MakeClosure:
				return false
			case *ssa.Call:
				if bi, ok := s.Call.Value.(*ssa.Builtin); ok {
					if n := bi.Name(); n != "len" && n != "cap" && n != "min" && n != "max" {
						return false
					}
					continue
				}
				g := s.Call.StaticCallee()
				if g == nil {
					return false
				}
				if p.inRepo(g) && g.Blocks != nil {
					if !p.readsOnly(g, depth+1) {
						return false
					}
				} else if !pureExternal(g) && !readOnlyExternal(g) {
					return false
				}
			}
		}
	}
	return true
}

func mayPoint(t *Term) bool {
	if t == nil || t.isConst() || t.isNil() {
		return false
	}
	switch u := t.typ().Underlying().(type) {
	case *types.Basic:
		_ = u
		return t.Op == "iface" && mayPoint(t.A[0])
	}
	return true
}

// snapshot turns slices with known elements into lists so that pure calls are comparable.
func (x *Exec) snapshot(st *State, t *Term) *Term {
	if t.Op == "slice" {
		if l, ok := x.asList(st, t); ok {
			return l
		}
	}
	if t.Op == "iface" {
		return t
	}
	return t
}

var purePkgs = map[string]bool{"strings": true, "strconv": true, "math": true, "path/filepath": true, "path": true, "net/url": true,
	"errors": true, "regexp": true, "regexp/syntax": true, "unicode": true, "unicode/utf8": true, "slices": true, "cmp": true, "html": true, "mime": true, "net": true, "net/mail": true, "time": true}

func pureExternal(f *ssa.Function) bool {
	n := fullName(f)
	switch n {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "os.Getwd",
		"github.com/thoas/go-funk.Contains", "github.com/thoas/go-funk.ContainsString", "github.com/thoas/go-funk.DifferenceString",
		"github.com/thoas/go-funk.InStrings", "github.com/thoas/go-funk.IndexOf", "bytes.Equal", "maps.Keys", "bytes.NewReader":
		return true
	case "time.Now", "time.Sleep", "time.Since", "time.Until":
		return false
	}
	pk := fnPkgPath(originOf(f))
	if !purePkgs[pk] {
		return false
	}
	if f.Signature.Recv() != nil {
		rn := typeName(f.Signature.Recv().Type())
		if pk == "strings" && (rn == "Builder" || rn == "Reader") {
			return false
		}
	}
	if pk == "slices" {
		switch originOf(f).Name() {
		case "Contains", "Index", "Equal", "Max", "Min", "IndexFunc", "ContainsFunc", "Clone":
			return true
		}
		return false
	}
	return true
}

// readOnlyExternal: does not write through its arguments.
func readOnlyExternal(f *ssa.Function) bool {
	n := fullName(f)
	if pureExternal(f) {
		return true
	}
	switch n {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "fmt.Print", "fmt.Println", "fmt.Printf", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint",
		"os.ReadFile", "os.Open", "os.Stat", "os.Lstat", "os.Create", "io.ReadAll", "reflect.DeepEqual",
		"github.com/thoas/go-funk.Map", "github.com/thoas/go-funk.Filter":
		return true
	}
	pk := fnPkgPath(originOf(f))
	if strings.HasPrefix(pk, "github.com/go-faker") || pk == "time" {
		return true
	}
	if strings.Contains(pk, "santhosh-tekuri/jsonschema") && f.Name() == "Validate" {
		return true
	}
	return false
}

func (x *Exec) foldPure(st *State, f *ssa.Function, args []*Term) *Term {
	str := func(i int) (string, bool) {
		if i < len(args) && args[i].isConst() && args[i].cv().Kind() == constant.String {
			return constant.StringVal(args[i].cv()), true
		}
		return "", false
	}
	s := func(v string) *Term { return x.T.cst(constant.MakeString(v), types.Typ[types.String]) }
	switch fullName(f) {
	case "strings.TrimPrefix":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			return s(strings.TrimPrefix(a, b))
		}
	case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.Index", "strings.Count":
		a, ok := str(0)
		b, ok2 := str(1)
		if !ok || !ok2 {
			return nil
		}
		bl := func(v bool) *Term { return x.T.cst(constant.MakeBool(v), types.Typ[types.Bool]) }
		in := func(v int) *Term { return x.T.cst(constant.MakeInt64(int64(v)), types.Typ[types.Int]) }
		switch f.Name() {
		case "Contains":
			return bl(strings.Contains(a, b))
		case "HasPrefix":
			return bl(strings.HasPrefix(a, b))
		case "HasSuffix":
			return bl(strings.HasSuffix(a, b))
		case "Index":
			return in(strings.Index(a, b))
		case "Count":
			return in(strings.Count(a, b))
		}
	case "fmt.Sprintf":
		// Sprintf over plain strings and ints with %s/%d/%v becomes a concatenation
		fm, ok := str(0)
		if !ok || len(args) != 2 {
			return nil
		}
		l := args[1]
		if l.Op != "list" {
			if l.isNil() {
				l = x.T.mk("list", nil, 0, nil, nil, nil)
			} else {
				return nil
			}
		}
		return x.sprintf(fm, l.A)
	case "math.Inf":
		return nil
	}
	return nil
}

// sprintf rewrites a format with only %s, %d and %v verbs into a normal form: cat(parts...).
func (x *Exec) sprintf(fm string, args []*Term) *Term {
	var parts []*Term
	lit := ""
	ai := 0
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			lit += string(fm[i])
			continue
		}
		i++
		if i >= len(fm) {
			return nil
		}
		switch fm[i] {
		case '%':
			lit += "%"
		case 's', 'd', 'v', 'w', 'q', 'f', 'x', 't', 'T':
			if ai >= len(args) {
				return nil
			}
			if lit != "" {
				parts = append(parts, x.T.cst(constant.MakeString(lit), types.Typ[types.String]))
				lit = ""
			}
			a := args[ai]
			ai++
			if a.Op == "iface" {
				a = a.A[0]
			}
			if fm[i] == 'd' || (fm[i] == 'v' || fm[i] == 's') && !isStrT(a.T) {
				a = x.T.mk("pcall", "itoa%"+string(fm[i]), 0, types.Typ[types.String], nil, nil, a)
			} else if fm[i] != 's' && fm[i] != 'v' {
				a = x.T.mk("pcall", "fmt%"+string(fm[i]), 0, types.Typ[types.String], nil, nil, a)
			}
			parts = append(parts, a)
		default:
			return nil
		}
	}
	if lit != "" {
		parts = append(parts, x.T.cst(constant.MakeString(lit), types.Typ[types.String]))
	}
	return x.cat(parts...)
}

func isStrT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// cat is the normal form of string concatenation: left-nested +, with constants folded.
func (x *Exec) cat(parts ...*Term) *Term {
	st := types.Typ[types.String]
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "bin" && t.Aux == "+" && isStrT(t.T) {
			add(t.A[0])
			add(t.A[1])
			return
		}
		if t.isConst() && t.cv().Kind() == constant.String {
			v := constant.StringVal(t.cv())
			if v == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].isConst() {
				flat[n-1] = x.T.cst(constant.MakeString(constant.StringVal(flat[n-1].cv())+v), st)
				return
			}
		}
		if t.Op == "pcall" && t.N == 0 {
			if f, ok := t.Aux.(*ssa.Function); ok && fullName(f) == "strconv.Itoa" {
				t = x.T.mk("pcall", "itoa%d", 0, st, nil, nil, t.A[0])
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(flat) == 0 {
		return x.T.cst(constant.MakeString(""), st)
	}
	r := flat[0]
	for _, p := range flat[1:] {
		r = x.T.mk("bin", "+", 0, st, nil, nil, r, p)
	}
	return r
}

// catParts splits a string term into its concatenated parts.
func (x *Exec) catParts(t *Term) []*Term {
	t = x.cat(t)
	var out []*Term
	for t.Op == "bin" && t.Aux == "+" && isStrT(t.T) {
		out = append([]*Term{t.A[1]}, out...)
		t = t.A[0]
	}
	return append([]*Term{t}, out...)
}

func (x *Exec) builtin(fr *frame, st *State, c ssa.CallInstruction, ev *CallEvent) []*Term {
	a := ev.Args
	in := c.(ssa.Instruction)
	switch ev.Fun.Aux.(string) {
	case "len":
		return []*Term{x.lenOf(st, a[0])}
	case "cap":
		return []*Term{x.T.mk("cap", nil, 0, types.Typ[types.Int], nil, nil, a[0])}
	case "append":
		base := a[0]
		add := a[1]
		t := base.T
		if v, ok := c.(ssa.Value); ok {
			t = v.Type()
		}
		if l, ok := x.asList(st, add); ok {
			add = l
			if b, ok := x.asList(st, base); ok && len(b.A)+len(l.A) <= 32 {
				es := append(append([]*Term{}, b.A...), l.A...)
				return []*Term{x.T.mk("list", nil, 0, t, nil, nil, es...)}
			}
		}
		if b, ok := x.asList(st, base); ok {
			if len(b.A) == 0 {
				// append(empty, xs...) has the elements of xs
				base = x.T.mk("list", nil, 0, t, nil, nil)
			} else {
				base = b
			}
		}
		n := 0
		if l, ok := x.asList(st, add); ok && len(l.A) > 0 || base.Op == "list" && len(base.A) > 0 {
			n = 1
		}
		return []*Term{x.T.mk("append", nil, n, t, nil, nil, base, add)}
	case "copy":
		x.havocReach(st, a[:1], in)
		return []*Term{x.T.mk("call", "copy", 0, types.Typ[types.Int], in, st.ctx, a...)}
	case "delete":
		m := a[0]
		for k := range st.heap {
			if k.Op == "mcell" && (k.A[0] == m || m.Op != "makemap") {
				delete(st.heap, k)
			}
		}
		if m.Op == "makemap" {
			st.heap[x.T.mk("mapver", nil, 0, nil, nil, nil, m)] = x.T.mk("epoch", "m", 3, nil, in, st.ctx)
		} else if m.T != nil {
			st.epochs["map:"+m.T.Underlying().String()] = x.T.mk("epoch", "del", 0, nil, in, st.ctx)
		}
		return nil
	case "min", "max":
		var t types.Type
		if v, ok := c.(ssa.Value); ok {
			t = v.Type()
		}
		return []*Term{x.T.mk("pcall", ev.Fun.Aux.(string), 0, t, nil, nil, a...)}
	case "recover":
		return []*Term{x.T.mk("call", "recover", 0, nil, in, st.ctx)}
	case "panic":
		return []*Term{x.T.nilT()}
	}
	var out []*Term
	for i, t := range x.resultTypes(c) {
		out = append(out, x.T.mk("call", ev.Fun.Aux.(string), i, t, in, st.ctx, a...))
	}
	return out
}

func (x *Exec) runDefers(fr *frame, st *State) []Outcome {
	cur := []*State{st}
	var bad []Outcome
	for {
		var next []*State
		progressed := false
		for _, s := range cur {
			if len(s.defers) == 0 {
				for _, d := range s.looped {
					mods := map[string]bool{}
					x.P.callMods(d.in, mods)
					x.havocMods(fr, s, mods, d.in, nil)
				}
				s.looped = nil
				next = append(next, s)
				continue
			}
			progressed = true
			d := s.defers[len(s.defers)-1]
			s.defers = s.defers[:len(s.defers)-1]
			ev := &CallEvent{X: x, St: s, In: d.in, Fr: fr, Fun: d.fn, Args: d.args}
			if d.meth {
				ev.Method = d.in.Call.Method
				ev.Recv = d.args[0]
			}
			if f := d.in.Call.StaticCallee(); f != nil {
				ev.Callee = f
			}
			if d.fn != nil && (d.fn.Op == "func" || d.fn.Op == "closure") {
				ev.Callee = d.fn.Aux.(*ssa.Function)
			}
			save := x.cfg.OnCall
			if save != nil {
				x.cfg.OnCall = func(e *CallEvent) bool {
					return save(e)
				}
			}
			outs := x.dispatch(fr, s, d.in, ev)
			x.cfg.OnCall = save
			for _, o := range outs {
				if o.kind == "return" {
					next = append(next, o.st)
				} else {
					bad = append(bad, o)
				}
			}
		}
		cur = next
		if !progressed {
			break
		}
	}
	var outs []Outcome
	for _, s := range cur {
		outs = append(outs, Outcome{st: s, kind: "return"})
	}
	return append(outs, bad...)
}

func (ev *CallEvent) String() string { return fmt.Sprintf("%s%v", ev.name(), ev.Args) }

// foldFunc: searches with a predicate that compares the element with something.
func (x *Exec) foldFunc(st *State, f *ssa.Function, args []*Term) *Term {
	if fullName(originOf(f)) != "slices.ContainsFunc" && fullName(originOf(f)) != "slices.IndexFunc" || len(args) != 2 {
		return nil
	}
	fn := args[1]
	if fn.Op != "closure" && fn.Op != "func" {
		return nil
	}
	body := fn.Aux.(*ssa.Function)
	if len(body.Blocks) != 1 || len(body.Params) != 1 {
		return nil
	}
	tmp := st.clone()
	tmp.env = map[ssa.Value]*Term{}
	el := x.T.mk("param", body.Params[0], 0, body.Params[0].Type(), nil, nil)
	tmp.env[body.Params[0]] = el
	for i, fv := range body.FreeVars {
		if i < len(fn.A) {
			tmp.env[fv] = fn.A[i]
		}
	}
	fr := &frame{fn: body, fi: x.fi(body)}
	for _, in := range body.Blocks[0].Instrs {
		switch v := in.(type) {
		case *ssa.Return:
			r := x.val(tmp, v.Results[0])
			if r.Op == "bin" && r.Aux == "==" && originOf(f).Name() == "ContainsFunc" {
				a, b := strip(r.A[0]), strip(r.A[1])
				if b == el {
					a, b = b, a
				}
				if a == el && !b.any(func(t *Term) bool { return t == el }) {
					return x.T.mk("member", nil, 0, types.Typ[types.Bool], nil, nil, args[0], b)
				}
			}
			return nil
		case *ssa.Call, *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Alloc:
			return nil
		default:
			x.simple(fr, tmp, in)
		}
	}
	return nil
}
