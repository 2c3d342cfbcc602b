package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Nullness of the whole program: inside a function the engine knows, path by path, which
// pointers were tested; between functions, the parameters, fields, results, elements and captured
// variables are classes that are nil when something that may be nil flows into them.

const nilClass = "nil"

type nilFlow struct {
	to, from string
	unset    []string
	pos      string
	why      string
	fn       *ssa.Function
}

// use is an instruction that stops the program when its operand is nil.
type use struct {
	fn   *ssa.Function
	in   ssa.Instruction
	what string
	from map[string]string // class -> why
	seen bool
}

type nilness struct {
	p         *Prog
	fns       []*ssa.Function
	decoded   map[string]bool
	flows     map[string]map[string]nilFlow              // to -> from -> flow
	uses      map[*ssa.Function]map[ssa.Instruction]*use // by the function interpreted
	dissolved map[*ssa.Function]bool                     // seen only where they are called
	refused   map[*ssa.Function]bool
	taken     map[*ssa.Function]bool // used as values
	invoked   map[string]bool        // methods called through interfaces
	locals    map[ssa.Value]bool
	failed    map[*ssa.Function]string
	x         *Exec
	fn        *ssa.Function
	guards    map[string][]string
	late      map[string]bool
	smallM    map[*ssa.Function]bool
	flat      bool
	lenient   bool     // a value is put somewhere: its error may be tested afterwards
	unset     []string // fields of the object at hand that are not set
	inline    func(*ssa.Function) bool
	depth     int
	arrays    map[string]bool
	instrs    int
	steps     int
	other     *hazards
	hz        map[ssa.Instruction]map[string]*Term
	hzSeen    map[ssa.Instruction]map[string]bool
	rounds    int
	limits    []int // states to try
	deep      bool  // a dissolved function was called too deep to be seen
}

func nilable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return true
	}
	return false
}

// decodedTypes: struct types filled from JSON, so that any field that may be nil can be.
func (n *nilness) decodedTypes() {
	n.decoded = map[string]bool{}
	// a null in a list or an object
	null := func(t types.Type) {
		if nilable(t) {
			n.put(elemClass(t), nilFlow{to: elemClass(t), from: nilClass, pos: "-", why: "null"})
		}
	}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			visit(u.Elem())
		case *types.Slice:
			null(u.Elem())
			visit(u.Elem())
		case *types.Array:
			null(u.Elem())
			visit(u.Elem())
		case *types.Map:
			null(u.Elem())
			visit(u.Elem())
		case *types.Named:
			s, ok := u.Underlying().(*types.Struct)
			if !ok {
				visit(u.Underlying())
				return
			}
			k := typeName(u)
			if k == "" || n.decoded[k] || u.Obj().Pkg() == nil || n.p.Repo[relOf(u.Obj().Pkg().Path())] == nil {
				return
			}
			n.decoded[k] = true
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Exported() {
					visit(s.Field(i).Type())
				}
			}
		}
	}
	for _, f := range n.p.allBodies() {
		if !n.p.inRepo(f) {
			continue
		}
		if f.Name() == "UnmarshalJSON" && f.Signature.Recv() != nil {
			visit(f.Signature.Recv().Type())
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				nm := fullName(c.Common().StaticCallee())
				if nm != "encoding/json.Unmarshal" && nm != "encoding/json.Decoder.Decode" {
					continue
				}
				v := c.Common().Args[len(c.Common().Args)-1]
				if mi, ok := v.(*ssa.MakeInterface); ok {
					visit(mi.X.Type())
				}
			}
		}
	}
}

// fieldClass of field i of the object or value at base.
func (n *nilness) fieldClass(base *Term, st *types.Struct, i int) []string {
	var owner types.Type
	if base != nil {
		owner = base.T
	}
	if owner != nil && n.decoded[typeName(deref(owner))] {
		return []string{nilClass}
	}
	if owner == nil {
		return []string{"field:" + st.String() + "." + st.Field(i).Name()}
	}
	k := "field:" + fieldKey(deref(owner), st, i)
	if base.Op == "faddr" || base.Op == "field" {
		if s, ok := base.Aux.(*types.Struct); ok && base.A[0] != nil {
			// a struct held in a field of another object
			if o := n.fieldClass(base.A[0], s, base.N); o[0] != nilClass {
				in := o[0] + "." + st.Field(i).Name()
				n.put(k, nilFlow{to: k, from: in, pos: "-", why: "held in another object"})
				return []string{in}
			}
		}
	}
	return []string{k}
}

func elemClass(t types.Type) string { return "elem:" + t.String() }

// classes of a value that the path does not know to be non-nil; none when it is known.
func (n *nilness) classes(st *State, t *Term, d int) []string {
	x := n.x
	if t == nil || d > 12 {
		return nil
	}
	if t.isNil() {
		return []string{nilClass}
	}
	if t.Op == "zero" {
		if t.T == nil || nilable(t.T) {
			return []string{nilClass}
		}
		return nil
	}
	if x.knownNonNil(st, t) {
		return nil
	}
	switch t.Op {
	case "param":
		if t.N >= 1000 {
			return nil
		}
		if pr, ok := t.Aux.(*ssa.Parameter); ok {
			return []string{"param:" + pr.Parent().String() + "#" + strconv.Itoa(t.N)}
		}
	case "load":
		a := t.A[0]
		switch a.Op {
		case "faddr":
			if a.A[0] != nil {
				s := a.Aux.(*types.Struct)
				return n.guarded(st, n.fieldClass(a.A[0], s, a.N), func(i int) *Term { return x.load(st, x.faddr(a.A[0], s, i)) }, s, a.N)
			}
		case "iaddr":
			if t.T != nil {
				return n.listClasses(a, t.T, false)
			}
		case "global":
			return []string{"global:" + a.String()}
		case "param":
			if a.N >= 1000 {
				if fv, ok := a.Aux.(*ssa.FreeVar); ok {
					return []string{"cell:" + fv.Parent().String() + "#" + strconv.Itoa(a.N-1000)}
				}
			}
			if t.T != nil {
				return []string{"deref:" + t.T.String()}
			}
		default:
			if t.T != nil {
				return []string{"deref:" + t.T.String()}
			}
		}
	case "field":
		s := t.Aux.(*types.Struct)
		b := t.A[0]
		switch b.Op {
		case "lookup":
			if !n.found(st, b) {
				return []string{nilClass}
			}
		case "call":
			return n.resultClasses(st, b, "."+s.Field(t.N).Name())
		case "param":
			if pr, ok := b.Aux.(*ssa.Parameter); ok && b.N < 1000 && !(b.N == 0 && pr.Parent().Signature.Recv() != nil) {
				return []string{"param:" + pr.Parent().String() + "#" + strconv.Itoa(b.N) + "." + s.Field(t.N).Name()}
			}
		}
		return n.guarded(st, n.fieldClass(b, s, t.N), func(i int) *Term { return x.field(b, s, i) }, s, t.N)
	case "lookup":
		if !n.found(st, t) {
			return []string{nilClass}
		}
		return []string{elemClass(t.T)}
	case "next":
		return []string{elemClass(t.T)}
	case "call", "pcall":
		return n.resultClasses(st, t, "")
	case "tassert":
		if ok := x.T.mk("tassertok", t.T, 0, types.Typ[types.Bool], nil, nil, t.A[0]); x.holds(st, ok) {
			return nil
		}
		return []string{nilClass}
	case "loopvar":
		if ph, ok := t.Aux.(*ssa.Phi); ok {
			return []string{"phi:" + ph.Parent().String() + "#" + ph.Name()}
		}
	case "havoc":
		k := t.A[0]
		switch k.Op {
		case "faddr":
			if k.A[0] != nil {
				return n.fieldClass(k.A[0], k.Aux.(*types.Struct), k.N)
			}
		case "iaddr", "mcell":
			if e := elemType(k); e != nil {
				return []string{elemClass(e)}
			}
		case "alloc":
			return []string{"cell:" + n.cellOf(k.Site.(*ssa.Alloc))}
		}
	case "conv":
		return n.classes(st, t.A[0], d+1)
	}
	return nil
}

// guarded narrows the class of a field by the other fields of the same object the path knows to be set.
func (n *nilness) guarded(st *State, cs []string, get func(i int) *Term, s *types.Struct, f int) []string {
	if len(cs) != 1 || !strings.HasPrefix(cs[0], "field:") || n.flat {
		return cs
	}
	var g []string
	for i := 0; i < s.NumFields(); i++ {
		if i != f && n.isSet(st, get(i), s.Field(i).Type()) {
			g = append(g, s.Field(i).Name())
		}
	}
	if len(g) == 0 {
		return cs
	}
	c := cs[0] + "?" + strings.Join(g, ",")
	n.guards[c] = g
	return []string{c}
}

// isSet: the path knows the value is not the zero value of its type.
func (n *nilness) isSet(st *State, t *Term, tp types.Type) bool {
	x := n.x
	if t == nil {
		return false
	}
	b := types.Typ[types.Bool]
	switch u := tp.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			v, k := x.decide(st, x.bin("==", x.lenOf(st, t), x.T.Int(0), b))
			return k && !v
		case u.Info()&types.IsBoolean != 0:
			v, k := x.decide(st, t)
			return k && v
		case u.Info()&types.IsInteger != 0:
			v, k := x.decide(st, x.bin("==", t, x.T.Int(0), b))
			return k && !v
		}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return x.knownNonNil(st, t)
	case *types.Slice:
		lo, _ := x.interval(st, x.lenOf(st, t))
		return lo != nil && constant.Sign(lo) > 0 || x.knownNonNil(st, t)
	}
	return false
}

// isUnset: the path knows the value is the zero value of its type.
func (n *nilness) isUnset(st *State, t *Term, tp types.Type) bool {
	x := n.x
	if t == nil {
		return false
	}
	if t.Op == "zero" || t.isNil() {
		return true
	}
	b := types.Typ[types.Bool]
	switch u := tp.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			v, k := x.decide(st, x.bin("==", x.lenOf(st, t), x.T.Int(0), b))
			return k && v
		case u.Info()&types.IsBoolean != 0:
			v, k := x.decide(st, t)
			return k && !v
		case u.Info()&types.IsInteger != 0:
			v, k := x.decide(st, x.bin("==", t, x.T.Int(0), b))
			return k && v
		}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
		return x.knownNil(st, t)
	}
	return false
}

func (n *nilness) cellOf(a *ssa.Alloc) string { return a.Parent().String() + "@" + a.Name() }

// found: the path knows the key was in the map.
func (n *nilness) found(st *State, t *Term) bool {
	return n.x.holds(st, n.x.T.mk("lookupok", nil, 0, types.Typ[types.Bool], nil, nil, t.A...))
}

func lastResult(sig *types.Signature) (idx int, kind string) {
	l := sig.Results().Len()
	if l < 2 {
		return -1, ""
	}
	t := sig.Results().At(l - 1).Type()
	if types.Identical(t, errT) {
		return l - 1, "error"
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
		return l - 1, "bool"
	}
	return -1, ""
}

// resultClasses of the result of a call.
func (n *nilness) resultClasses(st *State, t *Term, field string) []string {
	x := n.x
	var sig *types.Signature
	var callees []*ssa.Function
	ext := true
	if c, ok := t.Site.(ssa.CallInstruction); ok {
		sig = c.Common().Signature()
		callees, ext = n.p.calleesOf(c)
		if f, ok := t.Aux.(*ssa.Function); ok && n.p.inRepo(f) && len(f.Blocks) > 0 && !(len(callees) == 1 && originOf(callees[0]) == f) {
			callees, ext = []*ssa.Function{f}, false
		}
	} else if f, ok := t.Aux.(*ssa.Function); ok {
		sig = f.Signature
		if n.p.inRepo(f) && len(f.Blocks) > 0 {
			callees, ext = []*ssa.Function{f}, false
		}
	}
	if sig == nil {
		return nil
	}
	good := false
	if i, kind := lastResult(sig); i >= 0 && i != t.N {
		switch kind {
		case "error":
			good = x.succeeded(st, t, i)
			if !good && n.lenient && !x.knownNonNil(st, x.errOf(t, i)) && testedLater(t, i) {
				good = true
			}
		case "bool":
			good = x.holds(st, x.result(t, i, types.Typ[types.Bool]))
		}
	} else {
		good = true
	}
	if ext && len(callees) == 0 {
		if good {
			return nil
		}
		return []string{nilClass}
	}
	var out []string
	for _, f := range callees {
		out = append(out, retClass(f, t.N, field, good))
	}
	return out
}

// testedLater: the error of the call is compared with nil somewhere in the function.
func testedLater(t *Term, i int) bool {
	c, ok := t.Site.(ssa.Value)
	if !ok {
		return false
	}
	var tested func(v ssa.Value, d int) bool
	tested = func(v ssa.Value, d int) bool {
		if v.Referrers() == nil || d > 3 {
			return false
		}
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.BinOp:
				return true
			case *ssa.Phi:
				if tested(u, d+1) {
					return true
				}
			case *ssa.Store:
				if u.Val != v {
					continue
				}
				if al, ok := u.Addr.(*ssa.Alloc); ok {
					for _, l := range *al.Referrers() {
						if ld, ok := l.(*ssa.UnOp); ok && tested(ld, d+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, r := range *c.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i && tested(ex, 0) {
			return true
		}
	}
	return false
}

func retClass(f *ssa.Function, i int, field string, good bool) string {
	k := "result:"
	if good {
		k = "success:"
	}
	return k + f.String() + "#" + strconv.Itoa(i) + field
}

func (n *nilness) put(to string, f nilFlow) {
	m := n.flows[to]
	if m == nil {
		m = map[string]nilFlow{}
		n.flows[to] = m
	}
	k := f.from + "|" + strings.Join(f.unset, ",")
	if f.fn != nil {
		k += "|" + f.fn.String()
	}
	if o, ok := m[k]; ok && o.pos <= f.pos {
		return
	}
	m[k] = f
}

func (n *nilness) flow(to string, from []string, pos, why string) {
	for _, f := range from {
		if f == to {
			continue
		}
		var un []string
		if strings.HasPrefix(to, "field:") {
			un = n.unset
		}
		n.put(to, nilFlow{to, f, un, pos, why, n.fn})
	}
}

// value: what flows into a place.
func (n *nilness) value(st *State, to string, t *Term, pos string) {
	n.lenient = true
	cs := n.classes(st, t, 0)
	n.lenient = false
	n.flow(to, cs, pos, t.String())
}

// structs: a struct value goes somewhere: its fields join the classes of the fields of the place.
func (n *nilness) structs(st *State, t *Term, tp types.Type, place, pos string) {
	s, ok := tp.Underlying().(*types.Struct)
	if !ok || n.decoded[typeName(tp)] || typeName(tp) == "" {
		return
	}
	switch t.Op {
	case "lookup", "param", "next", "load", "field":
		if place == "" {
			return
		}
	}
	n.members(st, s, tp, place, pos, func(i int) *Term { return n.x.field(t, s, i) })
}

// object: a pointer to a new object goes somewhere.
func (n *nilness) object(st *State, t *Term, pos string) {
	t = strip(t)
	if t == nil || t.Op != "alloc" {
		return
	}
	tp := deref(t.T)
	s, ok := tp.Underlying().(*types.Struct)
	if !ok || n.decoded[typeName(tp)] || typeName(tp) == "" {
		return
	}
	n.members(st, s, tp, "", pos, func(i int) *Term { return n.x.load(st, n.x.faddr(t, s, i)) })
}

func (n *nilness) members(st *State, s *types.Struct, tp types.Type, place, pos string, get func(i int) *Term) {
	defer n.unsetFields(st, s, get)()
	for i := 0; i < s.NumFields(); i++ {
		v := get(i)
		k := "field:" + fieldKey(tp, s, i)
		if place != "" {
			k = place + "." + s.Field(i).Name()
		}
		if nilable(s.Field(i).Type()) {
			if (v.isNil() || v.Op == "zero") && n.late["field:"+fieldKey(tp, s, i)] {
				continue
			}
			n.value(st, k, v, pos)
		} else {
			n.structs(st, v, s.Field(i).Type(), k, pos)
		}
	}
}

// lateFields: fields that a method of the object gives a value, so that a new object need not have one.
func (n *nilness) lateFields() {
	n.late = map[string]bool{}
	for _, f := range n.fns {
		if f.Signature.Recv() == nil {
			continue
		}
		pt, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		s, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(*ssa.Store); ok {
					if fa, ok := v.Addr.(*ssa.FieldAddr); ok && fa.X == ssa.Value(f.Params[0]) {
						if c, isC := v.Val.(*ssa.Const); !isC || !c.IsNil() {
							n.late["field:"+fieldKey(pt.Elem(), s, fa.Field)] = true
						}
					}
				}
			}
		}
	}
}

func (n *nilness) unsetFields(st *State, s *types.Struct, get func(i int) *Term) func() {
	old := n.unset
	var un []string
	for i := 0; i < s.NumFields(); i++ {
		if n.isUnset(st, get(i), s.Field(i).Type()) {
			un = append(un, s.Field(i).Name())
		}
	}
	n.unset = un
	return func() { n.unset = old }
}

func (n *nilness) goes(st *State, t *Term, tp types.Type, pos string) {
	if t == nil || tp == nil {
		return
	}
	n.object(st, t, pos)
	u := t
	if u.Op == "iface" {
		u = u.A[0]
		tp = t.T
	}
	if _, ok := tp.Underlying().(*types.Struct); ok {
		n.structs(st, u, tp, "", pos)
	}
}

func (n *nilness) onInstr(st *State, fr *frame, in ssa.Instruction) {
	x := n.x
	if !n.own(fr) {
		return
	}
	pos := n.p.instrPos(in)
	n.instrs++
	// uses
	need := func(v ssa.Value, what string) {
		t := x.val(st, v)
		if t == nil {
			return
		}
		u := n.uses[n.fn][in]
		if u == nil {
			u = &use{fn: fr.fn, in: in, what: what, from: map[string]string{}}
			if n.uses[n.fn] == nil {
				n.uses[n.fn] = map[ssa.Instruction]*use{}
			}
			n.uses[n.fn][in] = u
		}
		u.seen = true
		for _, c := range n.classes(st, t, 0) {
			if _, ok := u.from[c]; !ok {
				u.from[c] = t.String()
			}
		}
		// past this point it was not nil
		if nilable(v.Type()) && t.Op != "alloc" && t.Op != "faddr" && t.Op != "iaddr" && t.Op != "global" {
			x.assume(st, x.bin("==", t, x.T.nilT(), types.Typ[types.Bool]), false, in)
		}
	}
	switch v := in.(type) {
	case *ssa.UnOp:
		if v.Op.String() == "*" {
			need(v.X, "dereferenced")
		}
	case *ssa.FieldAddr:
		need(v.X, "field "+structOf(v.X.Type()).Field(v.Field).Name()+" used")
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			need(v.X, "indexed")
		}
	case *ssa.Store:
		need(v.Addr, "written through")
		a, val := x.val(st, v.Addr), x.val(st, v.Val)
		et := v.Val.Type()
		if a == nil || val == nil {
			return
		}
		if nilable(et) {
			switch a.Op {
			case "faddr":
				if rootTerm(a).Op == "alloc" {
					// seen when the object goes somewhere, unless it is gone already
					if al, ok := rootTerm(a).Site.(*ssa.Alloc); ok && !al.Heap {
						break
					}
				}
				for _, c := range n.fieldClass(a.A[0], a.Aux.(*types.Struct), a.N) {
					n.value(st, c, val, pos)
				}
			case "iaddr":
				for _, c := range n.listClasses(a, et, true) {
					n.value(st, c, val, pos)
				}
			case "global":
				n.value(st, "global:"+a.String(), val, pos)
			case "alloc":
				n.value(st, "cell:"+n.cellOf(a.Site.(*ssa.Alloc)), val, pos)
			case "param":
				if fv, ok := a.Aux.(*ssa.FreeVar); ok {
					n.value(st, "cell:"+fv.Parent().String()+"#"+strconv.Itoa(a.N-1000), val, pos)
					break
				}
				n.value(st, "deref:"+et.String(), val, pos)
			default:
				n.value(st, "deref:"+et.String(), val, pos)
			}
		}
		if rootTerm(a).Op == "alloc" && a.Op != "iaddr" {
			if _, whole := et.Underlying().(*types.Struct); !whole && rootTerm(a).Site.(*ssa.Alloc).Heap {
				n.goes(st, val, et, pos)
			}
		} else {
			n.goes(st, val, et, pos)
		}
	case *ssa.MapUpdate:
		need(v.Map, "written to")
		val := x.val(st, v.Value)
		if nilable(v.Value.Type()) {
			n.value(st, elemClass(v.Value.Type()), val, pos)
		}
		n.goes(st, val, v.Value.Type(), pos)
	case *ssa.MakeInterface:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok && typeName(deref(v.X.Type())) != "" {
			// its methods are called with it
			n.value(st, "held:"+deref(v.X.Type()).String(), x.val(st, v.X), pos)
		}
		n.goes(st, x.val(st, v.X), v.X.Type(), pos)
	case *ssa.MakeClosure:
		g := v.Fn.(*ssa.Function)
		for i, b := range v.Bindings {
			t := x.val(st, b)
			to := "cell:" + g.String() + "#" + strconv.Itoa(i)
			switch {
			case t == nil:
			case t.Op == "alloc":
				// what the variable holds now and whatever is stored in it at any time
				al := t.Site.(*ssa.Alloc)
				if !setBefore(al, v) {
					n.flow(to, []string{"cell:" + n.cellOf(al)}, pos, "captured")
					n.flow("cell:"+n.cellOf(al), []string{to}, pos, "captured")
				}
				if nilable(deref(al.Type())) {
					n.value(st, to, x.load(st, t), pos)
				}
			case t.Op == "param" && t.N >= 1000:
				fv := t.Aux.(*ssa.FreeVar)
				c := "cell:" + fv.Parent().String() + "#" + strconv.Itoa(t.N-1000)
				n.flow(to, []string{c}, pos, "captured")
				n.flow(c, []string{to}, pos, "captured")
			}
		}
	}
	if c, ok := in.(ssa.CallInstruction); ok {
		com := c.Common()
		if com.IsInvoke() {
			need(com.Value, "method "+com.Method.Name()+" called")
		} else if f := com.StaticCallee(); f == nil {
			if _, ok := com.Value.(*ssa.Builtin); !ok {
				need(com.Value, "called")
			}
		} else if f.Signature.Recv() != nil && !(n.p.inRepo(f) && len(f.Blocks) > 0) && len(com.Args) > 0 {
			if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				need(com.Args[0], "method "+f.Name()+" called")
			}
		}
	}
	// other hazards
	for _, z := range hazardsOf(in) {
		if z.kind == "nil" {
			continue
		}
		if n.hzSeen[in] == nil {
			n.hzSeen[in] = map[string]bool{}
		}
		n.hzSeen[in][z.kind] = true
		if ok, t := n.other.safe(x, st, z); !ok {
			if n.hz[in] == nil {
				n.hz[in] = map[string]*Term{}
			}
			n.hz[in][z.kind] = t
		}
	}
	if v, ok := in.(*ssa.TypeAssert); ok && !v.CommaOk {
		if _, okT := x.typeAssert(x.val(st, v.X), v.AssertedType); !okT.isConst() {
			x.assume(st, okT, true, in)
		}
	}
}

// setBefore: the variable is only written on the way to the closure that captures it.
func setBefore(al *ssa.Alloc, mc *ssa.MakeClosure) bool {
	for _, r := range *al.Referrers() {
		switch v := r.(type) {
		case *ssa.Store:
			if v.Addr != al {
				return false
			}
			if v.Block() == mc.Block() {
				for _, in := range v.Block().Instrs {
					if in == ssa.Instruction(mc) {
						return false
					}
					if in == ssa.Instruction(v) {
						break
					}
				}
			} else if !v.Block().Dominates(mc.Block()) {
				return false
			}
		case *ssa.MakeClosure:
			if g, ok := v.Fn.(*ssa.Function); ok {
				for i, b := range v.Bindings {
					if b != ssa.Value(al) {
						continue
					}
					for _, fr := range *g.FreeVars[i].Referrers() {
						if u, ok := fr.(*ssa.UnOp); !ok || u.Op.String() != "*" {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func (n *nilness) onCall(ev *CallEvent) bool {
	if ev.Fun != nil && ev.Fun.Op == "builtin" || ev.Fr != nil && !n.own(ev.Fr) {
		return false
	}
	if ev.Callee != nil && n.dissolved[ev.Callee] && ev.Fr != nil && ev.Fr.depth >= maxDepth {
		n.deep = true
	}
	pos := n.p.instrPos(ev.In)
	fns, _ := n.p.calleesOf(ev.In)
	if ev.Callee != nil && n.p.inRepo(ev.Callee) && len(ev.Callee.Blocks) > 0 {
		fns = []*ssa.Function{ev.Callee}
	}
	for i, a := range ev.Args {
		if a == nil {
			continue
		}
		for _, f := range fns {
			j := i
			if j >= len(f.Params) {
				continue
			}
			if i == 0 && ev.Method != nil && ev.Callee == nil {
				continue // the receiver was checked at the call
			}
			to := "param:" + f.String() + "#" + strconv.Itoa(j)
			if sl, ok := f.Params[j].Type().Underlying().(*types.Slice); ok && nilable(sl.Elem()) && n.localList(f.Params[j]) {
				b := a
				if b.Op == "slice" && b.A[1] == nil && b.A[2] == nil {
					b = b.A[0]
				}
				to := "list:" + f.String() + "#" + strconv.Itoa(j)
				if al, ok := b.Site.(*ssa.Alloc); ok && b.Op == "alloc" && n.localList(al) {
					n.flow(to, []string{"elem@" + n.cellOf(al)}, pos, "handed on")
				} else if pr, ok := b.Aux.(*ssa.Parameter); ok && b.Op == "param" && b.N < 1000 {
					n.flow(to, []string{"list:" + pr.Parent().String() + "#" + strconv.Itoa(b.N)}, pos, "handed on")
				}
			}
			if nilable(f.Params[j].Type()) {
				n.value(ev.St, to, a, pos)
			} else if s, ok := f.Params[j].Type().Underlying().(*types.Struct); ok && !(j == 0 && f.Signature.Recv() != nil) {
				for k := 0; k < s.NumFields(); k++ {
					if nilable(s.Field(k).Type()) {
						n.value(ev.St, to+"."+s.Field(k).Name(), n.x.field(a, s, k), pos)
					}
				}
			}
		}
		if !(i == 0 && ev.Callee != nil && ev.Callee.Signature.Recv() != nil) {
			n.object(ev.St, a, pos)
		}
	}
	return false
}

func (n *nilness) loops(st *State, l *Loop) {
	for _, in := range l.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v := st.env[ph]; v != nil && nilable(ph.Type()) {
			n.value(st, "phi:"+ph.Parent().String()+"#"+ph.Name(), v, n.p.instrPos(in))
		}
	}
}

// small: a function that is looked into where it is called.
func (n *nilness) small(g *ssa.Function) bool {
	if v, ok := n.smallM[g]; ok {
		return v
	}
	n.smallM[g] = false
	v := len(g.Blocks) <= 8
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case ssa.CallInstruction:
				fns, _ := n.p.calleesOf(in)
				if f := in.Common().StaticCallee(); f != nil && len(fns) == 1 && n.leaf(f) {
					continue
				}
				if len(fns) > 0 {
					v = false
				}
			case *ssa.MapUpdate, *ssa.MakeClosure:
				v = false
			}
		}
	}
	n.smallM[g] = v
	return v
}

// leaf: a short function that calls none of the library's.
func (n *nilness) leaf(g *ssa.Function) bool {
	if len(g.Blocks) > 8 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if fns, _ := n.p.calleesOf(c); len(fns) > 0 {
					return false
				}
			}
		}
	}
	return true
}

func (n *nilness) analyse(fn *ssa.Function) {
	n.fn = fn
	for _, max := range n.limits {
		delete(n.failed, fn)
		if n.attempt(fn, max); n.failed[fn] == "" {
			break
		}
	}
}

func (n *nilness) attempt(fn *ssa.Function, max int) {
	n.deep = false
	x := newExec(n.p, Config{
		Max:  max,
		Lows: true,
		Inline: func(g *ssa.Function) bool {
			return n.dissolved[g] || n.inline != nil && n.inline(g)
		},
		Fact:    func(a *Term) int { return 0 },
		OnInstr: n.onInstr,
		OnCall:  n.onCall,
		OnHead: func(st *State, fr *frame, l *Loop) {
			if n.own(fr) {
				n.loops(st, l)
			}
		},
		OnBack: func(st *State, fr *frame, l *Loop) {
			if n.own(fr) {
				n.loops(st, l)
			}
		},
	})
	n.x = x
	outs := x.Root(fn, nil)
	n.steps += x.steps
	if x.fail == "" && n.deep {
		x.fail = "a function is called too deep"
	}
	if x.fail != "" {
		n.failed[fn] = x.fail
		return
	}
	li, lk := lastResult(fn.Signature)
	for _, o := range outs {
		if o.kind != "return" {
			continue
		}
		pos := n.p.instrPos(o.at)
		for i, t := range o.rets {
			tp := fn.Signature.Results().At(i).Type()
			n.object(o.st, t, pos)
			mayGood, open := true, false
			if li >= 0 && i != li {
				last := o.rets[li]
				switch lk {
				case "error":
					mayGood = !x.knownNonNil(o.st, last)
					open = mayGood && !x.knownNil(o.st, last)
				case "bool":
					v, k := x.decide(o.st, last)
					mayGood = !k || v
					open = !k
				}
			}
			put := func(field string, v *Term) {
				n.value(o.st, retClass(fn, i, field, false), v, pos)
				if mayGood {
					st := o.st
					if open {
						st = o.st.clone()
						if lk == "error" {
							x.assume(st, x.bin("==", o.rets[li], x.T.nilT(), types.Typ[types.Bool]), true, o.at)
						} else {
							x.assume(st, o.rets[li], true, o.at)
						}
					}
					n.value(st, retClass(fn, i, field, true), v, pos)
				}
			}
			if nilable(tp) {
				put("", t)
			} else if s, ok := tp.Underlying().(*types.Struct); ok && !n.decoded[typeName(tp)] {
				for k := 0; k < s.NumFields(); k++ {
					if nilable(s.Field(k).Type()) {
						put("."+s.Field(k).Name(), x.field(t, s, k))
					}
				}
			}
		}
	}
}

var allLimits = []int{60000, 600000}

func newNilness(p *Prog) *nilness {
	n := &nilness{p: p, limits: allLimits, flows: map[string]map[string]nilFlow{}, uses: map[*ssa.Function]map[ssa.Instruction]*use{}, dissolved: map[*ssa.Function]bool{}, refused: map[*ssa.Function]bool{}, locals: map[ssa.Value]bool{}, failed: map[*ssa.Function]string{},
		guards: map[string][]string{}, smallM: map[*ssa.Function]bool{}, other: &hazards{p: p}, hz: map[ssa.Instruction]map[string]*Term{}, hzSeen: map[ssa.Instruction]map[string]bool{}}
	n.decodedTypes()
	for _, f := range p.allBodies() {
		generic := len(f.TypeArgs()) == 0 && f.TypeParams().Len() > 0 // seen by its instances
		if p.inRepo(f) && (f.Synthetic == "" || len(f.TypeArgs()) > 0) && !generic && !strings.Contains(f.String(), "/test_") && !strings.Contains(f.String(), "/test_data") && (f.Pkg == nil || f.Pkg.Pkg.Name() != "main") {
			n.fns = append(n.fns, f)
		}
	}
	n.lateFields()
	for _, f := range n.fns {
		if rc := f.Signature.Recv(); rc != nil {
			if pt, ok := rc.Type().Underlying().(*types.Pointer); ok {
				to := "param:" + f.String() + "#0"
				n.put(to, nilFlow{to: to, from: "held:" + pt.Elem().String(), pos: "-", why: "held in an interface"})
			}
		}
	}
	sort.Slice(n.fns, func(i, j int) bool { return n.fns[i].String() < n.fns[j].String() })
	return n
}

// mayBeNil is the set of classes something nil flows into, each with the flow that says so.
func (n *nilness) mayBeNil() map[string]nilFlow {
	bad := map[string]nilFlow{nilClass: {}}
	for g := range n.guards {
		if n.flows[g] == nil {
			n.flows[g] = map[string]nilFlow{}
		}
	}
	var tos []string
	for to := range n.flows {
		tos = append(tos, to)
	}
	sort.Strings(tos)
	for ch := true; ch; {
		ch = false
		for _, to := range tos {
			if _, ok := bad[to]; ok {
				continue
			}
			base := to
			g := n.guards[to]
			if g != nil {
				base = to[:strings.IndexByte(to, '?')]
			}
			var ks []string
			for k := range n.flows[base] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
		flows:
			for _, k := range ks {
				f := n.flows[base][k]
				for _, a := range g {
					for _, b := range f.unset {
						if a == b {
							continue flows
						}
					}
				}
				if _, ok := bad[f.from]; ok {
					bad[to] = f
					ch = true
					break
				}
			}
		}
	}
	return bad
}

// closely analyses functions again, looking into the small functions they call, and says whether
// every one could be.
func (n *nilness) closely(fns map[*ssa.Function]bool) bool {
	var list []*ssa.Function
	for f := range fns {
		list = append(list, f)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	all := true
	for _, f := range list {
		oldF, oldU, oldH := n.flows, n.uses, n.hz
		n.flows, n.uses, n.hz = map[string]map[string]nilFlow{}, map[*ssa.Function]map[ssa.Instruction]*use{}, map[ssa.Instruction]map[string]*Term{}
		n.inline = n.small
		n.limits = []int{60000, 200000}
		failed := n.failed[f]
		n.analyse(f)
		n.inline = nil
		n.limits = allLimits
		newF, newU, newH := n.flows, n.uses, n.hz
		n.flows, n.uses, n.hz = oldF, oldU, oldH
		if n.failed[f] != "" && failed == "" {
			delete(n.failed, f)
			all = false
			continue
		}
		n.forget(f)
		for to, m := range newF {
			for _, fl := range m {
				n.put(to, fl)
			}
		}
		n.uses[f] = newU[f]
		for in, u := range newH {
			n.hz[in] = u
		}
	}
	return all
}

// forget what the interpretation of f found.
func (n *nilness) forget(f *ssa.Function) {
	for _, m := range n.flows {
		for k, fl := range m {
			if fl.fn == f {
				delete(m, k)
			}
		}
	}
	delete(n.uses, f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			delete(n.hz, in)
		}
	}
}

// own: the frame belongs to the function being interpreted, or to one that is only seen where it
// is called.
func (n *nilness) own(fr *frame) bool { return fr.up == nil || n.dissolved[fr.fn] }

// dissolvable: every call of the function is known and can be interpreted with the function in place.
func (n *nilness) dissolvable(f *ssa.Function) bool {
	if n.dissolved[f] || n.refused[f] || f.Parent() != nil || f.Object() == nil || token.IsExported(f.Name()) || len(f.Blocks) > 60 || f.Name() == "init" {
		return false
	}
	if n.taken == nil {
		n.taken, n.invoked = map[*ssa.Function]bool{}, map[string]bool{}
		for _, g := range n.p.allBodies() {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, call := in.(ssa.CallInstruction)
					if call && c.Common().IsInvoke() {
						n.invoked[c.Common().Method.Name()] = true
					}
					for i, o := range in.Operands(nil) {
						if h, ok := (*o).(*ssa.Function); ok && !(call && i == 0 && !c.Common().IsInvoke() && c.Common().Value == *o) {
							n.taken[h] = true
						}
					}
				}
			}
		}
	}
	cs := n.p.callersOf(f)
	if n.taken[f] || len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if g := c.Parent(); g.Synthetic != "" && f.Signature.Recv() != nil && g.Name() == f.Name() && !n.invoked[f.Name()] && len(n.p.callersOf(g)) == 0 {
			continue // the method of the pointer, which nothing calls
		}
		if _, ok := c.(*ssa.Call); !ok || c.Common().StaticCallee() != f || c.Parent().Synthetic != "" && len(c.Parent().TypeArgs()) == 0 {
			return false
		}
	}
	// no recursion
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function) bool
	walk = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || !n.p.inRepo(c.Common().StaticCallee()) {
					continue
				}
				h := c.Common().StaticCallee()
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if walk(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return !walk(f)
}

// holders: the functions to interpret so that f is seen wherever it is called.
func (n *nilness) holders(f *ssa.Function, out map[*ssa.Function]bool) {
	for _, c := range n.p.callersOf(f) {
		g := c.Parent()
		if g.Synthetic != "" && len(g.TypeArgs()) == 0 {
			continue
		}
		if n.dissolved[g] {
			n.holders(g, out)
		} else {
			out[g] = true
		}
	}
}

// dissolve f into the functions that call it.
func (n *nilness) dissolve(f *ssa.Function) bool {
	flows, uses, hz := map[string]map[string]nilFlow{}, map[*ssa.Function]map[ssa.Instruction]*use{}, map[ssa.Instruction]map[string]*Term{}
	for to, m := range n.flows {
		flows[to] = map[string]nilFlow{}
		for k, v := range m {
			flows[to][k] = v
		}
	}
	for k, v := range n.uses {
		uses[k] = v
	}
	for k, v := range n.hz {
		hz[k] = v
	}
	n.dissolved[f] = true
	n.forget(f)
	hs := map[*ssa.Function]bool{}
	n.holders(f, hs)
	if n.closely(hs) {
		return true
	}
	delete(n.dissolved, f)
	n.refused[f] = true
	n.flows, n.uses, n.hz = flows, uses, hz
	return false
}

// localList: a list that is only filled and read where it is made.
func (n *nilness) localList(v ssa.Value) bool {
	if r, ok := n.locals[v]; ok {
		return r
	}
	n.locals[v] = false
	ok := v.Referrers() != nil
	if ok {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.IndexAddr:
				for _, q := range *u.Referrers() {
					switch w := q.(type) {
					case *ssa.Store:
						ok = ok && w.Addr == ssa.Value(u)
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ok = false
					}
				}
			case *ssa.Slice:
				ok = ok && u.Low == nil && u.High == nil && u.Max == nil && n.localList(u)
			case *ssa.DebugRef:
			case *ssa.Call:
				if b, is := u.Call.Value.(*ssa.Builtin); is {
					ok = ok && (b.Name() == "len" || b.Name() == "cap")
					continue
				}
				f := u.Call.StaticCallee()
				if f == nil || !n.p.inRepo(f) || len(f.Blocks) == 0 {
					ok = false
					continue
				}
				for i, a := range u.Call.Args {
					if a == v {
						ok = ok && n.localList(f.Params[i])
					}
				}
			default:
				ok = false
			}
		}
	}
	n.locals[v] = ok
	return ok
}

// listClasses of the elements at an address.
func (n *nilness) listClasses(a *Term, tp types.Type, store bool) []string {
	b := a.A[0]
	if b != nil && b.Op == "slice" && b.A[1] == nil && b.A[2] == nil {
		b = b.A[0]
	}
	if b == nil {
		return []string{elemClass(tp)}
	}
	if al, ok := b.Site.(*ssa.Alloc); ok && b.Op == "alloc" && n.localList(al) {
		return []string{"elem@" + n.cellOf(al)}
	}
	if pr, ok := b.Aux.(*ssa.Parameter); ok && b.Op == "param" && b.N < 1000 && n.localList(pr) && !store {
		return []string{elemClass(tp), "list:" + pr.Parent().String() + "#" + strconv.Itoa(b.N)}
	}
	return []string{elemClass(tp)}
}

type nilUse struct {
	u     *use
	class string
	term  string
}

// solve analyses everything and returns the uses of something that may be nil.
func (n *nilness) solve(want func(*use) bool) ([]nilUse, map[string]nilFlow) {
	for _, f := range n.fns {
		n.analyse(f)
	}
	done := map[*ssa.Function]bool{}
	for {
		n.rounds++
		bad := n.mayBeNil()
		var out []nilUse
		for _, us := range n.uses {
			for _, u := range us {
				if !want(u) {
					continue
				}
				for c, t := range u.from {
					if _, ok := bad[c]; ok {
						out = append(out, nilUse{u, c, t})
					}
				}
			}
		}
		sort.Slice(out, func(i, j int) bool {
			a, b := n.p.instrPos(out[i].u.in)+out[i].term+out[i].class, n.p.instrPos(out[j].u.in)+out[j].term+out[j].class
			return a < b
		})
		again := map[*ssa.Function]bool{}
		var chain []*ssa.Function
		for _, o := range out {
			fs := []*ssa.Function{o.u.fn}
			for k := o.class; k != nilClass; k = bad[k].from {
				if f := bad[k].fn; f != nil {
					fs = append(fs, f)
				}
			}
			for _, f := range fs {
				if !done[f] && !n.dissolved[f] {
					again[f] = true
				}
				if !n.dissolved[f] {
					chain = append(chain, f)
				}
			}
		}
		if len(again) > 0 && n.rounds <= 6 {
			for f := range again {
				done[f] = true
			}
			n.closely(again)
			continue
		}
		more := false
		for _, f := range chain {
			if len(n.dissolved) < 12 && n.dissolvable(f) && n.dissolve(f) {
				more = true
				break
			}
		}
		if !more {
			return out, bad
		}
	}
}

func chainNil(bad map[string]nilFlow, c string) string {
	var out []string
	for i := 0; c != nilClass && i < 8; i++ {
		f, ok := bad[c]
		if !ok {
			break
		}
		out = append(out, fmt.Sprintf("%s at %s", c, f.pos))
		c = f.from
	}
	return strings.Join(out, " <- ")
}
