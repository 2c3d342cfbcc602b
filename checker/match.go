package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fieldRead recognises the value of a struct field: owner type name, field name, base.
func fieldRead(t *Term) (owner, name string, base *Term, ok bool) {
	if t == nil {
		return
	}
	switch t.Op {
	case "load":
		a := t.A[0]
		if a.Op == "faddr" {
			return ownerName(a), fieldName(a), a.A[0], true
		}
	case "field":
		return ownerName(t), fieldName(t), t.A[0], true
	}
	return
}

func ownerName(t *Term) string {
	b := t.A[0]
	if b != nil && b.T != nil {
		if n := typeName(b.T); n != "" {
			return n
		}
	}
	return ""
}

func isField(t *Term, owner, name string) bool {
	o, n, _, ok := fieldRead(t)
	return ok && o == owner && n == name
}

// strip removes interface and identity conversions.
func strip(t *Term) *Term {
	for t != nil && (t.Op == "iface" || t.Op == "conv" && len(t.A) == 1) {
		t = t.A[0]
	}
	return t
}

func stripI(t *Term) *Term {
	for t != nil && t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

// callTo: a call result of the named function (pkg.Func or pkg.Type.Method).
func callTo(t *Term, names ...string) bool {
	if t == nil || t.Op != "pcall" && t.Op != "call" {
		return false
	}
	var n string
	switch f := t.Aux.(type) {
	case *ssa.Function:
		n = fullName(f)
	case string:
		n = f
	}
	for _, w := range names {
		if n == w {
			return true
		}
	}
	return false
}

func strConst(t *Term) (string, bool) {
	t = strip(t)
	if t != nil && t.isConst() && t.cv().Kind() == constant.String {
		return constant.StringVal(t.cv()), true
	}
	return "", false
}

func intConst(t *Term) (int64, bool) {
	if t != nil && t.isConst() && t.cv().Kind() == constant.Int {
		return constant.Int64Val(t.cv())
	}
	return 0, false
}

func isStr(t *Term, s string) bool {
	v, ok := strConst(t)
	return ok && v == s
}

// eqOperands: the atom is an equality; returns both sides without interface wrapping.
func eqOperands(a *Term) (l, r *Term, ok bool) {
	if a.Op == "bin" && a.Aux == "==" {
		return strip(a.A[0]), strip(a.A[1]), true
	}
	if callTo(a, "strings.EqualFold") {
		return strip(a.A[0]), strip(a.A[1]), true
	}
	return nil, nil, false
}

// membership: the atom says that elem is in the collection.
func membership(a *Term) (coll, elem *Term, ok bool) {
	if callTo(a, "github.com/thoas/go-funk.Contains", "github.com/thoas/go-funk.ContainsString", "github.com/thoas/go-funk.InStrings", "slices.Contains") {
		return strip(a.A[0]), strip(a.A[1]), true
	}
	if a.Op == "member" {
		return strip(a.A[0]), strip(a.A[1]), true
	}
	if a.Op == "lookupok" {
		return a.A[0], strip(a.A[1]), true
	}
	if l, r, o := eqOperands(a); o {
		if c, isE := elemOf(l); isE {
			return c, r, true
		}
		if c, isE := elemOf(r); isE {
			return c, l, true
		}
	}
	return nil, nil, false
}

// elemOf: the value is an element of a slice (read at some index).
func elemOf(t *Term) (*Term, bool) {
	t = strip(t)
	if t == nil {
		return nil, false
	}
	if t.Op == "load" && t.A[0].Op == "iaddr" {
		return t.A[0].A[0], true
	}
	if t.Op == "sload" && t.A[0].Op == "iaddr" {
		return t.A[0].A[0], true
	}
	if t.Op == "elem" {
		return t.A[0], true
	}
	if t.Op == "lookup" {
		return t.A[0], true
	}
	return nil, false
}

// errNil: the path knows whether an error value is nil.
func (x *Exec) isNilFact(st *State, t *Term) (nilv, known bool) {
	if t.isNil() {
		return true, true
	}
	return x.decide(st, x.bin("==", t, x.T.nilT(), types.Typ[types.Bool]))
}

// knownNil reports that t is nil on this path.
func (x *Exec) knownNil(st *State, t *Term) bool {
	v, k := x.isNilFact(st, t)
	return k && v
}

func (x *Exec) knownNonNil(st *State, t *Term) bool {
	v, k := x.isNilFact(st, t)
	return k && !v
}

// sibling result of the same call
func (x *Exec) result(t *Term, n int, tp types.Type) *Term {
	return x.T.mk(t.Op, t.Aux, n, tp, t.Site, t.Ctx, t.A...)
}

var errT = types.Universe.Lookup("error").Type()

// errOf is the error result (index n) of the call that produced t.
func (x *Exec) errOf(t *Term, n int) *Term { return x.result(t, n, errT) }

// succeeded: the call that produced t returned a nil error as result n on this path.
func (x *Exec) succeeded(st *State, t *Term, n int) bool {
	return x.knownNil(st, x.errOf(t, n))
}

func rootParamIs(t *Term) bool { return t != nil && t.Op == "param" }

// trailOf renders the conditions that lead to a state.
func trailOf(st *State) string {
	s := st.trail(9)
	return strings.ReplaceAll(s, "\n", " ")
}

// concrete method functions of repository types implementing the interface, with the type they belong to
func recvType(f *ssa.Function) types.Type {
	if f.Signature.Recv() == nil {
		return nil
	}
	return f.Signature.Recv().Type()
}

func recvName(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil {
		return ""
	}
	return typeName(f.Signature.Recv().Type())
}
