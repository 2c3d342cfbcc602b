package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type tokenPos = token.Pos

// Term is a hash-consed value number.
type Term struct {
	id   int
	Op   string
	A    []*Term
	Aux  interface{}
	N    int // field index, result index, ...
	T    types.Type
	Site ssa.Instruction
	Ctx  *Ctx
	c    constant.Value
	blur bool // built from a field that is not told apart
}

// Ctx is a calling context: chain of call sites (and unrolled iterations).
type Ctx struct {
	id     int
	Parent *Ctx
	Call   ssa.Instruction // call site (nil for unroll contexts)
	Loop   *Loop           // unrolled loop
	Iter   int
	Fn     *ssa.Function
	kids   map[string]*Ctx
}

type Terms struct {
	tab    map[string]*Term
	next   int
	tmap   typeutil.Map
	tn     int
	auxID  map[interface{}]int
	ctxN   int
	ownsMM map[[3]int]bool
}

func newTerms() *Terms {
	return &Terms{tab: map[string]*Term{}, auxID: map[interface{}]int{}, ownsMM: map[[3]int]bool{}}
}

func (ts *Terms) typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	if v := ts.tmap.At(t); v != nil {
		return v.(int)
	}
	ts.tn++
	ts.tmap.Set(t, ts.tn)
	return ts.tn
}

func (ts *Terms) aux(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return ""
	case string:
		return "s" + v
	case int:
		return "i" + strconv.Itoa(v)
	case types.Type:
		return "t" + strconv.Itoa(ts.typeID(v))
	}
	id, ok := ts.auxID[x]
	if !ok {
		id = len(ts.auxID) + 1
		ts.auxID[x] = id
	}
	return "#" + strconv.Itoa(id)
}

func (ts *Terms) mk(op string, aux interface{}, n int, t types.Type, site ssa.Instruction, ctx *Ctx, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(ts.aux(aux))
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(n))
	b.WriteByte('|')
	if site != nil {
		b.WriteString(ts.aux(site))
	}
	b.WriteByte('|')
	if ctx != nil {
		b.WriteString(strconv.Itoa(ctx.id))
	}
	if op == "zero" || op == "nil" || op == "iface" || op == "conv" || op == "tassert" {
		b.WriteString("|t")
		b.WriteString(strconv.Itoa(ts.typeID(t)))
	}
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if x, ok := ts.tab[k]; ok {
		return x
	}
	ts.next++
	x := &Term{id: ts.next, Op: op, Aux: aux, N: n, T: t, Site: site, Ctx: ctx, A: args}
	if op != "call" {
		for _, a := range args {
			x.blur = x.blur || a != nil && a.blur
		}
	}
	ts.tab[k] = x
	return x
}

func (ts *Terms) ctx(parent *Ctx, call ssa.Instruction, loop *Loop, iter int, fn *ssa.Function) *Ctx {
	if parent == nil {
		ts.ctxN++
		return &Ctx{id: ts.ctxN, Fn: fn, kids: map[string]*Ctx{}}
	}
	k := fmt.Sprintf("%s/%s/%d/%s", ts.aux(call), ts.aux(loop), iter, ts.aux(fn))
	if call == nil {
		k = fmt.Sprintf("-/%s/%d", ts.aux(loop), iter)
	}
	if c, ok := parent.kids[k]; ok {
		return c
	}
	ts.ctxN++
	c := &Ctx{id: ts.ctxN, Parent: parent, Call: call, Loop: loop, Iter: iter, Fn: fn, kids: map[string]*Ctx{}}
	parent.kids[k] = c
	return c
}

func (ts *Terms) cst(c constant.Value, t types.Type) *Term {
	if c == nil {
		return ts.zero(t)
	}
	if c.Kind() == constant.Float {
		if i := constant.ToInt(c); i.Kind() == constant.Int {
			c = i
		}
	}
	return ts.mk("const", c.ExactString()+":"+c.Kind().String(), 0, t, nil, nil).withConst(c)
}

func (t *Term) withConst(c constant.Value) *Term { t.c = c; return t }

func (t *Term) cv() constant.Value { return t.c }

func (t *Term) isConst() bool { return t.Op == "const" }

func (ts *Terms) Bool(b bool) *Term  { return ts.cst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (ts *Terms) Str(s string) *Term { return ts.cst(constant.MakeString(s), types.Typ[types.String]) }
func (ts *Terms) Int(i int64) *Term  { return ts.cst(constant.MakeInt64(i), types.Typ[types.Int]) }

// zero value of a type (nil for pointers, interfaces, slices, maps...)
func (ts *Terms) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ts.Bool(false)
		case u.Info()&types.IsString != 0:
			return ts.cst(constant.MakeString(""), t)
		case u.Info()&types.IsInteger != 0:
			return ts.cst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return ts.cst(constant.ToInt(constant.MakeInt64(0)), t)
		}
		return ts.nilT()
	case *types.Struct, *types.Array:
		return ts.mk("zero", nil, 0, t, nil, nil)
	}
	return ts.nilT()
}

func (ts *Terms) nilT() *Term { return ts.mk("nil", nil, 0, types.Typ[types.UntypedNil], nil, nil) }

func (t *Term) isNil() bool { return t.Op == "nil" }

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 5 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.A {
			if a != nil || t.Op != "sload" {
				s = append(s, a.str(d+1))
			}
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.c.String()
	case "nil":
		return "nil"
	case "zero":
		return "zero(" + typeName(t.T) + ")"
	case "param":
		return t.Aux.(ssa.Value).Name()
	case "global":
		return t.Aux.(*ssa.Global).Name()
	case "func", "closure":
		return t.Aux.(*ssa.Function).Name()
	case "faddr", "field":
		return t.A[0].str(d+1) + "." + fieldName(t)
	case "load":
		return "*" + t.A[0].str(d+1)
	case "alloc":
		if al, ok := t.Site.(*ssa.Alloc); ok && al.Comment != "" {
			return "&" + al.Comment
		}
		return fmt.Sprintf("alloc%d", t.id)
	case "bin":
		return "(" + t.A[0].str(d+1) + " " + t.Aux.(string) + " " + t.A[1].str(d+1) + ")"
	case "un":
		return t.Aux.(string) + t.A[0].str(d+1)
	case "pcall", "call":
		nm := "?"
		switch f := t.Aux.(type) {
		case *ssa.Function:
			nm = f.Name()
		case string:
			nm = f
		}
		s := nm + "(" + as() + ")"
		if t.N > 0 {
			s += "#" + strconv.Itoa(t.N)
		}
		return s
	case "iface", "conv", "tassert":
		return t.A[0].str(d + 1)
	case "loopvar":
		if ph, ok := t.Aux.(*ssa.Phi); ok && ph.Comment != "" {
			return "loop:" + ph.Comment
		}
		return "loopvar"
	case "iaddr", "elem":
		return t.A[0].str(d+1) + "[" + t.A[1].str(d+1) + "]"
	}
	s := t.Op
	if x, ok := t.Aux.(string); ok {
		s += ":" + x
	}
	return s + "(" + as() + ")"
}

func fieldName(t *Term) string {
	if st, ok := t.Aux.(*types.Struct); ok {
		return st.Field(t.N).Name()
	}
	return "f" + strconv.Itoa(t.N)
}

// mentions reports whether the term contains a subterm satisfying f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.A {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}
