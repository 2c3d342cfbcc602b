package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Where strings come from: a flow-insensitive slice through slices of strings, map keys, library
// copies and calls (followed with their call site, so that helpers used with different lists stay apart).

type pctx struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	up   *pctx
}

// ctxOf is the call stack of a frame.
func ctxOf(fr *frame) *pctx {
	if fr == nil {
		return nil
	}
	return &pctx{fn: fr.fn, call: fr.call, up: ctxOf(fr.up)}
}

type provKey struct {
	v    ssa.Value
	kind byte
	call ssa.CallInstruction
}

type prov struct {
	p    *Prog
	out  map[string]bool
	seen map[provKey]bool
}

// provenance of a string: "elem Type.Field", "key Type.Field", "new <what>".
func (p *Prog) provenance(v ssa.Value, c *pctx) []string {
	q := &prov{p: p, out: map[string]bool{}, seen: map[provKey]bool{}}
	q.walk(v, 's', c)
	var l []string
	for s := range q.out {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}

func (q *prov) add(kind byte, what string) {
	switch kind {
	case 'e':
		what = "elem " + what
	case 'k':
		what = "key " + what
	default:
		what = "new " + what
	}
	q.out[what] = true
}

// walk: kind 's' the string itself, 'e' the elements of a slice or array (or pointer to one), 'k' the keys of a map.
func (q *prov) walk(v ssa.Value, kind byte, c *pctx) {
	var call ssa.CallInstruction
	if c != nil {
		call = c.call
	}
	k := provKey{v, kind, call}
	if q.seen[k] {
		return
	}
	q.seen[k] = true
	switch x := v.(type) {
	case *ssa.Const:
		if kind == 's' {
			q.add(kind, "constant "+x.String())
		}
		// nil slices and maps have no elements
	case *ssa.Phi:
		for _, e := range x.Edges {
			q.walk(e, kind, c)
		}
	case *ssa.ChangeType:
		q.walk(x.X, kind, c)
	case *ssa.Convert:
		q.walk(x.X, kind, c)
	case *ssa.MakeInterface:
		q.walk(x.X, kind, c)
	case *ssa.TypeAssert:
		q.walk(x.X, kind, c)
	case *ssa.Slice:
		q.walk(x.X, kind, c)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			rg := t.Iter.(*ssa.Range)
			if kind == 's' && x.Index == 1 {
				q.walk(rg.X, 'k', c)
				return
			}
		case *ssa.TypeAssert:
			q.walk(t.X, kind, c)
			return
		case *ssa.Call:
			q.result(t, x.Index, kind, c)
			return
		}
		q.add('s', x.String())
	case *ssa.Call:
		q.result(x, 0, kind, c)
	case *ssa.Parameter:
		if c == nil || c.fn != x.Parent() {
			q.add('s', "parameter "+x.Name()+" of "+x.Parent().Name())
			return
		}
		for i, p := range x.Parent().Params {
			if p != x {
				continue
			}
			if c.call == nil || c.up == nil {
				q.add(kind, "parameter "+x.Name())
				return
			}
			args := c.call.Common().Args
			if c.call.Common().IsInvoke() {
				i--
			}
			if i >= 0 && i < len(args) && len(args) >= len(x.Parent().Params)-1 {
				q.walk(args[i], kind, c.up)
				return
			}
		}
		q.add('s', "parameter "+x.Name())
	case *ssa.FreeVar:
		f := x.Parent()
		up := c
		if c != nil && c.fn == f {
			up = c.up
		}
		for i, w := range f.FreeVars {
			if w != x || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						q.walk(mc.Bindings[i], kind, up)
					}
				}
			}
		}
	case *ssa.Field:
		q.field(x.X.Type(), x.Field, kind)
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
				// a local copy of a struct
				q.field(deref(a.X.Type()), a.Field, kind)
				return
			}
			q.field(deref(a.X.Type()), a.Field, kind)
		case *ssa.IndexAddr:
			if kind == 's' {
				q.walk(a.X, 'e', c)
				return
			}
			q.add('s', x.String())
		case *ssa.Global:
			q.add(kind, a.Name())
		default:
			q.cell(x.X, kind, c)
		}
	case *ssa.Alloc:
		// a pointer to a slice, or a local array or map cell
		if _, isArr := deref(x.Type()).Underlying().(*types.Array); isArr {
			q.stores(x, kind, c)
			return
		}
		q.cell(x, kind, c)
	case *ssa.MakeSlice:
		q.stores(x, kind, c)
	case *ssa.MakeMap:
		q.updates(x, kind, c)
	case *ssa.FieldAddr:
		q.field(deref(x.X.Type()), x.Field, kind)
	default:
		q.add('s', v.String())
	}
}

func (q *prov) field(t types.Type, i int, kind byte) {
	st := structOf(t)
	name := typeName(t)
	if st != nil && i < st.NumFields() {
		name += "." + st.Field(i).Name()
	}
	q.add(kind, name)
}

// cell: what is stored in a variable.
func (q *prov) cell(addr ssa.Value, kind byte, c *pctx) {
	if pr, ok := addr.(*ssa.Parameter); ok {
		// a pointer handed in
		q.walk(pr, kind, c)
		return
	}
	if fv, ok := addr.(*ssa.FreeVar); ok {
		q.walk(fv, kind, c)
		return
	}
	refs := addr.Referrers()
	if refs == nil {
		q.add('s', addr.String())
		return
	}
	n := 0
	for _, r := range *refs {
		switch s := r.(type) {
		case *ssa.Store:
			if s.Addr == addr {
				q.walk(s.Val, kind, c)
				n++
			}
		case *ssa.MakeClosure:
			f := s.Fn.(*ssa.Function)
			for i, b := range s.Bindings {
				if b != addr {
					continue
				}
				for _, r2 := range *f.FreeVars[i].Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == f.FreeVars[i] {
						q.walk(st.Val, kind, &pctx{fn: f, call: nil, up: c})
					}
				}
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Slice:
		case *ssa.Call:
			if f := s.Call.StaticCallee(); f == nil || !q.readsOnly(f, s, addr) {
				q.add('s', "what "+s.String()+" stores")
			}
		}
	}
	_ = n
}

// readsOnly: a repository function that stores nothing through the pointer it is given.
func (q *prov) readsOnly(f *ssa.Function, call *ssa.Call, arg ssa.Value) bool {
	if !q.p.inRepo(f) || f.Blocks == nil {
		return readOnlyExternal(f)
	}
	for i, a := range call.Call.Args {
		if a != arg || i >= len(f.Params) {
			continue
		}
		for _, r := range *f.Params[i].Referrers() {
			switch s := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if s.Addr == f.Params[i] {
					return false
				}
			case *ssa.BinOp:
			default:
				return false
			}
		}
	}
	return true
}

// stores: elements written by index into slices and arrays of strings made in the same function.
func (q *prov) stores(mk ssa.Value, kind byte, c *pctx) {
	if kind != 'e' {
		q.add('s', mk.String())
		return
	}
	f := mk.Parent()
	direct := false
	if al, ok := mk.(*ssa.Alloc); ok {
		// the array behind a literal or a variadic call: only its own stores
		direct = true
		for _, r := range *al.Referrers() {
			switch r.(type) {
			case *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
			default:
				direct = false
			}
		}
	}
	if direct {
		for _, r := range *mk.(*ssa.Alloc).Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
						q.walk(s.Val, 's', c)
					}
				}
			}
		}
	}
	q.indexed(f, c)
}

// indexed: every string stored by index through a slice in f and its closures.
func (q *prov) indexed(f *ssa.Function, c *pctx) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !isStringT(s.Val.Type()) {
				continue
			}
			if _, isSl := ia.X.Type().Underlying().(*types.Slice); !isSl {
				continue
			}
			cc := c
			if c != nil && c.fn != f {
				cc = &pctx{fn: f, up: c}
			}
			q.walk(s.Val, 's', cc)
		}
	}
	for _, g := range f.AnonFuncs {
		q.indexed(g, &pctx{fn: g, up: c})
	}
}

// updates: keys put into a map made here.
func (q *prov) updates(mk *ssa.MakeMap, kind byte, c *pctx) {
	if kind != 'k' {
		q.add('s', mk.String())
		return
	}
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				if u.Map == v {
					q.walk(u.Key, 's', c)
				}
			case *ssa.Phi:
				visit(u)
			case *ssa.Store:
				if u.Val == v {
					for _, r2 := range *u.Addr.Referrers() {
						if ld, ok := r2.(*ssa.UnOp); ok {
							visit(ld)
						}
					}
				}
			case *ssa.Call:
				if f := u.Call.StaticCallee(); f != nil && q.p.inRepo(f) && f.Blocks != nil {
					for i, a := range u.Call.Args {
						if a == v && i < len(f.Params) {
							for _, r2 := range *f.Params[i].Referrers() {
								if mu, ok := r2.(*ssa.MapUpdate); ok {
									q.walk(mu.Key, 's', &pctx{fn: f, call: u, up: c})
								}
							}
						}
					}
				}
			}
		}
	}
	visit(mk)
}

func (q *prov) result(call *ssa.Call, idx int, kind byte, c *pctx) {
	com := &call.Call
	if b, ok := com.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && kind == 'e' {
			for _, a := range com.Args {
				q.walk(a, 'e', c)
			}
			return
		}
		q.add('s', call.String())
		return
	}
	f := com.StaticCallee()
	if f == nil {
		q.add('s', call.String())
		return
	}
	if q.p.inRepo(f) && f.Blocks != nil {
		for d, n := c, 0; d != nil; d, n = d.up, n+1 {
			if d.fn == f && d.call == call || n > 12 {
				return
			}
		}
		nc := &pctx{fn: f, call: call, up: c}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && idx < len(ret.Results) {
					q.walk(ret.Results[idx], kind, nc)
				}
			}
		}
		return
	}
	switch fullName(f) {
	case "github.com/thoas/go-funk.UniqString", "github.com/thoas/go-funk.FilterString", "github.com/thoas/go-funk.DifferenceString", "github.com/thoas/go-funk.SubtractString", "github.com/thoas/go-funk.ReverseStrings", "slices.Clone", "slices.Sorted", "slices.Collect", "slices.Compact", "slices.Clip", "slices.Concat", "slices.Values", "slices.DeleteFunc", "slices.Delete", "slices.Insert", "slices.AppendSeq", "slices.Grow":
		if kind == 'e' {
			q.listArgs(com.Args, c)
			return
		}
	case "maps.Keys":
		if kind == 'e' && len(com.Args) == 1 {
			q.walk(com.Args[0], 'k', c)
			return
		}
	case "maps.Clone":
		if kind == 'k' {
			q.walk(com.Args[0], kind, c)
			return
		}
	}
	if o := originOf(f); o != f {
		switch fullName(o) {
		case "slices.Clone", "slices.Sorted", "slices.Collect", "slices.Compact", "slices.Clip", "slices.Concat", "slices.Values", "slices.DeleteFunc", "slices.Delete", "slices.Insert", "slices.AppendSeq", "slices.Grow":
			if kind == 'e' {
				q.listArgs(com.Args, c)
				return
			}
		case "maps.Clone":
			q.walk(com.Args[0], kind, c)
			return
		case "maps.Keys":
			if kind == 'e' && len(com.Args) == 1 {
				q.walk(com.Args[0], 'k', c)
				return
			}
		}
	}
	q.add('s', "result of "+fullName(f))
}

// listArgs: the elements of the arguments of a library function that only selects and joins.
func (q *prov) listArgs(args []ssa.Value, c *pctx) {
	for _, a := range args {
		switch t := a.Type().Underlying().(type) {
		case *types.Slice:
			q.walk(a, 'e', c)
		case *types.Signature:
			if t.Params().Len() == 1 {
				if _, isFn := t.Params().At(0).Type().Underlying().(*types.Signature); isFn {
					q.walk(a, 'e', c) // a sequence
				}
			}
		}
	}
}
