package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, field-sensitive points-to analysis (inclusion based, allocation sites as
// objects) over a set of functions. Objects that exist before the region runs carry a label;
// what is read from a labelled object is labelled with the access path.

type ptObj struct {
	id    int
	site  ssa.Value
	label string
	typ   types.Type // dynamic type when known
	ext   bool
}

type ptLoc struct {
	o    *ptObj
	path string
}

func (l ptLoc) String() string {
	if l.o.label != "" {
		return l.o.label + l.path
	}
	if l.o.site != nil {
		return "new@" + l.o.site.Name() + l.path
	}
	return "?" + l.path
}

type ptSet map[ptLoc]bool

type ptKey struct {
	v ssa.Value
	i int
}

type PTS struct {
	p       *Prog
	region  map[*ssa.Function]bool
	objs    map[ssa.Value]*ptObj
	vals    map[ptKey]ptSet
	cells   map[ptLoc]ptSet
	sources map[ptLoc]ptSet // whole values copied into a location
	under   map[*ptObj]map[string]bool
	extArgs map[*ptObj]ptSet
	globals map[*ssa.Global]*ptObj
	changed bool
	n       int
	memo    map[ptLoc]ptSet
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func newPTS(p *Prog, region map[*ssa.Function]bool) *PTS {
	return &PTS{p: p, region: region, objs: map[ssa.Value]*ptObj{}, vals: map[ptKey]ptSet{}, cells: map[ptLoc]ptSet{}, sources: map[ptLoc]ptSet{},
		under: map[*ptObj]map[string]bool{}, extArgs: map[*ptObj]ptSet{}, globals: map[*ssa.Global]*ptObj{}}
}

func (a *PTS) obj(v ssa.Value) *ptObj {
	o := a.objs[v]
	if o == nil {
		a.n++
		o = &ptObj{id: a.n, site: v}
		if isAgg(v.Type()) {
			o.typ = v.Type()
		}
		a.objs[v] = o
	}
	return o
}

// labelled makes an object that existed before.
func (a *PTS) labelled(label string) *ptObj {
	a.n++
	return &ptObj{id: a.n, label: label}
}

// seedParam: the parameter refers to an object from outside.
func (a *PTS) seedParam(v *ssa.Parameter, label string) {
	o := a.labelled(label)
	if isAgg(v.Type()) {
		a.objs[v] = o
		return
	}
	a.add(ptKey{v, 0}, ptLoc{o, ""})
}

func (a *PTS) add(k ptKey, l ptLoc) {
	s := a.vals[k]
	if s == nil {
		s = ptSet{}
		a.vals[k] = s
	}
	if !s[l] {
		s[l] = true
		a.changed = true
	}
}

func (a *PTS) addAll(k ptKey, ls ptSet) {
	for l := range ls {
		a.add(k, l)
	}
}

func step(l ptLoc, s string) ptLoc {
	limit := 5
	if l.o.label != "" {
		limit = 2
	}
	if l.o.ext || strings.Count(l.path, ".")+strings.Count(l.path, "[") >= limit {
		return l
	}
	return ptLoc{l.o, l.path + s}
}

// load: what the reference stored at a location may point to.
func (a *PTS) load(l ptLoc) ptSet {
	out := ptSet{}
	a.loadInto(l, out, map[ptLoc]bool{})
	return out
}

func (a *PTS) loadInto(l ptLoc, out ptSet, seen map[ptLoc]bool) {
	if seen[l] {
		return
	}
	seen[l] = true
	if l.o.label != "" {
		out[l] = true
		return
	}
	if l.o.ext {
		out[l] = true
		for x := range a.extArgs[l.o] {
			if x.o.label != "" {
				out[x] = true
			}
		}
		return
	}
	for x := range a.cells[l] {
		out[x] = true
	}
	// values copied in as a whole at a prefix
	pre := l.path
	for {
		for src := range a.sources[ptLoc{l.o, pre}] {
			a.loadInto(join(src, l.path[len(pre):]), out, seen)
		}
		if pre == "" {
			break
		}
		pre = cutStep(pre)
	}
}

func join(l ptLoc, rest string) ptLoc {
	for rest != "" {
		e := nextStep(rest)
		l = step(l, rest[:e])
		rest = rest[e:]
	}
	return l
}

func nextStep(s string) int {
	for i := 1; i < len(s); i++ {
		if s[i] == '.' || s[i] == '[' {
			return i
		}
	}
	return len(s)
}

func cutStep(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' || s[i] == '[' {
			return s[:i]
		}
	}
	return ""
}

func (a *PTS) addCell(l ptLoc, x ptLoc) {
	if l.o.label != "" || l.o.ext {
		return
	}
	s := a.cells[l]
	if s == nil {
		s = ptSet{}
		a.cells[l] = s
	}
	if !s[x] {
		s[x] = true
		a.changed = true
	}
}

func (a *PTS) addSource(l ptLoc, src ptLoc) {
	if l.o.label != "" || l.o.ext || l == src {
		return
	}
	s := a.sources[l]
	if s == nil {
		s = ptSet{}
		a.sources[l] = s
	}
	if !s[src] {
		s[src] = true
		a.changed = true
	}
}

// pts of a reference-typed value
func (a *PTS) pts(v ssa.Value) ptSet {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		o := a.globals[x]
		if o == nil {
			o = a.labelled("global " + x.Name())
			a.globals[x] = o
		}
		return ptSet{ptLoc{o, ""}: true}
	case *ssa.Function:
		return nil
	}
	return a.vals[ptKey{v, 0}]
}

// put stores value v into a location.
func (a *PTS) put(l ptLoc, v ssa.Value) {
	t := v.Type()
	switch {
	case isAgg(t):
		if _, isC := v.(*ssa.Const); !isC {
			a.addSource(l, ptLoc{a.obj(v), ""})
		}
	case isRef(t):
		for x := range a.pts(v) {
			a.addCell(l, x)
		}
	}
}

// get reads a location into a register (result i of v).
func (a *PTS) get(l ptLoc, v ssa.Value, t types.Type, i int) {
	switch {
	case isAgg(t):
		if i == 0 {
			a.addSource(ptLoc{a.obj(v), ""}, l)
		} else {
			a.add(ptKey{v, i}, l) // tuple component: locations it is copied from
		}
	case isRef(t):
		for x := range a.load(l) {
			a.add(ptKey{v, i}, x)
		}
	}
}

// move copies value w to register v.
func (a *PTS) move(v, w ssa.Value) {
	t := v.Type()
	switch {
	case isAgg(t):
		if _, isC := w.(*ssa.Const); !isC {
			a.addSource(ptLoc{a.obj(v), ""}, ptLoc{a.obj(w), ""})
		}
	case isRef(t):
		a.addAll(ptKey{v, 0}, a.pts(w))
	}
}

func (a *PTS) fieldStep(t types.Type, i int) string {
	return "." + structOf(t).Field(i).Name()
}

func (a *PTS) run() {
	var fns []*ssa.Function
	for f := range a.region {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for round := 0; round < 200; round++ {
		a.changed = false
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.instr(f, in)
				}
			}
		}
		if !a.changed {
			return
		}
	}
}

func (a *PTS) instr(f *ssa.Function, in ssa.Instruction) {
	switch v := in.(type) {
	case *ssa.Alloc:
		o := a.obj(v)
		o.typ = deref(v.Type())
		a.add(ptKey{v, 0}, ptLoc{o, ""})
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		vv := in.(ssa.Value)
		o := a.obj(vv)
		o.typ = vv.Type()
		a.add(ptKey{vv, 0}, ptLoc{o, ""})
	case *ssa.MakeClosure:
		o := a.obj(v)
		o.typ = v.Type()
		a.add(ptKey{v, 0}, ptLoc{o, ""})
		fn := v.Fn.(*ssa.Function)
		for i, b := range v.Bindings {
			if isRef(b.Type()) {
				a.addAll(ptKey{fn.FreeVars[i], 0}, a.pts(b))
			} else if isAgg(b.Type()) {
				a.addSource(ptLoc{a.obj(fn.FreeVars[i]), ""}, ptLoc{a.obj(b), ""})
			}
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			a.move(v, e)
		}
	case *ssa.ChangeType:
		a.move(v, v.X)
	case *ssa.ChangeInterface:
		a.move(v, v.X)
	case *ssa.Convert:
		// string <-> bytes conversions make new memory
		if isRef(v.Type()) {
			if isRef(v.X.Type()) {
				a.move(v, v.X)
			} else {
				a.add(ptKey{v, 0}, ptLoc{a.obj(v), ""})
			}
		}
	case *ssa.MakeInterface:
		switch {
		case isAgg(v.X.Type()):
			o := a.obj(v)
			o.typ = v.X.Type()
			a.add(ptKey{v, 0}, ptLoc{o, ""})
			if _, isC := v.X.(*ssa.Const); !isC {
				a.addSource(ptLoc{o, ""}, ptLoc{a.obj(v.X), ""})
			}
		case isRef(v.X.Type()):
			a.addAll(ptKey{v, 0}, a.pts(v.X))
		}
	case *ssa.TypeAssert:
		t := v.AssertedType
		for l := range a.pts(v.X) {
			if l.o.typ != nil && l.path == "" && isAgg(t) && !types.Identical(l.o.typ, t) {
				continue
			}
			switch {
			case isAgg(t):
				if v.CommaOk {
					a.add(ptKey{v, 1000}, l)
				} else {
					a.addSource(ptLoc{a.obj(v), ""}, l)
				}
			case isRef(t):
				if v.CommaOk {
					a.add(ptKey{v, 0}, l)
				} else {
					a.add(ptKey{v, 0}, l)
				}
			}
		}
	case *ssa.Extract:
		a.extract(v)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			for l := range a.pts(v.X) {
				a.get(l, v, v.Type(), 0)
			}
		}
	case *ssa.FieldAddr:
		st := deref(v.X.Type())
		for l := range a.pts(v.X) {
			a.add(ptKey{v, 0}, step(l, a.fieldStep(st, v.Field)))
		}
	case *ssa.Field:
		a.get(step(ptLoc{a.obj(v.X), ""}, a.fieldStep(v.X.Type(), v.Field)), v, v.Type(), 0)
	case *ssa.IndexAddr:
		for l := range a.pts(v.X) {
			a.add(ptKey{v, 0}, step(l, "[]"))
		}
	case *ssa.Index:
		if isAgg(v.X.Type()) {
			a.get(step(ptLoc{a.obj(v.X), ""}, "[]"), v, v.Type(), 0)
		}
	case *ssa.Lookup:
		if _, isM := v.X.Type().Underlying().(*types.Map); isM {
			et := v.X.Type().Underlying().(*types.Map).Elem()
			for l := range a.pts(v.X) {
				e := step(l, "[]")
				if v.CommaOk {
					if isAgg(et) {
						a.add(ptKey{v, 1000}, e)
					} else if isRef(et) {
						a.addAll(ptKey{v, 0}, a.load(e))
					}
				} else {
					a.get(e, v, et, 0)
				}
			}
		}
	case *ssa.Slice:
		switch v.X.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer:
			a.addAll(ptKey{v, 0}, a.pts(v.X))
		}
	case *ssa.Range:
		if _, isM := v.X.Type().Underlying().(*types.Map); isM {
			a.addAll(ptKey{v, 0}, a.pts(v.X))
		}
	case *ssa.Store:
		for l := range a.pts(v.Addr) {
			a.put(l, v.Val)
		}
	case *ssa.MapUpdate:
		for l := range a.pts(v.Map) {
			a.put(step(l, "[]"), v.Value)
			a.put(step(l, "[k]"), v.Key)
		}
	case ssa.CallInstruction:
		a.call(f, v)
	}
}

func (a *PTS) extract(v *ssa.Extract) {
	t := v.Type()
	switch tp := v.Tuple.(type) {
	case *ssa.Next:
		r, ok := tp.Iter.(*ssa.Range)
		if !ok || tp.IsString || v.Index == 0 {
			return
		}
		s := "[]"
		if v.Index == 1 {
			s = "[k]"
		}
		for l := range a.vals[ptKey{r, 0}] {
			a.get(step(l, s), v, t, 0)
		}
	case *ssa.Lookup, *ssa.TypeAssert:
		if v.Index != 0 {
			return
		}
		if isAgg(t) {
			for l := range a.vals[ptKey{tp, 1000}] {
				a.addSource(ptLoc{a.obj(v), ""}, l)
			}
		} else if isRef(t) {
			a.addAll(ptKey{v, 0}, a.vals[ptKey{tp, 0}])
		}
	case *ssa.Call:
		if isAgg(t) {
			for l := range a.vals[ptKey{tp, 2000 + v.Index}] {
				a.addSource(ptLoc{a.obj(v), ""}, l)
			}
		} else if isRef(t) {
			a.addAll(ptKey{v, 0}, a.vals[ptKey{tp, 2000 + v.Index}])
		}
	}
}

func (a *PTS) bind(param ssa.Value, arg ssa.Value) {
	t := param.Type()
	switch {
	case isAgg(t):
		if isAgg(arg.Type()) {
			if _, isC := arg.(*ssa.Const); !isC {
				a.addSource(ptLoc{a.obj(param), ""}, ptLoc{a.obj(arg), ""})
			}
			return
		}
		// an interface that holds the value
		for l := range a.pts(arg) {
			if l.o.typ != nil && l.path == "" && !types.Identical(deref(l.o.typ), t) {
				continue
			}
			a.addSource(ptLoc{a.obj(param), ""}, l)
		}
	case isRef(t):
		_, fromIface := arg.Type().Underlying().(*types.Interface)
		_, toIface := t.Underlying().(*types.Interface)
		for l := range a.pts(arg) {
			if fromIface && !toIface && l.o.typ != nil && l.path == "" {
				if pt, isP := t.Underlying().(*types.Pointer); isP && !types.Identical(l.o.typ, pt.Elem()) {
					continue
				}
			}
			a.add(ptKey{param, 0}, l)
		}
	}
}

func (a *PTS) call(f *ssa.Function, c ssa.CallInstruction) {
	com := c.Common()
	val := c.Value()
	if b, ok := com.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if val == nil {
				return
			}
			base := ptSet{}
			for l := range a.pts(com.Args[0]) {
				base[l] = true
			}
			a.addAll(ptKey{val, 0}, base)
			o := a.obj(val)
			o.typ = val.Type()
			nl := ptLoc{o, ""}
			a.add(ptKey{val, 0}, nl)
			// the new array holds the elements of both
			et := val.Type().Underlying().(*types.Slice).Elem()
			if isRef(et) || isAgg(et) {
				for _, arg := range com.Args {
					for l := range a.pts(arg) {
						a.addElems(nl, l, et)
					}
				}
				for l := range base {
					for x := range a.pts(com.Args[1]) {
						a.addElems(l, x, et)
					}
				}
			}
		case "copy":
			et, ok := com.Args[0].Type().Underlying().(*types.Slice)
			if ok {
				for l := range a.pts(com.Args[0]) {
					for x := range a.pts(com.Args[1]) {
						a.addElems(l, x, et.Elem())
					}
				}
			}
		}
		return
	}
	fs, ext := a.p.calleesOf(c)
	for _, g := range fs {
		if !a.region[g] {
			continue
		}
		args := com.Args
		if com.IsInvoke() {
			args = append([]ssa.Value{com.Value}, com.Args...)
		}
		for i, pr := range g.Params {
			if i < len(args) {
				a.bind(pr, args[i])
			}
		}
		if val == nil {
			continue
		}
		for _, b := range g.Blocks {
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if len(ret.Results) == 1 {
				a.move(val, ret.Results[0])
				continue
			}
			for i, rv := range ret.Results {
				switch {
				case isAgg(rv.Type()):
					if _, isC := rv.(*ssa.Const); !isC {
						a.add(ptKey{val, 2000 + i}, ptLoc{a.obj(rv), ""})
					}
				case isRef(rv.Type()):
					a.addAll(ptKey{val, 2000 + i}, a.pts(rv))
				}
			}
		}
	}
	if !ext {
		return
	}
	// what an external function gets may come back in its results and reach the functions it is given
	args := ptSet{}
	for _, arg := range com.Args {
		a.gather(arg, args)
	}
	if com.IsInvoke() {
		a.gather(com.Value, args)
	}
	for _, arg := range com.Args {
		if g := funcOf(arg); g != nil && a.region[g] {
			for _, pr := range g.Params {
				for l := range args {
					if l.o.label == "" {
						continue
					}
					if isAgg(pr.Type()) {
						a.addSource(ptLoc{a.obj(pr), ""}, l)
					} else if isRef(pr.Type()) {
						a.add(ptKey{pr, 0}, l)
					}
				}
				if isRef(pr.Type()) {
					for l := range args {
						a.add(ptKey{pr, 0}, l)
					}
				}
			}
		}
	}
	if val == nil {
		return
	}
	o := a.obj(val)
	o.ext = true
	o.typ = nil
	es := a.extArgs[o]
	if es == nil {
		es = ptSet{}
		a.extArgs[o] = es
	}
	for l := range args {
		if !es[l] {
			es[l] = true
			a.changed = true
		}
	}
	el := ptLoc{o, ""}
	alias := aliasesArgs(com)
	switch t := val.Type().(type) {
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if isRef(t.At(i).Type()) || isAgg(t.At(i).Type()) {
				a.add(ptKey{val, 2000 + i}, el)
			}
		}
	default:
		if isRef(t) {
			a.add(ptKey{val, 0}, el)
			if alias {
				a.addAll(ptKey{val, 0}, args)
			}
		}
	}
}

// gather: everything an external function can get hold of through an argument, two levels deep.
func (a *PTS) gather(v ssa.Value, out ptSet) {
	add := func(l ptLoc) {
		out[l] = true
		for x := range a.load(l) {
			out[x] = true
		}
		for x := range a.load(step(l, "[]")) {
			out[x] = true
			for y := range a.load(step(x, "[]")) {
				out[y] = true
			}
		}
	}
	switch {
	case isRef(v.Type()):
		for l := range a.pts(v) {
			add(l)
		}
	case isAgg(v.Type()):
		if _, isC := v.(*ssa.Const); !isC {
			add(ptLoc{a.obj(v), ""})
		}
	}
}

// aliasesArgs: external functions whose result may be (part of) an argument.
func aliasesArgs(com *ssa.CallCommon) bool {
	g := com.StaticCallee()
	if g == nil {
		return true
	}
	pk := fnPkgPath(originOf(g))
	switch pk {
	case "slices", "maps":
		switch originOf(g).Name() {
		case "Clone", "Sorted", "Collect", "Concat", "Contains", "Index", "Equal", "Repeat", "SortedFunc":
			return false
		}
		return true
	case "bytes":
		return true
	}
	return false
}

func funcOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.Function:
			return x
		case *ssa.MakeClosure:
			return x.Fn.(*ssa.Function)
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

func (a *PTS) addElems(dst, src ptLoc, et types.Type) {
	d, s := step(dst, "[]"), step(src, "[]")
	if d == s {
		return
	}
	switch {
	case isAgg(et):
		a.addSource(d, s)
	case isRef(et):
		for x := range a.load(s) {
			a.addCell(d, x)
		}
	}
}
