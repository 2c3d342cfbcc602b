package main

import (
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: schemas written to JSON and read back.

func init() {
	register("C29", "The types a schema node is made of are walked: every keyword has one field that carries its name, can hold every value of the keyword and is left out only when the keyword is absent, and no value that writes itself through a pointer method sits where it cannot be addressed. The UnmarshalJSON method of every such type is interpreted once for each kind of JSON text (false, true, string, number, array, object) with encoding/json's treatment of the target's type, and MarshalJSON is interpreted in each of the states that reading can end in: what is written has to be the literal that was read or a value that was decoded, without error, from the text that was read. Where there is no MarshalJSON, every field of the result has to be the decoded one, except const, which has to tell an explicit null from an absent key. The functions that rewrite generic JSON in place are found by what they do (they take a JSON object, call themselves, and return one or an error), and on each of their loops over a map or list no turn may leave the loop without an error, and each entry that holds an object has to be handed on.",
		"numbers beyond float64, keywords the library does not know, empty lists of types or items, null in place of a schema.", ruleC29)
}

// what the value of a keyword can be
var keywordKinds = map[string]string{
	"type": "string array", "properties": "map", "additionalProperties": "false true object", "patternProperties": "map",
	"minProperties": "int", "maxProperties": "int", "required": "strings", "pattern": "string", "format": "string",
	"minLength": "int", "maxLength": "int", "minimum": "number", "maximum": "number", "exclusiveMinimum": "number",
	"exclusiveMaximum": "number", "multipleOf": "number", "items": "false object array", "minItems": "int", "maxItems": "int",
	"contains": "object", "minContains": "int", "maxContains": "int", "prefixItems": "array", "additionalItems": "false true object",
	"unevaluatedItems": "false true object", "uniqueItems": "bool", "enum": "anys", "const": "any", "not": "object",
	"allOf": "array", "anyOf": "array", "oneOf": "array", "$ref": "string", "$id": "string", "$defs": "map", "definitions": "map",
	"if": "object", "then": "object", "else": "object",
}

var jsonKinds = []string{"false", "true", "string", "number", "array", "object"}

type jsonRule struct {
	r       *R
	p       *Prog
	accepts map[string]map[string]bool
	done    map[string]bool
}

func ruleC29(r *R) {
	p := r.p
	j := &jsonRule{r: r, p: p, accepts: map[string]map[string]bool{}, done: map[string]bool{}}
	root := p.namedType("", "schemaNode")
	if root == nil {
		r.missing("type schemaNode")
		return
	}
	j.walk(root)
	j.tags(root)
	j.chains()
	rewritesAll(r)
	r.need("keyword", 35)
	r.need("round trip", 8)
	r.need("type", 3)
}

// method finds the method of T or *T.
func (j *jsonRule) method(t *types.Named, name string) *ssa.Function {
	for _, u := range []types.Type{types.NewPointer(t), t} {
		ms := types.NewMethodSet(u)
		if s := ms.Lookup(nil, name); s != nil && len(s.Index()) == 1 {
			return j.p.SSA.FuncValue(s.Obj().(*types.Func))
		}
	}
	return nil
}

func isPtrMethod(f *ssa.Function) bool {
	_, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	return ok
}

// walk follows the types that are reached from a node when it is written.
func (j *jsonRule) walk(root *types.Named) {
	type at struct {
		t    types.Type
		addr bool
	}
	seen := map[at]bool{}
	var run func(t types.Type, addr bool, path string)
	run = func(t types.Type, addr bool, path string) {
		if seen[at{t, addr}] {
			return
		}
		seen[at{t, addr}] = true
		if n, ok := t.(*types.Named); ok {
			m := j.method(n, "MarshalJSON")
			u := j.method(n, "UnmarshalJSON")
			if m != nil && isPtrMethod(m) && !addr {
				j.r.bad("address", typeName(n)+" at "+path, j.p.pos(m), "%s is written from a place that cannot be addressed, so its MarshalJSON method, which has a pointer receiver, is not used", path)
			} else if m != nil {
				j.r.ok("address", typeName(n)+" at "+path)
			}
			if u != nil && !isPtrMethod(u) {
				j.r.bad("type", typeName(n), j.p.pos(u), "UnmarshalJSON of %s has a value receiver and cannot change what it reads into", typeName(n))
			}
			if m != nil && j.p.inRepo(m) || u != nil && j.p.inRepo(u) {
				j.pair(n, m, u)
			}
			if m != nil && (u == nil || typeName(n) != "schemaNode") {
				// what its own method writes is followed there
				for _, f := range structFields(n) {
					run(f.Type(), true, typeName(n)+"."+f.Name())
				}
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			run(u.Elem(), true, path)
		case *types.Slice:
			run(u.Elem(), true, path+"[]")
		case *types.Array:
			run(u.Elem(), addr, path+"[]")
		case *types.Map:
			run(u.Elem(), false, path+"{}")
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if f := u.Field(i); f.Exported() && jsonName(u, i) != "-" {
					run(f.Type(), addr, typeName(t)+"."+f.Name())
				}
			}
		}
	}
	run(root, false, "schemaNode")
	run(root, true, "*schemaNode")
}

func structFields(t types.Type) (out []*types.Var) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Exported() {
				out = append(out, s.Field(i))
			}
		}
	}
	return
}

func jsonTag(s *types.Struct, i int) (name string, opts []string, has bool) {
	tag, ok := reflect.StructTag(s.Tag(i)).Lookup("json")
	if !ok {
		return s.Field(i).Name(), nil, false
	}
	parts := strings.Split(tag, ",")
	return parts[0], parts[1:], true
}

func jsonName(s *types.Struct, i int) string {
	n, opts, _ := jsonTag(s, i)
	if n == "" {
		return s.Field(i).Name()
	}
	if n == "-" && len(opts) > 0 {
		return "-,"
	}
	return n
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// tags checks the fields of the node one by one.
func (j *jsonRule) tags(root *types.Named) {
	s := root.Underlying().(*types.Struct)
	byName := map[string]int{}
	lower := map[string]string{}
	for k := range keywordKinds {
		lower[strings.ToLower(strings.TrimPrefix(k, "$"))] = k
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		name, opts, _ := jsonTag(s, i)
		if name == "" {
			name = f.Name()
		}
		pos := j.p.posAt(f.Pos())
		key := "schemaNode." + f.Name()
		if name == "-" {
			if k, ok := lower[strings.ToLower(f.Name())]; ok {
				j.r.bad("keyword", key, pos, "keyword %s is left out when a node is written and read", k)
			}
			continue
		}
		if k, ok := lower[strings.ToLower(f.Name())]; ok && k != name {
			j.r.bad("keyword", key, pos, "field %s is read from and written to keyword %q, not %q", f.Name(), name, k)
			continue
		}
		if o, dup := byName[strings.ToLower(name)]; dup {
			j.r.bad("keyword", key, pos, "keyword %q is claimed by the fields %s and %s", name, s.Field(o).Name(), f.Name())
			continue
		}
		byName[strings.ToLower(name)] = i
		kind, known := keywordKinds[name]
		if !known {
			continue
		}
		if why := j.holdsKind(f.Type(), kind, opts); why != "" {
			j.r.bad("keyword", key, pos, "keyword %q: %s", name, why)
			continue
		}
		j.r.ok("keyword", name)
	}
	var all []string
	for k := range keywordKinds {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, k := range all {
		i, ok := byName[strings.ToLower(k)]
		if !ok || jsonName(s, i) != k {
			j.r.bad("keyword", k, j.p.posAt(root.Obj().Pos()), "no field of the node is read from and written to keyword %q", k)
		}
	}
}

// holdsKind: a field of type t can hold the keyword and is written exactly if it was there.
func (j *jsonRule) holdsKind(t types.Type, kind string, opts []string) string {
	if has(opts, "string") {
		return "the string option changes how the value is written"
	}
	empty, zero := has(opts, "omitempty"), has(opts, "omitzero")
	if !empty && !zero {
		return "an absent keyword is written because the field has neither omitempty nor omitzero"
	}
	inner := t
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		inner = u.Elem()
	case *types.Map:
		// an empty object says as much as an absent one
	case *types.Slice:
		if empty && (kind == "anys" || kind == "array") {
			return "an empty list is left out when it is written"
		}
	case *types.Interface:
		if kind != "any" {
			return "the value is not told apart by type"
		}
		return "an explicit null is not told from an absent keyword"
	default:
		return "a zero value is left out when it is written"
	}
	basic := func(t types.Type, info types.BasicInfo) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&info != 0
	}
	elem := func(t types.Type) types.Type {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Map:
			if basic(u.Key(), types.IsString) {
				return u.Elem()
			}
		}
		return types.Typ[types.Invalid]
	}
	any := func(t types.Type) bool {
		i, ok := t.Underlying().(*types.Interface)
		return ok && i.Empty()
	}
	is := func(ok bool) string {
		if ok {
			return ""
		}
		return "type " + t.String() + " cannot hold every value of the keyword"
	}
	switch kind {
	case "int":
		return is(basic(inner, types.IsInteger|types.IsFloat) && !basic(inner, types.IsUnsigned))
	case "number":
		b, ok := inner.Underlying().(*types.Basic)
		return is(ok && b.Kind() == types.Float64)
	case "string":
		return is(basic(inner, types.IsString))
	case "bool":
		return is(basic(inner, types.IsBoolean))
	case "strings":
		return is(basic(elem(inner), types.IsString))
	case "anys":
		return is(any(elem(inner)))
	case "any":
		return is(any(inner))
	case "map":
		_, ok := inner.Underlying().(*types.Map)
		return is(ok && j.takes(elem(inner), "object"))
	}
	for _, k := range strings.Fields(kind) {
		if !j.takes(inner, k) {
			return "type " + t.String() + " does not accept " + k
		}
	}
	return ""
}

// takes: encoding/json can read a text of this kind into a value of type t.
func (j *jsonRule) takes(t types.Type, kind string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return j.takes(p.Elem(), kind)
	}
	if n, ok := t.(*types.Named); ok {
		if u := j.method(n, "UnmarshalJSON"); u != nil {
			if !j.p.inRepo(u) {
				return true // json.RawMessage
			}
			j.read(n, u)
			return j.accepts[n.String()][kind]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return u.Empty()
	case *types.Struct, *types.Map:
		return kind == "object"
	case *types.Slice:
		return kind == "array"
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return kind == "string"
		case u.Info()&types.IsBoolean != 0:
			return kind == "false" || kind == "true"
		case u.Info()&types.IsNumeric != 0:
			return kind == "number"
		}
	}
	return false
}

type jsonRun struct {
	j    *jsonRule
	x    *Exec
	kind string
	data *Term
	errs map[*Term]*Term // decoded value -> error of the call that decoded it
	pre  map[ssa.Instruction]*Term
	dirt string
}

// exec with a model of encoding/json for one kind of text.
func (j *jsonRule) newRun(kind string) *jsonRun {
	q := &jsonRun{j: j, kind: kind, errs: map[*Term]*Term{}, pre: map[ssa.Instruction]*Term{}}
	q.x = newExec(j.p, Config{
		Fact: func(a *Term) int { return 1 },
		OnCall: func(ev *CallEvent) bool {
			n := ev.name()
			if n == "encoding/json.Unmarshal" {
				if a := stripI(ev.Args[1]); a != nil {
					q.pre[ev.In] = q.x.load(ev.St, a)
				}
			}
			return n == "encoding/json.Unmarshal" || n == "encoding/json.Marshal"
		},
		OnOpaque: q.model,
	})
	return q
}

func (q *jsonRun) isData(t *Term) bool { return t != nil && strip(t) == q.data }

func (q *jsonRun) model(ev *CallEvent, rets []*Term) {
	x := q.x
	if ev.name() != "encoding/json.Unmarshal" || len(ev.Args) != 2 {
		return
	}
	addr := stripI(ev.Args[1])
	pt, ok := ev.Args[1].typ(), false
	if ev.Args[1].Op == "iface" {
		pt = ev.Args[1].T
	}
	var target types.Type
	if p, isP := pt.Underlying().(*types.Pointer); isP {
		target, ok = p.Elem(), true
	}
	if !ok || !q.isData(ev.Args[0]) {
		return
	}
	pre := q.pre[ev.In]
	if pre != nil && !q.blank(pre) {
		q.dirt = q.j.p.instrPos(ev.In) + " decodes over a value that is not fresh"
	}
	for n := 0; ; n++ {
		p, isP := target.Underlying().(*types.Pointer)
		if !isP {
			break
		}
		// a nil pointer gets a new value before the text is looked at
		fresh := x.T.mk("decoded", "new", n, target, ev.In, ev.St.ctx)
		x.store(ev.St, addr, fresh, ev.In)
		x.assume(ev.St, x.bin("==", fresh, x.T.nilT(), types.Typ[types.Bool]), false, ev.In)
		addr, target = fresh, p.Elem()
	}
	if !q.j.takes(target, q.kind) {
		x.store(ev.St, addr, x.T.zero(target), ev.In)
		x.assume(ev.St, x.bin("==", rets[0], x.T.nilT(), types.Typ[types.Bool]), false, ev.In)
		return
	}
	d := x.T.mk("decoded", "value", 0, target, ev.In, ev.St.ctx, q.data)
	q.errs[d] = rets[0]
	x.store(ev.St, addr, d, ev.In)
}

func (q *jsonRun) blank(t *Term) bool {
	if t.Op == "list" && len(t.A) == 0 || t.Op == "makemap" || t.Op == "makeslice" {
		return true
	}
	if t.Op == "slice" && t.typ() != nil && len(t.A) > 0 && t.A[0].Op == "alloc" {
		a, ok := deref(t.A[0].typ()).Underlying().(*types.Array)
		return ok && a.Len() == 0
	}
	return t.Op == "zero" || t.isNil() || t.isConst() && (t.cv().ExactString() == `""` || t.cv().ExactString() == "0" || t.cv().ExactString() == "false")
}

// consistent: what the path found out about the text agrees with its kind.
func (q *jsonRun) consistent(st *State) bool {
	lit := func(t *Term) (string, bool) {
		t = strip(t)
		if t != nil && t.isConst() && t.cv().Kind() == constant.String {
			return constant.StringVal(t.cv()), true
		}
		return "", false
	}
	isText := func(s string, val bool) bool {
		if s == "false" || s == "true" || s == "null" {
			return val == (s == q.kind)
		}
		return !val || s != ""
	}
	for a, val := range st.facts {
		if l, e, ok := eqOperands(a); ok {
			if q.isData(l) || q.isData(e) {
				o := e
				if q.isData(e) {
					o = l
				}
				if s, ok := lit(o); ok && !isText(s, val) {
					return false
				}
			}
			// the first byte
			for _, pr := range [][2]*Term{{l, e}, {e, l}} {
				b := strip(pr[0])
				c, isC := intConst(strip(pr[1]))
				if !isC || b == nil {
					continue
				}
				if (b.Op == "load" && b.A[0].Op == "iaddr" && q.isData(b.A[0].A[0]) && isZeroC(b.A[0].A[1]) || b.Op == "index" && q.isData(b.A[0]) && isZeroC(b.A[1])) && !q.first(byte(c), val) {
					return false
				}
				if b.Op == "len" && q.isData(b.A[0]) && c == 0 && val {
					return false
				}
			}
		}
		if callTo(a, "bytes.Equal") && len(a.A) == 2 {
			for _, pr := range [][2]*Term{{a.A[0], a.A[1]}, {a.A[1], a.A[0]}} {
				if s, ok := lit(pr[1]); ok && q.isData(pr[0]) && !isText(s, val) {
					return false
				}
			}
		}
		if a.Op == "bin" && len(a.A) == 2 && val {
			// len(data) < 1 and the like
			if s := a.String(); a.A[0].Op == "len" && q.isData(a.A[0].A[0]) && a.Aux == "<" && s != "" {
				if c, ok := intConst(a.A[1]); ok && c <= 1 {
					return false
				}
			}
		}
	}
	return true
}

func (q *jsonRun) first(c byte, val bool) bool {
	start := map[string]string{"false": "f", "true": "t", "string": `"`, "array": "[", "object": "{"}
	if s, ok := start[q.kind]; ok {
		return val == (s[0] == c)
	}
	return !val || c >= '0' && c <= '9' || c == '-'
}

// empty: the path found that the decoded value is empty.
func (q *jsonRun) empty(st *State) bool {
	for d := range q.errs {
		l := q.x.lenOf(st, d)
		lo, hi := q.x.interval(st, l)
		_ = lo
		if hi != nil && constant.Sign(hi) <= 0 {
			return true
		}
		if isStringT(d.T) && q.x.holds(st, q.x.bin("==", d, q.x.T.Str(""), types.Typ[types.Bool])) {
			return true
		}
	}
	return false
}

func (j *jsonRule) start(f *ssa.Function, kind string) (*jsonRun, *Term, []Outcome) {
	q := j.newRun(kind)
	var self *Term
	outs := q.x.Root(f, func(st *State, ps []*Term) {
		self, q.data = ps[0], ps[1]
		q.x.store(st, self, q.x.T.zero(deref(f.Params[0].Type())), nil)
		q.x.assume(st, q.x.bin("==", self, q.x.T.nilT(), types.Typ[types.Bool]), false, nil)
	})
	return q, self, outs
}

// read finds out which kinds of text a type accepts.
func (j *jsonRule) read(n *types.Named, u *ssa.Function) {
	if j.accepts[n.String()] != nil {
		return
	}
	acc := map[string]bool{}
	j.accepts[n.String()] = acc
	if !isPtrMethod(u) {
		return
	}
	for _, k := range jsonKinds {
		q, _, outs := j.start(u, k)
		for _, o := range outs {
			if o.kind == "return" && q.consistent(o.st) && !q.x.knownNonNil(o.st, o.rets[0]) {
				acc[k] = true
			}
		}
	}
}

// pair: what is written is what was read.
func (j *jsonRule) pair(n *types.Named, m, u *ssa.Function) {
	name := typeName(n)
	if j.done[n.String()] {
		return
	}
	j.done[n.String()] = true
	if u == nil {
		j.r.bad("type", name, j.p.pos(m), "%s has its own form when it is written but none when it is read", name)
		return
	}
	if !isPtrMethod(u) {
		return
	}
	j.read(n, u)
	j.r.fn(u)
	clean := true
	for _, k := range jsonKinds {
		if !j.accepts[n.String()][k] {
			continue
		}
		q, self, outs := j.start(u, k)
		judged := 0
		for _, o := range outs {
			if o.kind != "return" {
				if o.kind == "panic" {
					continue
				}
			}
			if o.kind != "return" || !q.consistent(o.st) || q.x.knownNonNil(o.st, o.rets[0]) {
				continue
			}
			st := o.st
			if !o.rets[0].isNil() && !q.x.knownNil(st, o.rets[0]) {
				// an error that is handed on is only nil if the decoding went well
				q.x.assume(st, q.x.bin("==", o.rets[0], q.x.T.nilT(), types.Typ[types.Bool]), true, o.at)
			}
			if m == nil {
				if why := q.fields(st, q.x.load(st, self), n); why != "" {
					clean = false
					j.r.bad("round trip", name+" reading "+k, j.p.instrPos(o.at), "%s that reads a JSON text of kind %s: %s (path: %s)", name, k, why, trailOf(st))
				} else {
					judged++
				}
				continue
			}
			ctx := st.ctx
			st.ctx = q.x.T.ctx(ctx, nil, nil, 1, m)
			st.env = map[ssa.Value]*Term{}
			arg := self
			if !isPtrMethod(m) {
				arg = q.x.load(st, self)
			}
			for _, w := range q.x.run(m, st, []*Term{arg}, nil, nil, nil) {
				if w.kind != "return" || !q.consistent(w.st) || q.x.knownNonNil(w.st, w.rets[1]) || q.empty(w.st) {
					continue
				}
				if why := q.writes(w.st, w.rets[0]); why != "" {
					clean = false
					j.r.bad("round trip", name+" writing "+k, j.p.instrPos(w.at), "%s read from a JSON text of kind %s: %s (path: %s)", name, k, why, trailOf(w.st))
				} else {
					judged++
				}
			}
		}
		j.r.exec(q.x, name+" for "+k)
		if q.dirt != "" {
			clean = false
			j.r.bad("round trip", name+" decoding "+k, j.p.pos(u), "%s", q.dirt)
		}
		if judged > 0 && clean {
			j.r.ok("round trip", name+" for "+k)
		} else if judged == 0 && clean {
			clean = false
			j.r.bad("round trip", name+" for "+k, j.p.pos(u), "no path on which %s accepts a JSON text of kind %s comes with a way to write it", name, k)
		}
	}
	if clean {
		j.r.ok("type", name)
	}
}

// decodedOK: t is a value decoded, without error, from the text.
func (q *jsonRun) decodedOK(st *State, t *Term) string {
	for n := 0; n < 6; n++ {
		t = strip(t)
		if t.isNil() || q.x.knownNil(st, t) {
			return "null is written"
		}
		if t.Op == "decoded" && t.Aux == "value" {
			break
		}
		if et := elemType(t); et != nil && t.typ() != nil {
			if _, ok := t.typ().Underlying().(*types.Pointer); ok {
				t = q.x.load(st, t)
				continue
			}
		}
		break
	}
	if t.Op == "with" && t.T != nil {
		if _, isS := t.T.Underlying().(*types.Struct); isS {
			return q.fields(st, t, t.T)
		}
	}
	if t.Op != "decoded" || t.Aux != "value" {
		return "what is written is " + t.String() + ", not a value decoded from the text"
	}
	if !q.x.knownNil(st, q.errs[t]) {
		return "the value that is written may not have been decoded: the error of decoding it was not tested"
	}
	return ""
}

func (q *jsonRun) writes(st *State, t *Term) string {
	s := t
	for s.Op == "conv" {
		s = s.A[0]
	}
	if s.isConst() && s.cv().Kind() == constant.String {
		if v := constant.StringVal(s.cv()); v == q.kind {
			return ""
		} else {
			return "the literal " + v + " is written"
		}
	}
	if l, ok := q.x.asList(st, t); ok && l.Op == "list" && len(l.A) > 0 {
		var b strings.Builder
		for _, e := range l.A {
			c, ok := intConst(strip(e))
			if !ok {
				return "what is written is not known"
			}
			b.WriteByte(byte(c))
		}
		if b.String() == q.kind {
			return ""
		}
		return "the literal " + b.String() + " is written"
	}
	if callTo(s, "encoding/json.Marshal") && s.N == 0 && len(s.A) == 1 {
		v := stripI(s.A[0])
		if v.isConst() && v.cv().Kind() == constant.Bool {
			if w := v.cv().ExactString(); w == q.kind {
				return ""
			} else {
				return "the literal " + w + " is written"
			}
		}
		return q.decodedOK(st, v)
	}
	return "what is written is " + s.String() + ", which was not made by encoding/json"
}

// fields compares the value that was read with the decoded one, field by field.
func (q *jsonRun) fields(st *State, v *Term, n types.Type) string {
	x := q.x
	v = strip(v)
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return q.decodedOK(st, v)
	}
	var src *Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() || jsonName(s, i) == "-" {
			continue
		}
		w := q.fieldOf(v, s, i)
		if jsonName(s, i) == "const" {
			if src == nil {
				for d := range q.errs {
					if t, ok := d.T.Underlying().(*types.Struct); ok && types.Identical(t, s) {
						src = d
					}
				}
			}
			if why := q.constField(st, w, src, s, i); why != "" {
				return why
			}
			continue
		}
		d, di := w, -1
		for d.Op == "conv" {
			d = d.A[0]
		}
		if d.Op == "field" {
			di = d.N
			d = strip(d.A[0])
		}
		if d.Op != "decoded" || d.Aux != "value" {
			return "field " + f.Name() + " is " + w.String() + ", not what was decoded"
		}
		ds, ok := d.T.Underlying().(*types.Struct)
		if !ok || di < 0 || di >= ds.NumFields() || jsonName(ds, di) != jsonName(s, i) || !types.Identical(ds.Field(di).Type(), f.Type()) {
			return "field " + f.Name() + " is not read from its own keyword"
		}
		if !x.knownNil(st, q.errs[d]) {
			return "field " + f.Name() + " may not have been decoded: the error was not tested"
		}
		if _, own := d.T.(*types.Named); own && types.Identical(d.T, n) {
			return "decoding calls itself without end"
		}
		src = d
	}
	return ""
}

func (q *jsonRun) fieldOf(v *Term, s *types.Struct, i int) *Term {
	for v.Op == "conv" || v.Op == "with" {
		if v.Op == "with" {
			if v.N == i {
				return v.A[1]
			}
			v = v.A[0]
			continue
		}
		v = v.A[0]
	}
	if vs, ok := v.T.Underlying().(*types.Struct); ok && v.T != nil {
		return q.x.field(v, vs, i)
	}
	return q.x.field(v, s, i)
}

// constField: an explicit null is told from an absent key.
func (q *jsonRun) constField(st *State, w, src *Term, s *types.Struct, i int) string {
	x := q.x
	base := w
	for base.Op == "conv" {
		base = base.A[0]
	}
	if base.Op == "field" && strip(base.A[0]) == src {
		if x.knownNonNil(st, w) {
			return ""
		}
		// the key is known to be absent
		for a, val := range st.facts {
			if val {
				continue
			}
			if q.keyTest(a) {
				return ""
			}
		}
		return "const may have been an explicit null, which is taken for an absent key"
	}
	// set here: to a pointer to nil, after the decoded one turned out nil and the key was found
	if src == nil {
		return "const is " + w.String() + ", not what was decoded"
	}
	ds := src.T.Underlying().(*types.Struct)
	orig := x.field(src, ds, i)
	if !x.knownNil(st, orig) {
		return "a const that was decoded is replaced"
	}
	found := false
	for a, val := range st.facts {
		if val && q.keyTest(a) {
			found = true
		}
	}
	if !found {
		return "const is set although the key may be absent"
	}
	if x.knownNil(st, w) {
		return "an explicit null const is lost"
	}
	c := x.load(st, strip(w))
	if !c.isNil() && c.Op != "zero" && !x.knownNil(st, c) {
		return "an explicit null const becomes " + c.String()
	}
	return ""
}

// keyTest: the presence of key "const" in an object decoded from the text.
func (q *jsonRun) keyTest(a *Term) bool {
	return a.any(func(t *Term) bool { return t.Op == "decoded" && t.Aux == "value" && isMapT(t.T) && q.errs[t] != nil }) &&
		a.any(func(t *Term) bool { return isStr(t, "const") }) && a.Op != "bin"
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// chains: a function that takes a node and returns one that was read from text written from it.
func (j *jsonRule) chains() {
	p := j.p
	isNode := func(t types.Type) bool { return isRepoType(deref(t), "schemaNode") }
	reach := func(f *ssa.Function) (m, u bool) {
		for g := range p.reach([]*ssa.Function{f}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || c.Common().StaticCallee() == nil {
						continue
					}
					arg := -1
					switch fullName(c.Common().StaticCallee()) {
					case "encoding/json.Marshal":
						arg = 0
					case "encoding/json.Unmarshal":
						arg = 1
					}
					if arg < 0 {
						continue
					}
					if mi, ok := c.Common().Args[arg].(*ssa.MakeInterface); ok && isNode(mi.X.Type()) {
						if arg == 0 {
							m = true
						} else {
							u = true
						}
					}
				}
			}
		}
		return
	}
	cand := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		sig := f.Signature
		if !p.isLib(f) || f.Blocks == nil || sig.Results().Len() != 2 || !isNode(sig.Results().At(0).Type()) || !isErrT(sig.Results().At(1).Type()) || p.recursive(f) {
			continue
		}
		takes := false
		for i := 0; i < sig.Params().Len(); i++ {
			takes = takes || isNode(sig.Params().At(i).Type())
		}
		if m, u := reach(f); takes && m && u {
			cand[f] = true
		}
	}
	for _, f := range p.Funcs {
		if !cand[f] {
			continue
		}
		minimal := true
		for g := range p.reach([]*ssa.Function{f}, nil) {
			if g != f && cand[g] {
				minimal = false
			}
		}
		if minimal {
			j.chain(f, isNode)
		}
	}
	j.r.need("chain", 1)
}

func (j *jsonRule) chain(f *ssa.Function, isNode func(types.Type) bool) {
	q := &jsonRun{j: j, errs: map[*Term]*Term{}, pre: map[ssa.Instruction]*Term{}}
	x := newExec(j.p, Config{
		Fact: func(a *Term) int { return 1 },
		Inline: func(g *ssa.Function) bool {
			return !j.p.recursive(g) && g.Name() != "MarshalJSON" && g.Name() != "UnmarshalJSON"
		},
		OnCall: func(ev *CallEvent) bool {
			if len(ev.Args) == 0 {
				return false
			}
			if a := stripI(ev.Args[0]); ev.name() == "encoding/json.Marshal" && a.Op == "alloc" {
				q.pre[ev.In] = q.x.load(ev.St, a)
			}
			return strings.HasPrefix(ev.name(), "encoding/json.")
		},
		OnOpaque: func(ev *CallEvent, rets []*Term) {
			if ev.name() != "encoding/json.Unmarshal" || ev.Args[1].Op != "iface" {
				return
			}
			pt, ok := ev.Args[1].T.Underlying().(*types.Pointer)
			if !ok {
				return
			}
			d := q.x.T.mk("decoded", "value", 0, pt.Elem(), ev.In, ev.St.ctx, strip(ev.Args[0]))
			q.errs[d] = rets[0]
			q.x.store(ev.St, stripI(ev.Args[1]), d, ev.In)
		},
	})
	q.x = x
	var node *Term
	outs := x.Root(f, func(st *State, ps []*Term) {
		for _, a := range ps {
			if isNode(a.T) && node == nil {
				node = a
			}
		}
		if _, ok := node.T.Underlying().(*types.Pointer); ok {
			x.assume(st, x.bin("==", node, x.T.nilT(), types.Typ[types.Bool]), false, nil)
		}
	})
	// written: t was written from v; read: t was read, without error, from a text
	written := func(st *State, t *Term) (*Term, string) {
		t = strip(t)
		if !callTo(t, "encoding/json.Marshal") || t.N != 0 {
			return nil, "the text that is read is " + t.String() + ", not what was written"
		}
		if !x.succeeded(st, t, 1) {
			return nil, "the text is used without testing the error of writing it"
		}
		w := strip(t.A[0])
		if in, ok := t.Site.(ssa.Instruction); ok && w.Op == "alloc" && q.pre[in] != nil {
			w = strip(q.pre[in])
		}
		return w, ""
	}
	read := func(st *State, t *Term) (*Term, string) {
		t = strip(t)
		for t.Op == "call" && t.N == 0 {
			// rewritten by a function that walks it
			var next *Term
			for _, a := range t.A {
				if b := strip(a); b.Op == "decoded" || b.Op == "call" && isMapT(b.T) {
					next = b
				}
			}
			if next == nil {
				break
			}
			t = next
		}
		if t.Op != "decoded" {
			return nil, "what is written is " + t.String() + ", not what was read"
		}
		if !x.knownNil(st, q.errs[t]) {
			return nil, "what was read is used without testing the error"
		}
		return t.A[0], ""
	}
	judged := false
	for _, o := range outs {
		if o.kind != "return" || x.knownNonNil(o.st, o.rets[1]) {
			continue
		}
		judged = true
		st := o.st
		v := o.rets[0]
		if _, ok := v.typ().Underlying().(*types.Pointer); ok {
			v = x.load(st, v)
		}
		why := ""
		// the text was written from a tree of maps that was read from a text written from the node
		text, why := read(st, v)
		var w *Term
		if why == "" {
			w, why = written(st, text)
		}
		if why == "" && w != node && w != x.load(st, node) {
			if text, why = read(st, w); why == "" {
				if w, why = written(st, text); why == "" && w != node && strip(w) != x.load(st, node) {
					why = "the first text is written from " + w.String() + ", not from the node"
				}
			}
		}
		if why != "" {
			j.r.bad("chain", fullName(f), j.p.instrPos(o.at), "%s returns a node that is not its argument written and read again: %s (path: %s)", fullName(f), why, trailOf(st))
			judged = false
		}
	}
	j.r.exec(x, fullName(f))
	if judged {
		j.r.ok("chain", fullName(f))
	}
}
