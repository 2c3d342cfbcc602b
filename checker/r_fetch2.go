package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C03

// insideFacts records, per path value, which bases it was shown to lie in.
func (x *Exec) insideMonitor(onFact func(st *State, a *Term, v bool, at ssa.Instruction)) func(st *State, a *Term, v bool, at ssa.Instruction) {
	return func(st *State, a *Term, v bool, at ssa.Instruction) {
		if onFact != nil {
			onFact(st, a, v, at)
		}
		// path == base, or path starts with base plus a separator
		if l, r, ok := eqOperands(a); ok && v {
			x.markInside(st, l, r)
			x.markInside(st, r, l)
		}
		if callTo(a, "strings.HasPrefix") && v {
			parts := x.catParts(strip(a.A[1]))
			if n := len(parts); n == 2 && isStr(parts[1], "/") {
				x.markInside(st, parts[0], strip(a.A[0]))
			}
		}
		// tests on filepath.Rel(base, path)
		cand := func(t *Term) *Term {
			t = strip(t)
			if callTo(t, "path/filepath.Rel") && t.N == 0 {
				return t
			}
			return nil
		}
		var d *Term
		dv := st.mon
		flag := ""
		switch {
		case callTo(a, "strings.Contains") && !v && isStr(a.A[1], ".."):
			d, flag = cand(a.A[0]), "all"
		case callTo(a, "path/filepath.IsLocal") && v:
			d, flag = cand(a.A[0]), "all"
		case callTo(a, "strings.HasPrefix") && !v && isStr(a.A[1], ".."):
			d, flag = cand(a.A[0]), "all"
		case callTo(a, "strings.HasPrefix") && !v && isStr(a.A[1], "../"):
			d, flag = cand(a.A[0]), "pfx"
		default:
			if l, r, ok := eqOperands(a); ok {
				for _, pr := range [][2]*Term{{l, r}, {r, l}} {
					if c := cand(pr[0]); c != nil {
						if isStr(pr[1], "..") && !v {
							d, flag = c, "eq"
						} else if s, isS := strConst(pr[1]); isS && v && s != ".." && !strings.HasPrefix(s, "../") {
							d, flag = c, "all"
						}
					}
				}
				// err == nil of Rel
				for _, pr := range [][2]*Term{{l, r}, {r, l}} {
					if callTo(pr[0], "path/filepath.Rel") && pr[0].N == 1 && pr[1].isNil() && v {
						d, flag = x.result(pr[0], 0, types.Typ[types.String]), "err"
					}
				}
			}
		}
		if d == nil {
			return
		}
		k := fmt.Sprintf("rel%d:", d.id)
		dv[k+flag] = "1"
		if dv[k+"err"] == "" {
			return
		}
		if dv[k+"all"] != "" || dv[k+"pfx"] != "" && dv[k+"eq"] != "" {
			x.markInside(st, strip(d.A[0]), strip(d.A[1]))
		}
	}
}

func (x *Exec) markInside(st *State, base, path *Term) {
	b := strip(base)
	for callTo(b, "path/filepath.Clean", "path/filepath.EvalSymlinks", "path/filepath.Abs") {
		b = strip(b.A[0])
	}
	kind := ""
	if callTo(b, "os.Getwd") && b.N == 0 {
		kind = "cwd"
	} else if c, ok := elemOf(b); ok {
		if o, n, _, isF := fieldRead(strip(c)); isF {
			kind = "allowed:" + o + "." + n
		}
	}
	if kind != "" {
		st.mon[fmt.Sprintf("inside:%d:%s", strip(path).id, kind)] = "1"
	}
}

// realPath: the value is the outcome of Abs and EvalSymlinks in either order, both without error.
func (x *Exec) realPath(st *State, t *Term) (src *Term, why string) {
	abs, sym := false, false
	t = strip(t)
	for {
		switch {
		case callTo(t, "path/filepath.EvalSymlinks") && t.N == 0:
			if !x.succeeded(st, t, 1) {
				return nil, "the error of EvalSymlinks is not known to be nil"
			}
			sym = true
		case callTo(t, "path/filepath.Abs") && t.N == 0:
			if !x.succeeded(st, t, 1) {
				return nil, "the error of Abs is not known to be nil"
			}
			abs = true
		case callTo(t, "path/filepath.Clean"):
		default:
			if !abs {
				return nil, fmt.Sprintf("%s was not made absolute", t)
			}
			if !sym {
				return nil, fmt.Sprintf("symlinks in %s were not resolved", t)
			}
			return t, ""
		}
		t = strip(t.A[0])
	}
}

func runC03(r *R) {
	p := r.p
	n := 0
	for _, f := range p.fetchers() {
		if f.kind != "file" {
			continue
		}
		n++
		r.c03resolve(f)
		r.c03fetch(f)
	}
	if n == 0 {
		r.missing("a document fetcher that reads files")
	}
	r.c03ctor()
	r.need("approved path", 2)
	r.need("file read", 1)
	r.need("policy field", 2)
}

func (r *R) c03resolve(f fetcher) {
	p := r.p
	x := newExec(p, Config{})
	x.cfg.OnFact = x.insideMonitor(nil)
	outs := x.Root(f.resolve, nil)
	r.exec(x, shortFn(f.resolve))
	for _, o := range outs {
		if !x.canSucceed(o) {
			continue
		}
		pos := p.instrPos(o.at)
		key := shortFn(f.resolve)
		parts := x.catParts(o.rets[0])
		var pt *Term
		switch {
		case len(parts) == 2 && isStr(parts[0], "file://"):
			pt = strip(parts[1])
		case len(parts) == 1:
			pt = strip(parts[0])
		default:
			r.bad("approved path", key+":result", pos, "a success path returns %s, which is not a file identifier for a single checked path", o.rets[0])
			continue
		}
		good := true
		if _, why := x.realPath(o.st, pt); why != "" {
			good = false
			r.bad("approved path", key+":real", pos, "the accepted path %s is not an absolute, symlink-free path: %s (%s)", pt, why, trailOf(o.st))
		}
		pre := fmt.Sprintf("inside:%d:", pt.id)
		allowed := false
		for k := range o.st.mon {
			if strings.HasPrefix(k, pre+"allowed:"+f.typ+".") {
				allowed = true
			}
		}
		if !allowed {
			good = false
			r.bad("approved path", key+":allowed", pos, "a success path accepts %s without having established that it lies inside an allowed path (%s)", pt, trailOf(o.st))
		}
		outside := false
		for fct, v := range o.st.facts {
			if on, _, _, ok := fieldRead(fct); ok && v && on == f.typ {
				outside = true
			}
		}
		if !outside && o.st.mon[pre+"cwd"] == "" {
			good = false
			r.bad("approved path", key+":cwd", pos, "a success path accepts %s without having established that it lies inside the working directory or that outside access is allowed (%s)", pt, trailOf(o.st))
		}
		if good {
			r.ok("approved path", key+" "+trailOf(o.st))
		}
	}
}

func (r *R) c03fetch(f fetcher) {
	p := r.p
	x := newExec(p, Config{})
	var id *Term
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee == nil || ioKind(ev.Callee) != "file" {
			return false
		}
		a := strip(ev.Args[0])
		for callTo(a, "strings.TrimPrefix") && isStr(a.A[1], "file://") {
			a = strip(a.A[0])
		}
		if callTo(a, "strings.CutPrefix") && a.N == 0 && isStr(a.A[1], "file://") {
			a = strip(a.A[0])
		}
		if a.Op == "slice" && x.holds(ev.St, x.T.mk("pcall", "x", 0, nil, nil, nil)) {
			a = a.A[0]
		}
		key := shortFn(ev.Fr.fn) + ":" + fullName(ev.Callee)
		if a == id {
			r.ok("file read", key)
		} else {
			r.bad("file read", key, p.instrPos(ev.In), "the file that is read is %s, not the path that was approved", a)
		}
		return false
	}
	x.Root(f.fetch, func(st *State, params []*Term) { id = params[len(params)-1] })
	r.exec(x, shortFn(f.fetch))
}

func (r *R) c03ctor() {
	p := r.p
	isFile := func(n string) bool {
		for _, f := range p.fetchers() {
			if f.kind == "file" && f.typ == n {
				return true
			}
		}
		return false
	}
	for _, fn := range p.Funcs {
		if len(allocsOf(fn, func(t types.Type) bool { return isFile(typeName(t)) })) == 0 {
			continue
		}
		x := newExec(p, Config{})
		la := newLoopAcc(x)
		x.cfg.OnBack = la.onBack
		outs := x.Root(fn, nil)
		r.exec(x, shortFn(fn))
		for _, o := range outs {
			if !x.canSucceed(o) {
				continue
			}
			for k := range o.st.heap {
				el := elemType(k)
				if k.Op != "alloc" || el == nil || !isFile(typeName(el)) {
					continue
				}
				sst := el.Underlying().(*types.Struct)
				for i := 0; i < sst.NumFields(); i++ {
					v := x.load(o.st, x.faddr(k, sst, i))
					key := typeName(el) + "." + sst.Field(i).Name()
					pos := p.instrPos(o.at)
					switch u := sst.Field(i).Type().Underlying().(type) {
					case *types.Basic:
						if u.Kind() != types.Bool {
							continue
						}
						if isField(v, "FileSystemFetchOptions", "AllowOutsideCwd") || v.isConst() && !constant.BoolVal(v.cv()) {
							r.ok("policy field", key)
						} else {
							r.bad("policy field", key, pos, "%s is set to %s, not to the option AllowOutsideCwd", key, v)
						}
					case *types.Slice:
						// every entry is the real path of some configured entry
						base, _ := unwind(strip(v))
						its := la.iters[base]
						if len(its) == 0 && !la.empty(strip(v)) {
							r.bad("policy field", key, pos, "%s is %s: its entries were not made absolute and symlink-free", key, v)
							continue
						}
						good := true
						for _, it := range its {
							for _, pc := range it.added {
								if pc.Op != "list" {
									good = false
									r.bad("policy field", key, pos, "%s gets %s, which was not made absolute and symlink-free", key, pc)
									continue
								}
								for _, e := range pc.A {
									src, why := x.realPath(it.st, e)
									if why != "" {
										good = false
										r.bad("policy field", key, pos, "%s gets the entry %s: %s", key, e, why)
										continue
									}
									c, ok := elemOf(src)
									if !ok || !isField(strip(c), "FileSystemFetchOptions", "AllowedPaths") {
										good = false
										r.bad("policy field", key, pos, "%s gets the entry %s, which does not come from the option AllowedPaths", key, e)
									}
								}
							}
						}
						if good {
							r.ok("policy field", key)
						}
					}
				}
			}
		}
	}
}

// ---- C01

func (p *Prog) isFetcherMethod(f *ssa.Function) bool {
	n := recvName(f)
	if n == "" {
		return false
	}
	for _, ft := range p.fetchers() {
		if ft.typ == n {
			return true
		}
	}
	return false
}

func isParseFileEntry(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "ParseSchemaFile")
}

func runC01(r *R) {
	p := r.p
	it := p.fetcherIface()
	if it == nil {
		r.missing("the document fetcher interface")
		return
	}
	fts := p.fetchers()
	fetchMethods := map[*ssa.Function]bool{}
	for _, f := range fts {
		fetchMethods[f.fetch] = true
		fetchMethods[f.resolve] = true
	}
	// 1. I/O only below the fetchers and the parse-file entries
	type sink struct {
		fn *ssa.Function
		c  ssa.CallInstruction
		g  *ssa.Function
		k  string
	}
	var sinks []sink
	for _, fn := range p.allBodies() {
		if !p.isLib(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				// calls, and functions handed on as values
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && !p.inRepo(g) && g.Name() != "init" {
						k := ioKind(g)
						if k == "" && strings.Contains(fnPkgPath(originOf(g)), "go-faker") {
							k = p.reachesIO(g)
						}
						if k != "" {
							sinks = append(sinks, sink{fn, c, g, k})
						}
					}
				}
				var ops []*ssa.Value
				for i, o := range in.Operands(ops) {
					if *o == nil {
						continue
					}
					g, ok := (*o).(*ssa.Function)
					if c, isC := in.(ssa.CallInstruction); isC && i == 0 && !c.Common().IsInvoke() {
						continue
					}
					if ok && !p.inRepo(g) && ioKind(g) != "" {
						sinks = append(sinks, sink{fn, nil, g, ioKind(g)})
					}
				}
			}
		}
	}
	roots := p.libRoots()
	var entries []*ssa.Function
	stop := func(f *ssa.Function) bool {
		if fetchMethods[f] {
			return true
		}
		return isParseFileEntry(f)
	}
	for _, f := range roots {
		if isParseFileEntry(f) {
			entries = append(entries, f)
		}
	}
	free := p.reach(roots, stop)
	fromFetch := p.reach(keys(fetchMethods), nil)
	fromEntry := p.reach(entries, func(f *ssa.Function) bool { return fetchMethods[f] })
	for _, s := range sinks {
		pos := p.posAt(s.fn.Pos())
		if s.c != nil {
			pos = p.instrPos(s.c)
		}
		key := shortFn(s.fn) + ":" + fullName(s.g)
		r.fn(s.fn)
		if _, ok := free[s.fn]; ok {
			r.bad("I/O site", key, pos, "%s (%s access) is reachable without a document fetcher: %s", fullName(s.g), s.k, p.chain(free, s.fn))
			continue
		}
		_, a := fromFetch[s.fn]
		_, b := fromEntry[s.fn]
		if !a && b && s.k == "net" {
			r.bad("I/O site", key, pos, "%s (network access) is reachable from a parse-file entry point without a fetcher", fullName(s.g))
			continue
		}
		r.ok("I/O site", key)
	}
	r.need("I/O site", 3)
	// the entry points read exactly the path handed in
	for _, e := range entries {
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return !p.recursive(f) && !takesNode(f) }})
		var path *Term
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Callee != nil && ioKind(ev.Callee) != "" && !p.isFetcherMethod(ev.Fr.fn) {
				key := shortFn(e) + ":" + fullName(ev.Callee)
				a := strip(ev.Args[0])
				for callTo(a, "path/filepath.Abs", "path/filepath.EvalSymlinks", "path/filepath.Clean") && a.N == 0 {
					a = strip(a.A[0])
				}
				if a != path {
					r.bad("entry path", key, p.instrPos(ev.In), "the parse-file entry point reads %s, not the path handed in", ev.Args[0])
				} else {
					r.ok("entry path", key)
				}
			}
			return ev.Callee != nil && ev.Callee.Name() == "ParseSchema"
		}
		x.Root(e, func(st *State, params []*Term) { path = params[0] })
		r.exec(x, shortFn(e))
	}
	r.need("entry path", 1)
	// 2. the table of fetchers
	r.c01table(fts)
	// 3. who may call a fetcher's fetch
	p.calls(func(fn *ssa.Function, c ssa.CallInstruction) {
		if g := c.Common().StaticCallee(); g != nil && fetchMethods[g] && g.Name() == "fetchDocument" && fn.Synthetic == "" {
			r.bad("fetch call", shortFn(fn)+":"+g.Name(), p.instrPos(c), "a fetcher's fetchDocument is called directly, not through the table of enabled fetchers")
		}
		if c.Common().IsInvoke() && c.Common().Method.Name() == "fetchDocument" {
			r.ok("fetch call", shortFn(fn))
		}
	})
	r.need("fetch call", 1)
	// 4. the embedded validator
	r.c01validator()
	// 5. generation
	if git := p.iface("", "Generator"); git != nil {
		gens := p.implementations(git, "Generate")
		from := p.reach(gens, nil)
		for _, s := range sinks {
			if _, ok := from[s.fn]; ok {
				pos := "?"
				if s.c != nil {
					pos = p.instrPos(s.c)
				}
				r.bad("generator I/O", shortFn(s.fn)+":"+fullName(s.g), pos, "%s is reachable while generating: %s", fullName(s.g), p.chain(from, s.fn))
			}
		}
		for _, g := range gens {
			r.ok("generator without I/O", shortFn(g))
		}
		r.need("generator without I/O", 10)
	} else {
		r.missing("the Generator interface")
	}
}

func keys(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	return out
}

// takesNode: the function has a schema node parameter by value (part of the parser proper).
func takesNode(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if typeName(prm.Type()) == "schemaNode" || typeName(prm.Type()) == "parserMetadata" {
			return true
		}
	}
	return false
}

func (r *R) c01table(fts []fetcher) {
	p := r.p
	it := p.fetcherIface()
	kind := map[string]string{}
	for _, f := range fts {
		kind[f.typ] = f.kind
	}
	holdsFetcher := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		e := deref(m.Elem())
		i, ok := e.Underlying().(*types.Interface)
		return ok && types.Identical(i, it)
	}
	want := map[string][]string{"net": {"http", "https"}, "file": {"file"}}
	optName := map[string]string{"net": "HTTPFetchOptions", "file": "FileSystemFetchOptions"}
	done := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		has := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && holdsFetcher(mu.Map.Type()) {
					has = true
				}
			}
		}
		if !has {
			continue
		}
		// start from the outermost caller within the library that still is not recursive and takes options
		for _, root := range p.optionRoots(fn) {
			if done[root] {
				continue
			}
			done[root] = true
			x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return !p.recursive(f) }})
			x.cfg.OnInstr = func(st *State, fr *frame, in ssa.Instruction) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !holdsFetcher(mu.Map.Type()) {
					return
				}
				pos := p.instrPos(in)
				key, isC := strConst(x.val(st, mu.Key))
				v := x.val(st, mu.Value)
				if _, isP := mu.Value.Type().Underlying().(*types.Pointer); isP {
					v = x.load(st, v)
				}
				if v.isNil() || x.knownNil(st, v) {
					r.ok("fetcher table", "nil entry "+key)
					return
				}
				if v.Op != "iface" {
					r.bad("fetcher table", "value", pos, "an entry of the fetcher table could not be resolved: %s", v)
					return
				}
				k := kind[typeName(v.T)]
				if !isC {
					r.bad("fetcher table", typeName(v.T)+":key", pos, "the scheme a fetcher is registered for is not a constant: %s", x.val(st, mu.Key))
					return
				}
				okKey := false
				for _, w := range want[k] {
					if w == key {
						okKey = true
					}
				}
				if !okKey {
					r.bad("fetcher table", typeName(v.T)+":"+key, pos, "%s is registered for the scheme %q", typeName(v.T), key)
				}
				enabled := false
				for f, fv := range st.facts {
					if fv && isField(f, optName[k], "Enabled") {
						enabled = true
					}
				}
				if !enabled {
					r.bad("fetcher table", typeName(v.T)+":enabled", pos, "%s becomes available for %q on a path where its option Enabled is not known to be true (%s)", typeName(v.T), key, trailOf(st))
				}
				if okKey && enabled {
					r.ok("fetcher table", typeName(v.T)+" for "+key)
				}
			}
			x.Root(root, nil)
			r.exec(x, shortFn(root))
		}
	}
	r.need("fetcher table", 3)
}

// optionRoots: fn itself, or its callers as long as fn's own parameters do not include the options.
func (p *Prog) optionRoots(fn *ssa.Function) []*ssa.Function {
	has := func(f *ssa.Function) bool {
		for _, prm := range f.Params {
			switch typeName(prm.Type()) {
			case "ParserOptions", "DocumentFetchOptions":
				return true
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var up func(f *ssa.Function, d int)
	up = func(f *ssa.Function, d int) {
		if seen[f] {
			return
		}
		seen[f] = true
		if has(f) || d > 5 {
			out = append(out, f)
			return
		}
		n := 0
		for caller, cs := range p.callGraph() {
			for _, c := range cs {
				if c == f {
					n++
					up(caller, d+1)
				}
			}
		}
		if n == 0 {
			out = append(out, f)
		}
	}
	up(fn, 0)
	return out
}

const jsPkg = "github.com/santhosh-tekuri/jsonschema/v6"

func (r *R) c01validator() {
	p := r.p
	n := 0
	roots := map[*ssa.Function]bool{}
	p.calls(func(fn *ssa.Function, c ssa.CallInstruction) {
		g := c.Common().StaticCallee()
		if g == nil || fnPkgPath(g) != jsPkg || g.Name() != "NewCompiler" || !p.isLib(fn) {
			return
		}
		// the whole life of the compiler: climb while the compiler is handed back to a caller
		f := fn
		for i := 0; i < 4; i++ {
			ret := false
			for j := 0; j < f.Signature.Results().Len(); j++ {
				if typeName(f.Signature.Results().At(j).Type()) == "Compiler" {
					ret = true
				}
			}
			if !ret {
				break
			}
			var callers []*ssa.Function
			for cl, cs := range p.callGraph() {
				for _, c := range cs {
					if c == f {
						callers = append(callers, cl)
					}
				}
			}
			if len(callers) == 0 {
				break
			}
			for _, cl := range callers[1:] {
				roots[cl] = true
			}
			f = callers[0]
		}
		roots[f] = true
		n++
	})
	if n == 0 {
		r.missing("the embedded validator's compiler")
		return
	}
	for fn := range roots {
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return !p.recursive(f) && f.Name() != "MarshalJSON" }})
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Callee == nil || fnPkgPath(ev.Callee) != jsPkg {
				return false
			}
			pos := p.instrPos(ev.In)
			key := shortFn(ev.Fr.fn) + ":" + ev.Callee.Name()
			if recvName(ev.Callee) != "Compiler" {
				return false
			}
			k := fmt.Sprintf("loader:%d", ev.Args[0].id)
			switch ev.Callee.Name() {
			case "UseLoader":
				l := ev.Args[1]
				if l.Op != "iface" {
					r.bad("validator loader", key, pos, "the loader given to the embedded validator could not be resolved: %s", l)
					return false
				}
				if why := p.loaderIO(l); why != "" {
					r.bad("validator loader", key, pos, "the loader given to the embedded validator may load documents: %s", why)
					return false
				}
				ev.St.mon[k] = "1"
				r.ok("validator loader", key+" "+typeName(l.T))
			case "AddResource", "Compile", "MustCompile", "AddSchema":
				if ev.St.mon[k] == "" {
					r.bad("validator use", key, pos, "%s is called on a compiler that still has the default loader, which reads files (%s)", ev.Callee.Name(), trailOf(ev.St))
				} else {
					r.ok("validator use", key)
				}
			}
			return false
		}
		x.Root(fn, nil)
		r.exec(x, shortFn(fn))
	}
	r.need("validator loader", 1)
	r.need("validator use", 1)
}

// loaderIO: the loader's Load method may do I/O.
func (p *Prog) loaderIO(l *Term) string {
	ms := p.SSA.MethodSets.MethodSet(l.T)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() != "Load" {
			continue
		}
		f := p.SSA.MethodValue(ms.At(i))
		if f == nil {
			return "its Load method is unknown"
		}
		fs := []*ssa.Function{f}
		if l.T != nil && !p.inRepo(f) && f.Synthetic == "" {
			if p.reachesIO(f) != "" || isRepoless(f) {
				return typeName(l.T) + ".Load is not the library's own"
			}
		}
		for g := range p.reach(fs, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					s := c.Common().StaticCallee()
					if s == nil {
						if c.Common().IsInvoke() && c.Common().Method.Name() == "Load" {
							return typeName(l.T) + ".Load delegates to another loader"
						}
						if !c.Common().IsInvoke() {
							if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
								return typeName(l.T) + ".Load calls an unknown function"
							}
						}
						continue
					}
					if s.Name() == "Load" && !p.inRepo(s) {
						return fullName(s)
					}
					if !p.inRepo(s) && p.reachesIO(s) != "" && !pureExternal(s) && !strings.HasPrefix(fullName(s), "fmt.") && !strings.HasPrefix(fullName(s), "errors.") {
						return fullName(s) + " is called"
					}
				}
			}
		}
		return ""
	}
	return "it has no Load method"
}

func isRepoless(f *ssa.Function) bool { return true }
