package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", "Every function reachable from RootGenerator.Generate is scanned (the pattern generators and String methods apart). A source of randomness other than the options' is only used where the path has established that no source was set (interpreted on all paths), or where its result only ends up in the text of the value that is returned: it never reaches a condition, an index, a count, a map key or a call that draws. Every draw uses the options' source. Every iteration over a map (or over a list collected from one, until it is sorted) must be independent of the order: it draws nothing, only collects into lists and maps by key, counts, and leaves early only with results that do not depend on the entry. No goroutines, channel selects or addresses take part.",
		"the order in which the parser builds a generator; third-party libraries.", runC18)
}

type orderCheck struct {
	r     *R
	p     *Prog
	reg   map[*ssa.Function]bool
	draws map[*ssa.Function]bool
	picks map[*ssa.Function]bool // draws from the options' source
	seenV map[ssa.Value]bool
	seenL map[*ssa.BasicBlock]bool
}

// genRegion: everything that runs while generating; pattern generators and descriptions apart.
func (p *Prog) genRegion() (map[*ssa.Function]bool, []*ssa.Function) {
	var roots []*ssa.Function
	for _, f := range p.libRoots() {
		if recvName(f) == "RootGenerator" && strings.HasPrefix(f.Name(), "Generate") {
			roots = append(roots, f)
		}
	}
	from := p.reach(roots, func(f *ssa.Function) bool {
		return f.Signature.Recv() != nil && f.Name() == "String" || strings.HasSuffix(fnPkgPath(f), "/regen")
	})
	reg := map[*ssa.Function]bool{}
	for f := range from {
		if p.inRepo(f) {
			reg[f] = true
		}
	}
	return reg, roots
}

// foreignSource: a library function whose result is not determined by its arguments.
func foreignSource(f *ssa.Function) bool {
	pk := fnPkgPath(originOf(f))
	n := originOf(f).Name()
	switch {
	case pk == "math/rand" || pk == "math/rand/v2":
		return f.Signature.Recv() == nil && n != "New" && n != "NewSource" && n != "NewPCG" && n != "NewChaCha8" && n != "NewZipf"
	case pk == "crypto/rand" || pk == "hash/maphash" || pk == "runtime" || pk == "os" || strings.HasPrefix(pk, "github.com/go-faker"):
		return true
	case pk == "time":
		return n == "Now" || n == "Since" || n == "Until"
	case strings.HasPrefix(pk, "github.com/thoas/go-funk"):
		return strings.HasPrefix(n, "Random") || strings.HasPrefix(n, "Shuffle")
	case strings.Contains(pk, "uuid"):
		return true
	}
	return false
}

// isDraw: the instruction takes a value from a random source.
func isDraw(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if callsMethod(in, "Generate", "Apply", "Int63", "Uint64") {
		return true
	}
	f := c.Common().StaticCallee()
	if f == nil {
		return false
	}
	pk := fnPkgPath(originOf(f))
	return (pk == "math/rand" || pk == "math/rand/v2") && f.Signature.Recv() != nil || foreignSource(f)
}

// isPick: a draw from the options' source (or whatever a generator does).
func isPick(in ssa.Instruction) bool {
	if !isDraw(in) {
		return false
	}
	f := in.(ssa.CallInstruction).Common().StaticCallee()
	return f == nil || !foreignSource(f)
}

// picksAfter: the branch decides whether something is drawn.
func (o *orderCheck) picksAfter(in ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, i := range b.Instrs {
			if isPick(i) {
				return true
			}
			if c, ok := i.(ssa.CallInstruction); ok {
				fs, _ := o.p.calleesOf(c)
				for _, g := range fs {
					if o.picks[g] {
						return true
					}
				}
			}
		}
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	for _, s := range in.Block().Succs {
		if walk(s) {
			return true
		}
	}
	return false
}

func runC18(r *R) {
	p := r.p
	reg, roots := p.genRegion()
	if len(roots) < 2 {
		r.missing("RootGenerator.Generate and RootGenerator.GenerateWithDefaults")
		return
	}
	o := &orderCheck{r: r, p: p, reg: reg, seenV: map[ssa.Value]bool{}, seenL: map[*ssa.BasicBlock]bool{}}
	o.draws = p.touching(isDraw, nil)
	o.picks = p.touching(isPick, nil)
	setup := map[string]bool{} // positions of sources used when none was handed in
	// the source used when none was handed in
	touch := p.touching(func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		return usesField(in, "GeneratorOptions", "Rand") || ok && c.Common().StaticCallee() != nil && foreignSource(c.Common().StaticCallee())
	}, isGenerate)
	for _, root := range roots {
		key := shortFn(root)
		x := newExec(p, Config{Inline: func(f *ssa.Function) bool { return touch[f] && p.genInline(f) }, Fact: relevantFacts(func(t *Term) bool { return optField(t, "Rand") || t.Op == "param" })})
		x.cfg.OnCall = func(ev *CallEvent) bool {
			if ev.Callee == nil || !foreignSource(ev.Callee) {
				if ev.name() == "invoke.Generate" {
					// the options handed on carry the source that was set
					opt := ev.Args[len(ev.Args)-1]
					st := structOf(deref(opt.typ()))
					i := -1
					if st != nil {
						i = fieldIndex(st, "Rand")
					}
					if i < 0 {
						return false
					}
					v := x.load(ev.St, x.faddr(opt, st, i))
					in := x.optionsRand(ev, root)
					switch {
					case in == nil || v == in:
						r.ok("source", key)
					case x.knownNil(ev.St, in):
						r.ok("source", key+" (none set)")
					default:
						r.bad("source", key, p.instrPos(ev.In), "generation uses the source %s although the options carry one (%s)", v, trailOf(ev.St))
					}
				}
				return false
			}
			pos := p.instrPos(ev.In)
			in := x.optionsRand(ev, root)
			if in == nil || x.knownNil(ev.St, in) {
				setup[pos] = true
				r.ok("fallback source", key+" "+pos)
			} else {
				r.bad("fallback source", key+":"+shortFn(ev.Callee), pos, "%s is consulted although the options carry a source of randomness (%s)", shortFn(ev.Callee), trailOf(ev.St))
			}
			return false
		}
		x.Root(root, nil)
		r.exec(x, key)
	}
	for _, f := range sortedFns(reg) {
		r.fn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := p.instrPos(in)
				switch v := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					r.bad("scheduling", shortFn(f), pos, "generation depends on scheduling")
				case *ssa.Convert:
					if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						if vb, ok := v.Type().Underlying().(*types.Basic); ok && vb.Kind() == types.Uintptr {
							r.bad("address", shortFn(f), pos, "an address is turned into a number")
						}
					}
				case *ssa.Range:
					if _, isM := v.X.Type().Underlying().(*types.Map); isM {
						o.mapRange(f, v)
					}
				case ssa.CallInstruction:
					g := v.Common().StaticCallee()
					if g == nil {
						continue
					}
					if foreignSource(g) && !setup[pos] {
						if v.Value() == nil || g.Signature.Results().Len() == 0 || recvName(f) == "RandUtil" {
							r.bad("foreign source", shortFn(f)+":"+shortFn(g), pos, "%s is called", shortFn(g))
							continue
						}
						o.textOnly(f, v)
					}
					o.unorderedCall(f, v)
					if strings.HasPrefix(fnPkgPath(originOf(g)), "fmt") {
						for _, a := range v.Common().Args {
							if c, ok := a.(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.String(), "%p") {
								r.bad("address", shortFn(f), pos, "an address is written to a value")
							}
						}
					}
					// draws use the options' source
					pk := fnPkgPath(originOf(g))
					if strings.HasPrefix(pk, "math/rand") && g.Signature.Recv() != nil {
						o.source(f, v.Common().Args[0], pos, 0)
					}
				}
			}
		}
	}
	r.need("source", 1)
	r.need("fallback source", 1)
	r.need("draw", 5)
	r.need("map order", 1)
	r.need("foreign source", 5)
}

// optionsRand: the source of the options handed in to the root; nil when it takes none.
func (x *Exec) optionsRand(ev *CallEvent, root *ssa.Function) *Term {
	for i, pr := range root.Params {
		if typeName(deref(pr.Type())) == "GeneratorOptions" {
			t := x.T.mk("param", pr, i, pr.Type(), nil, nil)
			st := structOf(deref(pr.Type()))
			return x.load(ev.St, x.faddr(t, st, fieldIndex(st, "Rand")))
		}
	}
	return nil
}

// source: the receiver of a draw is the source of the options.
func (o *orderCheck) source(f *ssa.Function, v ssa.Value, pos string, d int) {
	p := o.p
	isRandField := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		return ok && (typeName(deref(fa.X.Type())) == "GeneratorOptions" || typeName(deref(fa.X.Type())) == "RandUtil")
	}
	good := true
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		for _, w := range p.origins(v, isRandField) {
			if pr, ok := w.(*ssa.Parameter); ok && (typeName(deref(pr.Type())) == "RandUtil" || typeName(deref(pr.Type())) == "GeneratorOptions") {
				continue // handed in by the user
			}
			if c, ok := w.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			if al, ok := w.(*ssa.Alloc); ok && (typeName(deref(al.Type())) == "RandUtil" || typeName(deref(al.Type())) == "GeneratorOptions") {
				continue // spilled or built from a seed; seeds are covered by the sources rule
			}
			if !isRandField(w) {
				good = false
				o.r.bad("draw", shortFn(f)+":"+w.Name(), pos, "a value is drawn from %s, which is not the source of the options", w)
				continue
			}
			fa := w.(*ssa.UnOp).X.(*ssa.FieldAddr)
			if typeName(deref(fa.X.Type())) == "RandUtil" && d < 4 {
				walk(fa.X, d+1)
			}
		}
	}
	walk(v, 0)
	if good {
		o.r.ok("draw", shortFn(f)+" "+pos)
	}
}

// textOnly: the result of a foreign source only ends up in returned text.
func (o *orderCheck) textOnly(f *ssa.Function, c ssa.CallInstruction) {
	p := o.p
	name := shortFn(c.Common().StaticCallee())
	key := shortFn(f) + ":" + name
	seen := map[ssa.Value]bool{}
	good := true
	bad := func(in ssa.Instruction, what string) {
		good = false
		o.r.bad("foreign source", key, p.instrPos(in), "the result of %s decides %s", name, what)
	}
	var walk func(v ssa.Value)
	walkRets := func(g *ssa.Function, idx int) {
		if isGenerate(g) {
			return // the value itself
		}
		for _, cs := range p.callersOf(g) {
			if !o.reg[cs.Parent()] || cs.Value() == nil {
				continue
			}
			if g.Signature.Results().Len() == 1 {
				walk(cs.Value())
				continue
			}
			for _, ref := range *cs.Value().Referrers() {
				if e, ok := ref.(*ssa.Extract); ok && e.Index == idx {
					walk(e)
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch w := u.(type) {
			case *ssa.DebugRef:
			case *ssa.Return:
				for i, rv := range w.Results {
					if rv == v {
						if isGenerate(w.Parent()) && notText(v, 0) {
							bad(u, "a value that is not text")
						}
						walkRets(w.Parent(), i)
					}
				}
			case *ssa.If:
				if o.picksAfter(u) {
					bad(u, "which way is taken before something is drawn")
				}
			case *ssa.BinOp:
				walk(w)
			case *ssa.IndexAddr:
				if w.Index == v {
					bad(u, "which element is used")
				} else {
					walk(w)
				}
			case *ssa.Index:
				if w.Index == v {
					bad(u, "which element is used")
				} else {
					walk(w)
				}
			case *ssa.Lookup:
				if w.Index == v {
					bad(u, "which entry is used")
				} else {
					walk(w)
				}
			case *ssa.MapUpdate:
				if w.Key == v {
					bad(u, "the key of a map")
				} else {
					walk(w.Map)
				}
			case *ssa.MakeSlice:
				bad(u, "how many elements there are")
			case *ssa.Store:
				if w.Val == v {
					if ia, ok := w.Addr.(*ssa.IndexAddr); ok {
						walk(ia.X)
					} else {
						walk(addrRoot(w.Addr))
					}
				}
			case ssa.CallInstruction:
				g := w.Common().StaticCallee()
				switch {
				case g == nil:
					if _, isB := w.Common().Value.(*ssa.Builtin); isB {
						if w.Value() != nil {
							walk(w.Value())
						}
					} else {
						bad(u, "a call of a function value")
					}
				case o.p.inRepo(g):
					if o.draws[g] {
						bad(u, "what "+shortFn(g)+" draws")
						continue
					}
					for i, a := range w.Common().Args {
						if a == v && i < len(g.Params) {
							walk(g.Params[i])
						}
					}
				default:
					if w.Value() != nil {
						walk(w.Value())
					}
					// a builder that is written to
					if g.Signature.Recv() != nil && len(w.Common().Args) > 0 && w.Common().Args[0] != v {
						walk(addrRoot(w.Common().Args[0]))
					}
				}
			case ssa.Value:
				walk(w)
			}
		}
	}
	walk(c.Value())
	if good {
		o.r.ok("foreign source", key+" "+p.instrPos(c))
	}
}

// notText: an interface that may hold something other than a string.
func notText(v ssa.Value, d int) bool {
	switch w := v.(type) {
	case *ssa.MakeInterface:
		b, ok := w.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString == 0
	case *ssa.Phi:
		for _, e := range w.Edges {
			if d < 4 && notText(e, d+1) {
				return true
			}
		}
	}
	return false
}

// unorderedCall: library functions that list the entries of a map in no particular order.
func (o *orderCheck) unorderedCall(f *ssa.Function, c ssa.CallInstruction) {
	g := c.Common().StaticCallee()
	pk := fnPkgPath(originOf(g))
	n := originOf(g).Name()
	if c.Value() == nil {
		return
	}
	hit := false
	switch {
	case strings.HasPrefix(pk, "github.com/thoas/go-funk"):
		switch n {
		case "Keys", "Values", "Map", "ForEach", "ToMap", "Filter", "Reduce", "FlatMap", "Get", "GetOrElse":
			for _, a := range c.Common().Args {
				if mi, ok := a.(*ssa.MakeInterface); ok {
					if _, isM := mi.X.Type().Underlying().(*types.Map); isM {
						hit = true
					}
				}
			}
		}
	case pk == "maps" && (n == "Keys" || n == "Values" || n == "All"), pk == "golang.org/x/exp/maps" && (n == "Keys" || n == "Values"):
		hit = true
	case pk == "reflect" && (n == "MapKeys" || n == "MapRange"):
		hit = true
	}
	if hit {
		if o.unordered(f, c.Value()) {
			o.r.ok("map order", shortFn(f)+" "+o.p.instrPos(c))
		}
	}
}

func (o *orderCheck) mapRange(f *ssa.Function, rg *ssa.Range) {
	// the loop that advances this iterator
	for _, ref := range *rg.Referrers() {
		nx, ok := ref.(*ssa.Next)
		if !ok {
			continue
		}
		if o.loopBody(f, nx.Block(), nx, o.p.instrPos(nx)) {
			o.r.ok("map order", shortFn(f)+" "+o.p.instrPos(rg))
		}
	}
}

// isSort: a call that brings v into a fixed order.
func isSort(c ssa.CallInstruction, v ssa.Value) bool {
	g := c.Common().StaticCallee()
	if g == nil {
		return false
	}
	pk := fnPkgPath(originOf(g))
	n := originOf(g).Name()
	if pk == "sort" && (n == "Strings" || n == "Ints" || n == "Float64s" || n == "Slice" || n == "SliceStable" || n == "Sort" || n == "Stable") || pk == "slices" && strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Sorted") {
		a := c.Common().Args[0]
		for {
			switch w := a.(type) {
			case *ssa.MakeInterface:
				a = w.X
				continue
			case *ssa.ChangeType:
				a = w.X
				continue
			}
			break
		}
		return a == v
	}
	return false
}

// sortsOf: the calls that sort v in place.
func sortsOf(v ssa.Value) []ssa.Instruction {
	var sorts []ssa.Instruction
	var walk func(w ssa.Value, d int)
	walk = func(w ssa.Value, d int) {
		if w.Referrers() == nil || d > 3 {
			return
		}
		for _, u := range *w.Referrers() {
			switch u := u.(type) {
			case ssa.CallInstruction:
				if isSort(u, v) {
					sorts = append(sorts, u)
				}
			case *ssa.MakeInterface:
				walk(u, d+1)
			case *ssa.ChangeType:
				walk(u, d+1)
			}
		}
	}
	walk(v, 0)
	return sorts
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// unordered follows a list whose order is not determined until it is sorted.
func (o *orderCheck) unordered(f *ssa.Function, v ssa.Value) bool {
	if o.seenV[v] {
		return true
	}
	o.seenV[v] = true
	if v.Referrers() == nil {
		return true
	}
	p := o.p
	good := true
	bad := func(in ssa.Instruction, what string, a ...interface{}) {
		good = false
		o.r.bad("map order", shortFn(f)+":"+v.Name(), p.instrPos(in), "a list in the order of a map iteration %s", fmt.Sprintf(what, a...))
	}
	sorts := sortsOf(v)
	sorted := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s != in && before(s, in) {
				return true
			}
		}
		return false
	}
	for _, u := range *v.Referrers() {
		if sorted(u) {
			continue
		}
		switch w := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.TypeAssert:
			if sl, ok := u.(*ssa.Slice); ok && (sl.Low != nil || sl.High != nil) {
				bad(u, "is cut")
				continue
			}
			good = o.unordered(f, u.(ssa.Value)) && good
		case *ssa.MakeInterface:
			good = o.unordered(f, w) && good
		case *ssa.Return:
			for i, rv := range w.Results {
				if rv != v {
					continue
				}
				if isGenerate(f) {
					bad(u, "is returned as the value")
				}
				for _, cs := range p.callersOf(f) {
					if !o.reg[cs.Parent()] || cs.Value() == nil {
						continue
					}
					if len(w.Results) == 1 {
						good = o.unordered(cs.Parent(), cs.Value()) && good
						continue
					}
					for _, ref := range *cs.Value().Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index == i {
							good = o.unordered(cs.Parent(), e) && good
						}
					}
				}
			}
		case *ssa.Store:
			if w.Val == v {
				al, ok := w.Addr.(*ssa.Alloc)
				if !ok {
					bad(u, "is stored")
					continue
				}
				// a variable: what is loaded from it, until it is sorted
				vs := sorts
				for _, ref := range *al.Referrers() {
					if ld, ok := ref.(*ssa.UnOp); ok {
						vs = append(vs, sortsOf(ld)...)
					}
				}
				done := func(in ssa.Instruction) bool {
					for _, s := range vs {
						if s != in && before(s, in) {
							return true
						}
					}
					return false
				}
				for _, ref := range *al.Referrers() {
					if done(ref) {
						continue
					}
					switch w := ref.(type) {
					case *ssa.UnOp:
						isArg := false
						for _, s := range sortsOf(w) {
							isArg = isArg || before(w, s)
						}
						good = (isArg && len(*w.Referrers()) == 1) || o.unordered(f, w) && good
					case *ssa.MakeClosure:
						// the comparison of a sort
						for _, u := range *w.Referrers() {
							c, isC := u.(ssa.CallInstruction)
							inSort := false
							for _, s := range vs {
								inSort = inSort || isC && ssa.Instruction(c) == s
							}
							if _, isDbg := u.(*ssa.DebugRef); !inSort && !isDbg {
								bad(ref, "is used by a function literal")
							}
						}
					case ssa.CallInstruction:
						bad(ref, "is handed on by address")
					}
				}
			}
		case *ssa.IndexAddr:
			// reading elements one after the other
			lp := o.loopOf(f, w.Block())
			if lp == nil {
				bad(u, "is indexed")
				continue
			}
			good = o.loopBody(f, lp.Header, w, p.instrPos(w)) && good
		case ssa.CallInstruction:
			if isSort(w, v) {
				continue
			}
			g := w.Common().StaticCallee()
			if b, ok := w.Common().Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append":
					good = o.unordered(f, w.Value()) && good
				default:
					bad(u, "is given to %s", b.Name())
				}
				continue
			}
			if g == nil {
				bad(u, "is given to a function value")
				continue
			}
			pk := fnPkgPath(originOf(g))
			n := originOf(g).Name()
			switch {
			case p.inRepo(g):
				if o.draws[g] {
					bad(u, "is given to %s, which draws random values", shortFn(g))
					continue
				}
				for i, a := range w.Common().Args {
					if a == v && i < len(g.Params) {
						good = o.unordered(g, g.Params[i]) && good
					}
				}
			case pk == "slices" && strings.HasPrefix(n, "Sorted"), strings.HasPrefix(pk, "github.com/thoas/go-funk") && strings.HasPrefix(n, "Contains"), pk == "slices" && (n == "Contains" || n == "Max" || n == "Min"):
			case w.Value() != nil && (pk == "slices" && (n == "Collect" || n == "Clone") || strings.HasPrefix(pk, "github.com/thoas/go-funk")):
				good = o.unordered(f, w.Value()) && good
			default:
				bad(u, "is given to %s", shortFn(g))
			}
		default:
			bad(u, "is used by %s", u)
		}
	}
	return good
}

func (o *orderCheck) loopOf(f *ssa.Function, b *ssa.BasicBlock) *Loop {
	fi := analyseFn(f)
	ls := fi.loopsOf(b)
	if len(ls) == 0 {
		return nil
	}
	best := ls[0]
	for _, l := range ls {
		if len(l.Blocks) < len(best.Blocks) {
			best = l
		}
	}
	return best
}

// loopBody: the loop over the entries does the same whatever their order.
func (o *orderCheck) loopBody(f *ssa.Function, header *ssa.BasicBlock, entry ssa.Value, pos string) bool {
	p := o.p
	var l *Loop
	for _, c := range analyseFn(f).loopsOf(header) {
		if c.Header == header || l == nil {
			l = c
		}
	}
	if l == nil {
		// no way round: one entry is looked at, whichever comes first
		if nx, ok := entry.(*ssa.Next); ok {
			for _, u := range *nx.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
					o.r.bad("map order", shortFn(f)+":first", pos, "the first entry of a map iteration is used")
					return false
				}
			}
		}
		return true
	}
	if o.seenL[header] {
		return true
	}
	o.seenL[header] = true
	good := true
	bad := func(in ssa.Instruction, what string, a ...interface{}) {
		good = false
		o.r.bad("map order", shortFn(f)+":loop", p.instrPos(in), "the iteration over a map at %s %s", pos, fmt.Sprintf(what, a...))
	}
	// what depends on the entry at hand
	dep := map[ssa.Value]bool{entry: true}
	for ch := true; ch; {
		ch = false
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				if ph, isPhi := in.(*ssa.Phi); isPhi && ph.Block() == l.Header {
					continue
				}
				var ops []*ssa.Value
				for _, q := range in.Operands(ops) {
					if *q != nil && dep[*q] {
						dep[v] = true
						ch = true
						break
					}
				}
			}
		}
	}
	for v := range dep {
		if v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			ub := u.Block()
			if l.Blocks[ub] || v.Parent() != u.Parent() {
				continue
			}
			if _, isDbg := u.(*ssa.DebugRef); !isDbg {
				bad(u, "is left early and the entry is used afterwards")
			}
		}
	}
	for _, b := range f.Blocks {
		if !l.Blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Phi:
				if b != l.Header {
					continue
				}
				switch t := v.Type().Underlying().(type) {
				case *types.Slice:
					for i, e := range v.Edges {
						if l.Blocks[b.Preds[i]] && e != ssa.Value(v) {
							good = o.unordered(f, v) && good
						}
					}
				case *types.Basic:
					if t.Info()&types.IsInteger != 0 && commutes(v, l) {
						continue
					}
					konst := true
					for i, e := range v.Edges {
						if !l.Blocks[b.Preds[i]] || e == ssa.Value(v) {
							continue
						}
						konst = konst && constOrSelf(e, v, 0)
					}
					if !konst {
						bad(in, "carries %s from one entry to the next", v.Comment)
					}
				default:
					changed := false
					for i, e := range v.Edges {
						if l.Blocks[b.Preds[i]] && e != ssa.Value(v) {
							changed = true
						}
					}
					if changed {
						bad(in, "carries %s from one entry to the next", v.Comment)
					}
				}
			case *ssa.MapUpdate:
				if !dep[v.Key] && dep[v.Value] {
					bad(in, "overwrites the same entry of a map")
				}
			case *ssa.Store:
				if al, ok := addrRoot(v.Addr).(*ssa.Alloc); ok {
					if l.Blocks[al.Block()] {
						continue
					}
					if _, isS := deref(al.Type()).Underlying().(*types.Slice); isS && v.Addr == ssa.Value(al) {
						good = o.unordered(f, v.Val) && good
						continue
					}
				}
				if _, isC := v.Val.(*ssa.Const); isC {
					continue
				}
				if incOf(v) {
					continue
				}
				bad(in, "stores a value")
			case *ssa.Return:
				for _, rv := range v.Results {
					if dep[rv] {
						bad(in, "returns a result that depends on the entry")
					}
				}
			case ssa.CallInstruction:
				if isDraw(in) {
					bad(in, "draws random values")
					continue
				}
				fs, _ := p.calleesOf(v)
				for _, g := range fs {
					if o.draws[g] {
						bad(in, "calls %s, which draws random values", shortFn(g))
					}
				}
			}
		}
	}
	// leaving early
	for b := range l.Blocks {
		for _, s := range b.Succs {
			if l.Blocks[s] {
				continue
			}
			if b == l.Header {
				continue
			}
			for _, in := range s.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, pr := range s.Preds {
						if pr == b && dep[ph.Edges[i]] {
							bad(in, "is left early with a result that depends on the entry")
						}
					}
					continue
				}
				if ret, ok := in.(*ssa.Return); ok {
					for _, rv := range ret.Results {
						if dep[rv] {
							bad(in, "returns a result that depends on the entry")
						}
					}
				}
			}
			// something collected so far is used after leaving early
			for _, in := range l.Header.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if _, isS := ph.Type().Underlying().(*types.Slice); isS && usedFrom(ph, s, l) {
					bad(in, "is left early with only some of the entries collected")
				}
			}
		}
	}
	return good
}

func usedFrom(v ssa.Value, s *ssa.BasicBlock, l *Loop) bool {
	for _, u := range *v.Referrers() {
		if _, isPhi := u.(*ssa.Phi); !isPhi && !l.Blocks[u.Block()] && s.Dominates(u.Block()) {
			return true
		}
	}
	return false
}

// commutes: the counter is only added to (or bounded) by the loop.
func commutes(ph *ssa.Phi, l *Loop) bool {
	ok := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == ssa.Value(ph) || seen[v] {
			return
		}
		seen[v] = true
		switch w := v.(type) {
		case *ssa.Phi:
			for _, e := range w.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			switch w.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
				walk2(w.X, w.Y, ph, walk, &ok)
			case token.SUB:
				walk(w.X)
			default:
				ok = false
			}
		case *ssa.Call:
			n := ""
			if g := w.Call.StaticCallee(); g != nil {
				n = g.Name()
			} else if b, isB := w.Call.Value.(*ssa.Builtin); isB {
				n = b.Name()
			}
			if n != "min" && n != "max" && n != "MaxInt" && n != "MinInt" {
				ok = false
			}
		default:
			ok = false
		}
	}
	for i, e := range ph.Edges {
		if l.Blocks[ph.Block().Preds[i]] {
			walk(e)
		}
	}
	return ok
}

func walk2(x, y ssa.Value, ph *ssa.Phi, walk func(ssa.Value), ok *bool) {
	switch {
	case x == ssa.Value(ph):
	case y == ssa.Value(ph):
	default:
		if _, isC := y.(*ssa.Const); isC {
			walk(x)
		} else {
			*ok = false
		}
	}
}

func constOrSelf(v ssa.Value, ph *ssa.Phi, d int) bool {
	if v == ssa.Value(ph) {
		return true
	}
	switch w := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		if d > 6 {
			return false
		}
		for _, e := range w.Edges {
			if e != ssa.Value(w) && !constOrSelf(e, ph, d+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		// flags that are or-ed or and-ed
		return (w.Op == token.OR || w.Op == token.AND) && (w.X == ssa.Value(ph) || w.Y == ssa.Value(ph))
	}
	return false
}

// incOf: x = x + n for integers
func incOf(s *ssa.Store) bool {
	b, ok := s.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	if t, ok := b.Type().Underlying().(*types.Basic); !ok || t.Info()&types.IsInteger == 0 {
		return false
	}
	for _, q := range []ssa.Value{b.X, b.Y} {
		if u, ok := q.(*ssa.UnOp); ok && u.Op == token.MUL && sameCell(u.X, s.Addr) {
			return true
		}
	}
	return false
}
