package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16 and C17: the command line tool.

func init() {
	register("C16", "main is interpreted on all paths with the helpers of its package: every field of the options at the calls of ParseSchemaFile, ParseSchema and Generate is compared with the value of the flag of the same name (read after the flags were parsed). The fetchers must be enabled exactly when the flags that allow them are given, for each truth value of the flags. File and standard input must get the same options, and the format and output flags choose the encoder and the destination.",
		"Flags are matched with fields by their names. What flag.Parse itself does is trusted.", runC16)
	register("C17", "main is interpreted on all paths with the helpers of its package. On every path that ends in success each call that can fail was found to have succeeded, the failing paths exit with a non-zero status, nothing derived from the generated value is printed on a failing path, and the value is written to the place asked for. Every call that creates, truncates, renames or removes a file is only reached after the same path was found not to exist, or opens it exclusively.",
		"Another process creating the file between the test and the opening is not covered. Writing to standard output is assumed to work.", runC17)
}

// cli is one interpretation of main.
type cli struct {
	r    *R
	p    *Prog
	x    *Exec
	main *ssa.Function
	vars map[string]*Term // flags bound to variables
	acc  *loopAcc
}

func newCLI(r *R) *cli {
	c := &cli{r: r, p: r.p, vars: map[string]*Term{}}
	for rel, pk := range r.p.Repo {
		if pk.Pkg.Name() == "main" && pk.Func("main") != nil && strings.HasPrefix(rel, "cli") {
			c.main = pk.Func("main")
		}
	}
	if c.main == nil {
		r.missing("the main function of the command line tool")
		return nil
	}
	own := fnPkgPath(c.main)
	c.x = newExec(r.p, Config{
		Fact: func(a *Term) int {
			if len(c.flags(a)) > 0 || callTo(a, "errors.Is", "os.IsNotExist") || a.any(func(t *Term) bool { return callTo(t, "os.Stat", "os.Lstat") }) {
				return 1
			}
			return 0
		},
		Inline: func(f *ssa.Function) bool {
			pk := fnPkgPath(originOf(f))
			return (pk == own || strings.HasSuffix(pk, "/internal/util")) && !r.p.recursive(f)
		},
	})
	c.acc = newLoopAcc(c.x)
	c.x.cfg.OnBack = c.acc.onBack
	return c
}

// flagCall: the call declares a flag; returns the index of its name.
func flagDecl(f *ssa.Function) (name int, isVar, ok bool) {
	if f == nil || fnPkgPath(f) != "flag" {
		return 0, false, false
	}
	off := 0
	if recvName(f) == "FlagSet" {
		off = 1
	} else if f.Signature.Recv() != nil {
		return 0, false, false
	}
	switch f.Name() {
	case "String", "Bool", "Int", "Int64", "Uint", "Uint64", "Float64", "Duration":
		return off, false, true
	case "StringVar", "BoolVar", "IntVar", "Int64Var", "UintVar", "Uint64Var", "Float64Var", "DurationVar":
		return off + 1, true, true
	}
	return 0, false, false
}

func isFlagParse(f *ssa.Function) bool {
	return f != nil && fnPkgPath(f) == "flag" && f.Name() == "Parse"
}

// flagOf: the flag whose value t is.
func (c *cli) flagOf(t *Term) string {
	t = strip(t)
	for n, v := range c.vars {
		if v == t {
			return n
		}
	}
	if t.Op == "load" || t.Op == "deref" || t.Op == "mem" {
		t = t.A[0]
	} else {
		return ""
	}
	if t.Op != "call" && t.Op != "pcall" {
		return ""
	}
	f, _ := t.Aux.(*ssa.Function)
	i, isVar, ok := flagDecl(f)
	if !ok || isVar || i >= len(t.A) {
		return ""
	}
	n, _ := strConst(t.A[i])
	return n
}

// flags: the flags a value is made of.
func (c *cli) flags(t *Term) map[string]*Term {
	out := map[string]*Term{}
	t.any(func(u *Term) bool {
		if n := c.flagOf(u); n != "" {
			out[n] = u
		}
		return false
	})
	return out
}

func flagNorm(s string) string {
	return strings.ToLower(strings.NewReplacer("-", "", "_", "").Replace(s))
}

// declared: flags declared by the package, by normalised name.
func (c *cli) declared() map[string]string {
	out := map[string]string{}
	for f := range c.p.reach([]*ssa.Function{c.main}, func(f *ssa.Function) bool { return fnPkgPath(f) != fnPkgPath(c.main) }) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				i, _, ok := flagDecl(call.Common().StaticCallee())
				if !ok || i >= len(call.Common().Args) {
					continue
				}
				if k, isC := call.Common().Args[i].(*ssa.Const); isC && k.Value != nil && k.Value.Kind() == constant.String {
					n := constant.StringVal(k.Value)
					out[flagNorm(n)] = n
				}
			}
		}
	}
	return out
}

// track watches the declaration of flags and their parsing.
func (c *cli) track(early func(in ssa.Instruction, flag string)) {
	prev := c.x.cfg.OnOpaque
	c.x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
		if isFlagParse(ev.Callee) {
			ev.St.mon["parsed"] = "1"
		}
		if i, isVar, ok := flagDecl(ev.Callee); ok && isVar && i < len(ev.Args) {
			if n, isC := strConst(ev.Args[i]); isC {
				c.vars[n] = c.x.load(ev.St, ev.Args[i-1])
			}
		}
		if prev != nil {
			prev(ev, rets)
		}
	}
	if early == nil {
		return
	}
	c.x.cfg.OnInstr = func(s *State, fr *frame, in ssa.Instruction) {
		ld, ok := in.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL || s.mon["parsed"] != "" {
			return
		}
		if n := c.flagOf(c.x.load(s, c.x.val(s, ld.X))); n != "" {
			early(in, n)
		}
	}
}

// schemaCall: the call hands a schema and options to the library.
func schemaCall(f *ssa.Function) bool {
	return f != nil && fnPkgPath(f) == "github.com/ryanolee/go-chaff" && f.Signature.Recv() == nil && strings.HasPrefix(f.Name(), "ParseSchema")
}

func generateCall(f *ssa.Function) bool {
	return f != nil && fnPkgPath(f) == "github.com/ryanolee/go-chaff" && recvName(f) == "RootGenerator" && strings.HasPrefix(f.Name(), "Generate")
}

func runC16(r *R) {
	c := newCLI(r)
	if c == nil {
		return
	}
	p, x := r.p, c.x
	decl := c.declared()
	c.track(func(in ssa.Instruction, n string) {
		r.bad("flag value", n+":early", p.instrPos(in), "the flag -%s is read before the flags are parsed", n)
	})
	seen := map[string]bool{}
	used := map[string]bool{}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		s := ev.St
		switch {
		case schemaCall(ev.Callee):
			pos := p.instrPos(ev.In)
			src := "stdin"
			if strings.HasPrefix(ev.Callee.Name(), "ParseSchemaFile") {
				src = "file"
				if n := c.flagOf(ev.Args[0]); n != "file" {
					r.bad("schema source", src+":path", pos, "the schema is read from %s instead of the file of -file", ev.Args[0])
				} else {
					r.ok("schema source", src)
				}
			} else if fl := c.flags(ev.Args[0]); len(fl) > 0 {
				r.bad("schema source", src+":data", pos, "a flag is used as the schema: %s", ev.Args[0])
			} else {
				r.ok("schema source", src)
			}
			if seen[src] = true; len(ev.Args) < 2 || ev.Callee.Name() == "ParseSchemaFileWithDefaults" {
				r.bad("flag to option", src+":defaults", pos, "the flags are not handed to the parser")
				return true
			}
			c.parser(s, src, ev.Args[1], pos, decl, used)
			return true
		case generateCall(ev.Callee):
			pos := p.instrPos(ev.In)
			seen["generate"] = true
			if len(ev.Args) < 2 {
				r.bad("flag to option", "generate:defaults", pos, "the flags are not handed to the generator")
				return true
			}
			st := structOf(deref(ev.Args[1].typ()))
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !f.Exported() {
					continue
				}
				v := x.load(s, x.faddr(ev.Args[1], st, i))
				c.direct("GeneratorOptions."+f.Name(), f.Name(), v, s, pos, decl, used)
			}
			return true
		}
		return false
	}
	prev := x.cfg.OnOpaque
	x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
		prev(ev, rets)
		if ev.Callee == nil {
			return
		}
		switch n := fullName(ev.Callee); n {
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			if !ev.Args[0].any(func(t *Term) bool { f, _ := t.Aux.(*ssa.Function); return t.Op == "call" && generateCall(f) }) {
				return
			}
			want := n == "encoding/json.MarshalIndent"
			v, known := c.boolFlag(ev.St, "format")
			if !known || v != want {
				r.bad("flag to option", "format", p.instrPos(ev.In), "the output is encoded by %s although -format %s (%s)", ev.Callee.Name(), map[bool]string{true: "is set", false: "may not be set"}[v && known], trailOf(ev.St))
			} else {
				used["format"] = true
				r.ok("flag to option", "format "+ev.Callee.Name())
			}
		}
	}
	x.Root(c.main, nil)
	r.exec(x, shortFn(c.main))
	for _, s := range []string{"file", "stdin", "generate"} {
		if !seen[s] {
			r.bad("flag to option", s+":call", p.posAt(c.main.Pos()), "main never reaches the library for %s", s)
		}
	}
	for _, n := range []string{"file", "output", "format", "allowed-hosts", "allow-insecure", "allow-outside-cwd", "allowed-paths", "bypass-cyclic-reference-check",
		"maximum-reference-depth", "maximum-if-attempts", "maximum-oneof-attempts", "maximum-generation-steps", "cutoff-generation-steps"} {
		if decl[flagNorm(n)] != n {
			r.bad("flag", n, p.posAt(c.main.Pos()), "there is no flag -%s", n)
		} else {
			r.ok("flag", n)
		}
	}
	r.need("flag to option", 15)
	r.need("schema source", 2)
	r.need("flag", 13)
}

func (c *cli) boolFlag(s *State, name string) (val, known bool) {
	for f, v := range s.facts {
		if c.flagOf(f) == name {
			return v, true
		}
	}
	return false, false
}

// direct: a field that takes the value of the flag with its name as it is.
func (c *cli) direct(label, field string, v *Term, s *State, pos string, decl map[string]string, used map[string]bool) {
	r := c.r
	name, has := decl[flagNorm(field)]
	fl := c.flags(v)
	if !has {
		if len(fl) > 0 {
			r.bad("flag to option", label, pos, "%s is set from a flag of another name: %s", label, v)
		}
		return
	}
	used[name] = true
	if c.flagOf(v) == name {
		r.ok("flag to option", label+" from -"+name)
		return
	}
	// the value is known on this path
	if v.isConst() && v.cv().Kind() == constant.Bool {
		if b, known := c.boolFlag(s, name); known && b == constant.BoolVal(v.cv()) {
			r.ok("flag to option", label+" from -"+name)
			return
		}
	}
	r.bad("flag to option", label, pos, "%s is set to %s instead of the value of -%s (%s)", label, v, name, trailOf(s))
}

// parser checks the options of the parser.
func (c *cli) parser(s *State, src string, opts *Term, pos string, decl map[string]string, used map[string]bool) {
	r, x := c.r, c.x
	st := structOf(deref(opts.typ()))
	fi := fieldIndex(st, "DocumentFetchOptions")
	if fi < 0 {
		r.missing("ParserOptions.DocumentFetchOptions")
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		if i != fi {
			c.direct(src+":ParserOptions."+st.Field(i).Name(), st.Field(i).Name(), x.load(s, x.faddr(opts, st, i)), s, pos, decl, used)
		}
	}
	d := x.load(s, x.faddr(opts, st, fi))
	ds := structOf(d.T)
	for _, q := range []struct {
		field  string
		enable []string // flags that switch it on
	}{{"HTTPFetchOptions", []string{"allowed-hosts"}}, {"FileSystemFetchOptions", []string{"allow-outside-cwd", "allowed-paths"}}} {
		i := fieldIndex(ds, q.field)
		if i < 0 {
			r.missing("DocumentFetchOptions." + q.field)
			continue
		}
		o := x.field(d, ds, i)
		os := structOf(o.T)
		label := src + ":" + q.field
		en := x.field(o, os, fieldIndex(os, "Enabled"))
		c.enabled(s, label, en, q.enable, pos)
		if off, known := x.unset(s, en); known && off {
			continue // the rest does not matter
		}
		for j := 0; j < os.NumFields(); j++ {
			f := os.Field(j)
			v := x.field(o, os, j)
			if f.Name() == "Enabled" {
				continue
			}
			if _, isList := f.Type().Underlying().(*types.Slice); isList {
				c.list(s, label+"."+f.Name(), f.Name(), v, pos, decl, used)
			} else {
				c.direct(label+"."+f.Name(), f.Name(), v, s, pos, decl, used)
			}
		}
	}
}

// flagTerm: the value of a flag as it is used on this path.
func (c *cli) flagTerm(s *State, name string) *Term {
	if v := c.vars[name]; v != nil {
		return v
	}
	var out *Term
	look := func(t *Term) {
		t.any(func(u *Term) bool {
			if c.flagOf(u) == name {
				out = u
			}
			return false
		})
	}
	for f := range s.facts {
		look(f)
	}
	for _, v := range s.heap {
		look(v)
	}
	return out
}

// enabled: on exactly when one of the flags is given.
func (c *cli) enabled(s *State, label string, en *Term, by []string, pos string) {
	r, x := c.r, c.x
	bt := types.Typ[types.Bool]
	// every combination of given and missing flags that the path allows
	for m := 0; m < 1<<len(by); m++ {
		t := s.clone()
		possible := true
		for i, n := range by {
			on := m>>i&1 == 1
			v := c.flagTerm(s, n)
			if v == nil {
				if en.isConst() {
					r.bad("enabled", label+":"+n, pos, "%s is switched %s without looking at -%s (%s)", label, map[bool]string{true: "on", false: "off"}[!isZeroC(en)], n, trailOf(s))
				}
				possible = possible && false
				continue
			}
			cond := v
			if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				cond = x.bin("!=", v, x.T.Str(""), bt)
			}
			if val, known := x.decide(t, cond); known {
				if val != on {
					possible = false
				}
				continue
			}
			x.assume(t, cond, on, nil)
		}
		if !possible {
			continue
		}
		want := m != 0
		got, known := false, false
		if en.isConst() && en.cv().Kind() == constant.Bool {
			got, known = constant.BoolVal(en.cv()), true
		} else {
			got, known = x.decide(t, en)
		}
		switch {
		case known && got == want:
			r.ok("enabled", label)
		case want:
			r.bad("enabled", label+":off", pos, "%s stays off although the flags that allow it are given (%s)", label, trailOf(s))
		default:
			r.bad("enabled", label+":on", pos, "%s is switched on although none of -%s is given (%s)", label, strings.Join(by, ", -"), trailOf(s))
		}
	}
}

// list: a comma separated list.
func (c *cli) list(s *State, label, field string, v *Term, pos string, decl map[string]string, used map[string]bool) {
	r, x := c.r, c.x
	name, has := decl[flagNorm(field)]
	if !has {
		return
	}
	used[name] = true
	fl := c.flags(v)
	if base, _ := unwind(strip(v)); len(fl) == 0 && len(c.acc.iters[base]) > 0 {
		// built entry by entry
		of := func(t *Term) bool {
			return t.any(func(u *Term) bool {
				fl := c.flags(u)
				return callTo(u, "strings.Split") && fl[name] != nil && len(fl) == 1 && isStr(u.A[1], ",")
			})
		}
		for _, it := range c.acc.iters[base] {
			good := !it.reset
			for _, pc := range it.added {
				good = good && of(pc) && len(c.flags(pc)) == 1
			}
			if good && len(it.added) == 0 {
				// left out because of the entry itself
				good = false
				for f := range it.st.facts {
					if e, _, ok := eqOperands(f); ok && of(e) {
						good = true
					}
				}
			}
			if !good {
				r.bad("flag to option", label, pos, "%s does not hold every entry of the list given by -%s", label, name)
				return
			}
		}
		r.ok("flag to option", label+" from -"+name)
		return
	}
	if len(fl) == 0 {
		// nothing given, nothing allowed
		t := c.flagTerm(s, name)
		empty := v.isNil()
		if n := x.lenOf(s, v); n.isConst() && isZeroC(n) {
			empty = true
		}
		if t != nil && empty {
			if e, known := x.decide(s, x.bin("==", t, x.T.Str(""), types.Typ[types.Bool])); known && e {
				r.ok("flag to option", label+" empty")
				return
			}
		}
		r.bad("flag to option", label, pos, "%s is %s instead of the list given by -%s (%s)", label, v, name, trailOf(s))
		return
	}
	if len(fl) > 1 || fl[name] == nil {
		r.bad("flag to option", label, pos, "%s is made from other flags: %s", label, v)
		return
	}
	sep := true
	v.any(func(u *Term) bool {
		if callTo(u, "strings.Split", "strings.SplitN", "strings.FieldsFunc", "strings.SplitAfter") {
			f, _ := u.Aux.(*ssa.Function)
			if k, isC := strConst(u.A[1]); isC && k != "," || f.Name() == "SplitN" || f.Name() == "SplitAfter" {
				sep = false
			}
		}
		return false
	})
	if c.flagOf(v) == name || !sep {
		r.bad("flag to option", label, pos, "-%s is not split at its commas: %s", name, v)
		return
	}
	r.ok("flag to option", label+" from -"+name)
}

// writers: functions of the standard library that change what a path refers to; the argument that is the path.
var fileWriters = map[string]int{
	"os.Create": 0, "os.WriteFile": 0, "os.OpenFile": 0, "os.Rename": 1, "os.Remove": 0, "os.RemoveAll": 0, "os.Truncate": 0, "os.Link": 1, "os.Symlink": 1,
	"io/ioutil.WriteFile": 0, "os.CopyFS": 0, "os.Mkdir": 0, "os.MkdirAll": 0,
}

func runC17(r *R) {
	c := newCLI(r)
	if c == nil {
		return
	}
	p, x := r.p, c.x
	var generated func(t *Term) bool
	generated = func(t *Term) bool {
		if t == nil || t.T != nil && types.Identical(t.T, errT) {
			return false
		}
		if f, _ := t.Aux.(*ssa.Function); t.Op == "call" && generateCall(f) {
			return true
		}
		for _, a := range t.A {
			if generated(a) {
				return true
			}
		}
		return false
	}
	encoded := func(t *Term) bool {
		return generated(t) && t.any(func(u *Term) bool { return callTo(u, "encoding/json.Marshal", "encoding/json.MarshalIndent") })
	}
	// calls whose failure must not go unnoticed
	fails := map[string]ssa.Instruction{}
	errs := map[*Term]string{}
	keep := x.cfg.Fact
	x.cfg.Fact = func(a *Term) int {
		if _, _, ok := eqOperands(a); ok && a.any(func(t *Term) bool { return errs[t] != "" }) {
			return 1
		}
		return keep(a)
	}
	settle := func(s *State) {
		for e, k := range errs {
			if s.mon[k] != "" && x.knownNil(s, e) {
				delete(s.mon, k)
			}
		}
	}
	x.cfg.OnFact = func(s *State, a *Term, v bool, at ssa.Instruction) {
		l, rr, ok := eqOperands(a)
		if !ok || !v {
			return
		}
		for _, q := range [][2]*Term{{l, rr}, {rr, l}} {
			if q[1].isNil() {
				if k := errs[strip(q[0])]; k != "" {
					delete(s.mon, k)
				}
			}
		}
	}
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if schemaCall(ev.Callee) || generateCall(ev.Callee) {
			return true
		}
		return false
	}
	absent := func(s *State, path *Term) bool {
		for f, v := range s.facts {
			if callTo(f, "errors.Is", "os.IsNotExist") && v {
				e := f.A[0]
				if callTo(f, "errors.Is") && !f.A[1].any(func(t *Term) bool { return t.Op == "global" && strings.Contains(t.String(), "ErrNotExist") }) {
					continue
				}
				if e.any(func(t *Term) bool { return callTo(t, "os.Stat", "os.Lstat") && t.A[0] == path }) {
					return true
				}
			}
			// the test of existence failed
			if l, rr, ok := eqOperands(f); ok && !v {
				for _, q := range [][2]*Term{{l, rr}, {rr, l}} {
					if q[1].isNil() && callTo(q[0], "os.Stat", "os.Lstat") && q[0].A[0] == path && types.Identical(q[0].T, errT) {
						return true
					}
				}
			}
		}
		return false
	}
	c.track(nil)
	prev := x.cfg.OnOpaque
	x.cfg.OnOpaque = func(ev *CallEvent, rets []*Term) {
		prev(ev, rets)
		s := ev.St
		if ev.Callee == nil {
			return
		}
		n := fullName(ev.Callee)
		pos := p.instrPos(ev.In)
		if i, ok := fileWriters[n]; ok {
			path := ev.Args[i]
			excl := false
			if n == "os.OpenFile" && len(ev.Args) > 1 {
				if fl, isC := intConst(ev.Args[1]); isC {
					const wr, excl1, creat = 3, 0x80, 0x40
					excl = fl&wr == 0 && fl&creat == 0 || fl&excl1 != 0 && fl&creat != 0
				}
			}
			key := shortFn(ev.In.Parent()) + ":" + ev.Callee.Name()
			if excl || absent(s, path) {
				r.ok("no overwriting", key)
			} else {
				r.bad("no overwriting", key, pos, "%s is called for %s, which may already exist (%s)", n, path, trailOf(s))
			}
			if s.mon["output"] == "" {
				s.mon["output"] = path.String()
			}
			if c.flagOf(path) != "output" {
				r.bad("destination", key+":path", pos, "%s is called for %s, which is not the file of -output", n, path)
			}
		}
		// what is put out
		stdout := strings.HasPrefix(n, "fmt.Print")
		toStd := func(t *Term) bool {
			return t.any(func(u *Term) bool { return u.Op == "global" && strings.HasSuffix(u.String(), "Stdout") })
		}
		payload := ev.Args
		if strings.HasPrefix(n, "fmt.Fprint") && len(ev.Args) > 0 {
			stdout, payload = toStd(ev.Args[0]), ev.Args[1:]
		}
		toErr := func(t *Term) bool {
			return t.any(func(u *Term) bool { return u.Op == "global" && strings.HasSuffix(u.String(), "Stderr") })
		}
		writes := strings.HasPrefix(n, "fmt.Fprint") && !stdout && !toErr(ev.Args[0])
		if strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "os.File.Write") || recvName(ev.Callee) == "File" && strings.HasPrefix(ev.Callee.Name(), "Write") {
			stdout = toStd(ev.Args[0])
			writes, payload = !stdout, ev.Args[1:]
		}
		if n == "os.WriteFile" {
			writes, payload = true, ev.Args[1:2]
		}
		if recvName(ev.Callee) == "Writer" && strings.HasPrefix(ev.Callee.Name(), "Write") || n == "io.WriteString" || n == "io.Copy" {
			stdout = toStd(ev.Args[0])
			writes, payload = !stdout, ev.Args[1:]
		}
		gen, enc := false, false
		for _, a := range payload {
			a2 := x.snapshot(s, a)
			gen = gen || generated(a2)
			enc = enc || encoded(a2)
		}
		if gen && (stdout || writes) {
			settle(s)
			for k := range s.mon {
				if strings.HasPrefix(k, "fail:") && k != "fail:"+pos && !strings.HasPrefix(fails[k].String(), "defer") && (stdout || strings.Contains(k, "!")) {
					r.bad("failure hides output", k[5:], pos, "the generated value is put out although %s may have failed (%s)", fails[k], trailOf(s))
				}
			}
			if stdout {
				s.mon["printedby"] = "fail:" + pos
				s.mon["printed"] = map[bool]string{true: "encoded", false: "raw"}[enc]
			} else {
				s.mon["written"] = map[bool]string{true: "encoded", false: "raw"}[enc]
			}
			if enc {
				r.ok("output", shortFn(ev.In.Parent())+" "+ev.Callee.Name())
			} else {
				r.bad("output", shortFn(ev.In.Parent())+":"+ev.Callee.Name(), pos, "what is put out is not the encoded value")
			}
		}
		if ev.Defer || len(rets) == 0 {
			return
		}
		last := rets[len(rets)-1]
		if !types.Identical(last.T, errT) || strings.HasPrefix(n, "fmt.") || n == "os.Stat" || n == "os.Lstat" || ev.Callee.Name() == "Stat" {
			return
		}
		if n == "fmt.Errorf" || n == "errors.New" || strings.HasPrefix(n, "errors.") {
			return
		}
		k := "fail:" + pos
		if schemaCall(ev.Callee) || strings.HasPrefix(n, "encoding/json.") {
			k = "fail:!" + pos
		}
		fails[k] = ev.In.(ssa.Instruction)
		errs[last] = k
		if !x.knownNil(s, last) {
			s.mon[k] = "1"
		}
		r.ok("call that may fail", n+" "+pos)
	}
	outs := x.Root(c.main, nil)
	r.exec(x, shortFn(c.main))
	for _, o := range outs {
		pos := p.instrPos(o.at)
		s := o.st
		failing := o.kind == "panic"
		if o.kind == "exit" {
			code, isC := int64(1), true
			if call, ok := o.at.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && call.Common().StaticCallee().Name() == "Exit" {
				code, isC = intConst(o.rets[0])
			}
			if !isC {
				r.bad("exit status", pos, pos, "the exit status is not fixed: %s", o.rets[0])
				continue
			}
			failing = code != 0
		}
		settle(s)
		if failing {
			if s.mon["printed"] != "" && s.mon[s.mon["printedby"]] == "" {
				r.bad("failure hides output", "exit:"+pos, pos, "the tool exits with a failure after the generated value was printed (%s)", trailOf(s))
			} else {
				r.ok("failing exit", pos+" "+o.kind)
			}
			continue
		}
		bad := false
		for k := range s.mon {
			if strings.HasPrefix(k, "fail:") {
				bad = true
				r.bad("success", strings.TrimPrefix(fails[k].String(), " "), p.instrPos(fails[k]), "the tool ends successfully although %s may have failed (%s)", fails[k], trailOf(s))
			}
		}
		if bad {
			continue
		}
		r.ok("successful exit", pos+" "+o.kind)
		if info := c.asked(s, "help") || c.asked(s, "version"); info {
			continue
		}
		t := c.flagTerm(s, "output")
		if t == nil {
			r.bad("destination", "output:ignored", pos, "the tool ends without looking at -output (%s)", trailOf(s))
			continue
		}
		none, known := x.decide(s, x.bin("==", t, x.T.Str(""), types.Typ[types.Bool]))
		switch {
		case !known:
			r.bad("destination", "output:unknown", pos, "the tool ends without looking at -output (%s)", trailOf(s))
		case none && s.mon["printed"] == "":
			r.bad("destination", "printed", pos, "the tool ends successfully without printing the value (%s)", trailOf(s))
		case !none && s.mon["written"] == "":
			r.bad("destination", "written", pos, "the tool ends successfully without writing the value to the file asked for (%s)", trailOf(s))
		default:
			r.ok("destination", pos+" "+map[bool]string{true: "printed", false: "written"}[none])
		}
	}
	r.need("call that may fail", 6)
	r.need("no overwriting", 1)
	r.need("failing exit", 1)
	r.need("successful exit", 1)
	r.need("destination", 2)
}

func (c *cli) asked(s *State, flag string) bool {
	v, known := c.boolFlag(s, flag)
	return known && v
}
