package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ioKind classifies external functions that read, write or talk to the network.
func ioKind(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	pk := fnPkgPath(originOf(f))
	n := f.Name()
	rn := ""
	if f.Signature.Recv() != nil {
		rn = typeName(f.Signature.Recv().Type())
	}
	switch pk {
	case "net/http":
		switch rn {
		case "":
			switch n {
			case "Get", "Head", "Post", "PostForm", "ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS":
				return "net"
			}
			return ""
		case "Client":
			if n == "CloseIdleConnections" {
				return ""
			}
			return "net"
		case "Transport":
			if n == "RoundTrip" {
				return "net"
			}
			return ""
		case "Dir":
			return "file"
		}
		return ""
	case "net":
		if strings.HasPrefix(n, "Dial") || strings.HasPrefix(n, "Listen") || strings.HasPrefix(n, "Lookup") {
			return "net"
		}
		return ""
	case "net/rpc", "net/smtp", "net/textproto", "crypto/tls":
		return "net"
	case "os/exec", "plugin":
		return "exec"
	case "syscall":
		return "file"
	case "os":
		if rn == "" {
			switch n {
			case "ReadFile", "Open", "OpenFile", "Create", "WriteFile", "ReadDir", "DirFS", "CreateTemp", "MkdirTemp", "OpenRoot", "OpenInRoot", "CopyFS", "Remove", "RemoveAll", "Rename", "Mkdir", "MkdirAll", "Truncate", "Link", "Symlink", "StartProcess", "Chmod", "Chown":
				return "file"
			}
		}
		return ""
	case "io/ioutil":
		switch n {
		case "ReadFile", "ReadDir", "WriteFile", "TempFile", "TempDir":
			return "file"
		}
		return ""
	case "path/filepath":
		switch n {
		case "Walk", "WalkDir", "Glob":
			return "file"
		}
	case "io/fs":
		if n == "ReadFile" || n == "ReadDir" || n == "WalkDir" || n == "Glob" {
			return "file"
		}
	case "embed":
		return ""
	}
	return ""
}

// reachesIO: an external function that reaches I/O through static calls.
func (p *Prog) reachesIO(f *ssa.Function) string {
	if p.ioMemo == nil {
		p.ioMemo = map[*ssa.Function]string{}
	}
	if v, ok := p.ioMemo[f]; ok {
		return v
	}
	p.ioMemo[f] = ""
	if k := ioKind(f); k != "" {
		p.ioMemo[f] = k
		return k
	}
	res := ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					if k := p.reachesIO(g); k != "" {
						res = k
					}
				}
			}
		}
	}
	p.ioMemo[f] = res
	return res
}

type fetcher struct {
	typ     string
	resolve *ssa.Function
	fetch   *ssa.Function
	kind    string
}

func (p *Prog) fetcherIface() *types.Interface {
	return p.ifaceWith("fetchDocument", "resolveDocumentId")
}

func (p *Prog) fetchers() []fetcher {
	it := p.fetcherIface()
	if it == nil {
		return nil
	}
	var out []fetcher
	res := map[string]*ssa.Function{}
	for _, f := range p.implementations(it, "resolveDocumentId") {
		res[recvName(f)] = f
	}
	for _, f := range p.implementations(it, "fetchDocument") {
		k := ""
		for g := range p.reach([]*ssa.Function{f}, nil) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if s := c.Common().StaticCallee(); s != nil {
							if q := ioKind(s); q != "" {
								k = q
							}
						}
					}
				}
			}
		}
		out = append(out, fetcher{typ: recvName(f), resolve: res[recvName(f)], fetch: f, kind: k})
	}
	return out
}

func init() {
	register("C01", "Every call that opens files, runs programs or talks to the network is found in the resolved call graph; apart from methods of the document fetchers it may only be reached through the parse-file entry points, where it must be given the path that was handed in. A fetcher is only put into the table of fetchers on paths where its own Enabled option is known to be true, under its own schemes. Every compiler of the embedded validator is given a loader that does no I/O before it adds or compiles anything. No generator method reaches any of these calls.",
		"what third-party libraries do behind interfaces; reading of file metadata (lstat for symlinks) is not counted as reading a file.", runC01)
	register("C02", "Every success path of the network fetcher's identifier resolution returns the text of the very URL whose scheme and host were tested (value-numbered path-sensitive dataflow); the request is made for exactly the identifier handed in, by a client with a redirect policy that tests every redirect target the same way and bounds the chain; the body is only used and a document only returned where the status is known to be 200; the allow-list keeps an entry for every configured host.",
		"what net/http itself does; DNS and proxies.", runC02)
	register("C03", "Every success path of the file fetcher's identifier resolution returns a path that came out of Abs and EvalSymlinks without error and for which, on that path, membership in one allowed path and (unless outside access is allowed) in the working directory was established by a test on that very path; the file read is that path; allowed paths go through the same resolution.",
		"changes of the file system between check and use; filepath's own correctness.", runC03)
}

// ---- C02

func isURLField(t *Term, name string) (*Term, bool) {
	o, n, b, ok := fieldRead(t)
	if ok && o == "URL" && n == name {
		return b, true
	}
	return nil, false
}

// urlPolicy tells whether the facts of a path establish the policy for URL u.
// hostsField and insecureField name the fetcher's fields.
func (x *Exec) urlPolicy(st *State, u *Term) (schemeOK, hostOK bool) {
	for f, v := range st.facts {
		if l, r, ok := eqOperands(f); ok && v {
			for _, pr := range [][2]*Term{{l, r}, {r, l}} {
				if b, isS := isURLField(pr[0], "Scheme"); isS && b == u && isStr(pr[1], "https") {
					schemeOK = true
				}
			}
		}
		if o, _, _, ok := fieldRead(f); ok && v && x.netBool[o+"."+fieldReadName(f)] {
			schemeOK = true
		}
		// len(hosts) == 0
		for _, ln := range f.A {
			if f.Op != "bin" || ln.Op != "len" {
				continue
			}
			if o, n, _, ok := fieldRead(ln.A[0]); ok && x.netHosts[o+"."+n] {
				if _, hi := x.interval(st, ln); hi != nil && constant.Sign(hi) <= 0 {
					hostOK = true
				}
			}
		}
		if f.Op == "bin" && f.Aux == "==" && f.A[1].isNil() && v {
			if o, n, _, ok := fieldRead(f.A[0]); ok && x.netHosts[o+"."+n] {
				hostOK = true
			}
		}
		if c, e, ok := membership(f); ok && v {
			if o, n, _, ok := fieldRead(c); ok && x.netHosts[o+"."+n] {
				if b, isH := isURLField(e, "Host"); isH && b == u {
					hostOK = true
				}
			}
		}
	}
	if st.mon["scheme:"+fmt.Sprint(u.id)] != "" {
		schemeOK = true
	}
	if st.mon["host:"+fmt.Sprint(u.id)] != "" {
		hostOK = true
	}
	return
}

func fieldReadName(t *Term) string {
	_, n, _, _ := fieldRead(t)
	return n
}

// urlMonitor remembers that a policy test succeeded even after the loop it happened in was left.
func (x *Exec) urlMonitor() func(st *State, a *Term, v bool, at ssa.Instruction) {
	return func(st *State, a *Term, v bool, at ssa.Instruction) {
		if !v {
			return
		}
		if c, e, ok := membership(a); ok {
			if o, n, _, ok := fieldRead(c); ok && x.netHosts[o+"."+n] {
				if b, isH := isURLField(e, "Host"); isH {
					st.mon["host:"+fmt.Sprint(b.id)] = "1"
				}
			}
		}
	}
}

func (p *Prog) newNetExec(cfg Config) *Exec {
	x := newExec(p, cfg)
	x.netBool, x.netHosts = map[string]bool{}, map[string]bool{}
	for _, f := range p.fetchers() {
		if f.kind != "net" {
			continue
		}
		st := structOf(recvType(f.fetch))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			fd := st.Field(i)
			switch u := fd.Type().Underlying().(type) {
			case *types.Basic:
				if u.Kind() == types.Bool {
					x.netBool[f.typ+"."+fd.Name()] = true
				}
			case *types.Slice, *types.Map:
				x.netHosts[f.typ+"."+fd.Name()] = true
			}
		}
	}
	return x
}

// canSucceed: the error result may be nil on this path.
func (x *Exec) canSucceed(o Outcome) bool {
	if o.kind != "return" || len(o.rets) == 0 {
		return false
	}
	e := o.rets[len(o.rets)-1]
	if x.knownNonNil(o.st, e) {
		return false
	}
	if e.Op == "load" && e.A[0].Op == "global" {
		// package level error values are never nil
		g := e.A[0].Aux.(*ssa.Global)
		if strings.HasPrefix(g.Name(), "Err") || strings.HasPrefix(g.Name(), "err") || g.Name() == "EOF" {
			return false
		}
	}
	return true
}

func runC02(r *R) {
	p := r.p
	fs := p.fetchers()
	n := 0
	for _, f := range fs {
		if f.kind != "net" {
			continue
		}
		n++
		r.c02resolve(f)
		r.c02fetch(f)
	}
	if n == 0 {
		r.missing("a document fetcher that uses the network")
	}
	r.c02ctor()
	r.need("approved URL", 2)
	r.need("request", 1)
	r.need("redirect policy", 1)
	r.need("status check", 1)
}

func (r *R) c02resolve(f fetcher) {
	x := r.p.newNetExec(Config{})
	x.cfg.OnFact = x.urlMonitor()
	outs := x.Root(f.resolve, nil)
	r.exec(x, shortFn(f.resolve))
	for _, o := range outs {
		if !x.canSucceed(o) {
			continue
		}
		v := o.rets[0]
		pos := r.p.instrPos(o.at)
		u := v
		if callTo(v, "net/url.URL.String") {
			u = v.A[0]
		} else {
			r.bad("approved URL", shortFn(f.resolve)+":result", pos, "a success path returns %s, which is not the text of a URL that was tested (%s)", v, trailOf(o.st))
			continue
		}
		s, h := x.urlPolicy(o.st, u)
		if !s {
			r.bad("approved URL", shortFn(f.resolve)+":scheme", pos, "a success path returns %s without having established that its scheme is https or that insecure connections are allowed (%s)", v, trailOf(o.st))
		}
		if !h {
			r.bad("approved URL", shortFn(f.resolve)+":host", pos, "a success path returns %s without having established that its host is on the allow-list or that the list is empty (%s)", v, trailOf(o.st))
		}
		if s && h {
			r.ok("approved URL", fmt.Sprintf("%s path to %s: %s", shortFn(f.resolve), pos, trailOf(o.st)))
		}
	}
}

func (r *R) c02fetch(f fetcher) {
	p := r.p
	x := p.newNetExec(Config{})
	var url *Term
	var redirects []*Term
	x.cfg.OnCall = func(ev *CallEvent) bool {
		if ev.Callee == nil {
			return false
		}
		name := fullName(ev.Callee)
		if ioKind(ev.Callee) == "net" {
			pos := p.instrPos(ev.In)
			key := shortFn(ev.Fr.fn) + ":" + name
			if recvName(ev.Callee) != "Client" || ev.Callee.Name() == "Do" && len(ev.Args) < 2 {
				r.bad("request", key, pos, "%s is used, which follows redirects without the fetch policy", name)
				return false
			}
			cl := ev.Args[0]
			tgt := strip(ev.Args[1])
			if callTo(tgt, "net/http.NewRequest") {
				tgt = strip(tgt.A[1])
			} else if callTo(tgt, "net/http.NewRequestWithContext") {
				tgt = strip(tgt.A[2])
			}
			if tgt != url {
				r.bad("request", key, pos, "the request is made for %s, not for the identifier that was approved", tgt)
				return false
			}
			cf := x.clientField(ev.St, cl, "CheckRedirect")
			if cf == nil || cf.Op != "closure" && cf.Op != "func" {
				r.bad("redirect policy", key, pos, "the client used for the request has no redirect policy (CheckRedirect) that could be resolved: %v", cf)
			} else {
				redirects = append(redirects, cf)
			}
			r.ok("request", key+" "+pos)
		}
		// uses of a response body
		for _, a := range ev.Args {
			if resp := respOfBody(a); resp != nil && ev.Callee.Name() != "Close" {
				if !x.status200(ev.St, resp) {
					r.bad("status check", shortFn(ev.Fr.fn)+":"+name, p.instrPos(ev.In), "the response body is used by %s on a path where the status is not known to be 200 (%s)", name, trailOf(ev.St))
				} else {
					r.ok("status check", shortFn(ev.Fr.fn)+":"+name)
				}
			}
		}
		return false
	}
	outs := x.Root(f.fetch, func(st *State, params []*Term) { url = params[len(params)-1] })
	r.exec(x, shortFn(f.fetch))
	for _, o := range outs {
		if !x.canSucceed(o) {
			continue
		}
		// some response must be known to have status 200
		good := false
		for fct := range o.st.facts {
			fct.any(func(t *Term) bool {
				if on, n, _, ok := fieldRead(t); ok && on == "Response" && n == "StatusCode" {
					if lo, hi := x.interval(o.st, t); lo != nil && hi != nil && constant.Compare(lo, tokEQL, constant.MakeInt64(200)) && constant.Compare(hi, tokEQL, constant.MakeInt64(200)) {
						good = true
					}
				}
				return false
			})
		}
		if !good {
			r.bad("status check", shortFn(f.fetch)+":return", p.instrPos(o.at), "a document is returned on a path where the status is not known to be 200 (%s)", trailOf(o.st))
		} else {
			r.ok("status check", shortFn(f.fetch)+":return")
		}
	}
	seen := map[*ssa.Function]bool{}
	for _, cf := range redirects {
		fn := cf.Aux.(*ssa.Function)
		if seen[fn] {
			continue
		}
		seen[fn] = true
		r.c02redirect(fn)
	}
}

func respOfBody(a *Term) *Term {
	var resp *Term
	a = strip(a)
	if o, n, b, ok := fieldRead(a); ok && o == "Response" && n == "Body" {
		resp = b
	}
	if resp == nil && a != nil && (a.Op == "call" || a.Op == "pcall") && !callTo(a, "io.ReadAll") {
		for _, s := range a.A {
			if b := respOfBody(s); b != nil {
				resp = b
			}
		}
	}
	return resp
}

func (x *Exec) status200(st *State, resp *Term) bool {
	for f := range st.facts {
		found := false
		f.any(func(t *Term) bool {
			if on, n, b, ok := fieldRead(t); ok && on == "Response" && n == "StatusCode" && b == resp {
				if lo, hi := x.interval(st, t); lo != nil && hi != nil && constant.Compare(lo, tokEQL, constant.MakeInt64(200)) && constant.Compare(hi, tokEQL, constant.MakeInt64(200)) {
					found = true
				}
			}
			return false
		})
		if found {
			return true
		}
	}
	return false
}

func (x *Exec) clientField(st *State, cl *Term, name string) *Term {
	t := elemType(cl)
	if t == nil {
		return nil
	}
	sst, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	i := fieldIndex(sst, name)
	if i < 0 {
		return nil
	}
	return x.load(st, x.faddr(cl, sst, i))
}

func (r *R) c02redirect(fn *ssa.Function) {
	p := r.p
	x := p.newNetExec(Config{})
	x.cfg.OnFact = x.urlMonitor()
	outs := x.Root(fn, nil)
	r.exec(x, shortFn(fn))
	nsig := fn.Signature.Params().Len()
	req := x.T.mk("param", fn.Params[len(fn.Params)-nsig], len(fn.Params)-nsig, fn.Params[len(fn.Params)-nsig].Type(), nil, nil)
	via := x.T.mk("param", fn.Params[len(fn.Params)-1], len(fn.Params)-1, fn.Params[len(fn.Params)-1].Type(), nil, nil)
	rs := structOf(req.T)
	u := x.T.mk("load", nil, 0, rs.Field(fieldIndex(rs, "URL")).Type(), nil, nil, x.faddr(req, rs, fieldIndex(rs, "URL")), nil)
	name := strings.TrimSuffix(shortFn(fn), "$bound")
	for _, o := range outs {
		if !x.canSucceed(o) {
			continue
		}
		pos := p.instrPos(o.at)
		s, h := x.urlPolicy(o.st, u)
		if !s {
			r.bad("redirect policy", name+":scheme", pos, "a redirect is followed without having established that its scheme is https or that insecure connections are allowed (%s)", trailOf(o.st))
		}
		if !h {
			r.bad("redirect policy", name+":host", pos, "a redirect is followed without having established that its host is on the allow-list or that the list is empty (%s)", trailOf(o.st))
		}
		_, hi := x.interval(o.st, x.T.mk("len", nil, 0, types.Typ[types.Int], nil, nil, via))
		if hi == nil {
			r.bad("redirect policy", name+":bound", pos, "a redirect is followed without a bound on the number of redirects (%s)", trailOf(o.st))
		}
		if s && h && hi != nil {
			r.ok("redirect policy", name+" "+trailOf(o.st))
		}
	}
}

// c02ctor: the fetcher's allow-list has at least one entry per configured host, derived from that
// host, and its insecure switch is the option.
func (r *R) c02ctor() {
	p := r.p
	for _, fn := range p.Funcs {
		sites := allocsOf(fn, func(t types.Type) bool {
			for _, f := range p.fetchers() {
				if f.kind == "net" && typeName(t) == f.typ {
					return true
				}
			}
			return false
		})
		if len(sites) == 0 {
			continue
		}
		x := p.newNetExec(Config{})
		lp := newLoopAcc(x)
		x.cfg.OnBack = lp.onBack
		outs := x.Root(fn, nil)
		r.exec(x, shortFn(fn))
		for _, o := range outs {
			if o.kind != "return" {
				continue
			}
			for k := range o.st.heap {
				if k.Op != "alloc" {
					continue
				}
				el := elemType(k)
				if el == nil || !isNetFetcher(p, typeName(el)) {
					continue
				}
				sst := el.Underlying().(*types.Struct)
				for i := 0; i < sst.NumFields(); i++ {
					v := x.load(o.st, x.faddr(k, sst, i))
					key := typeName(el) + "." + sst.Field(i).Name()
					if x.netBool[key] {
						if isField(v, "HTTPFetchOptions", "AllowInsecure") {
							r.ok("policy field", key)
						} else if c, isC := strip(v), v.isConst(); isC && constant.BoolVal(c.cv()) == false {
							r.ok("policy field", key)
						} else {
							r.bad("policy field", key, p.instrPos(o.at), "%s is set to %s, not to the option AllowInsecure", key, v)
						}
					}
					if x.netHosts[key] {
						ok, why := lp.coversAll(v, func(t *Term) bool { return isField(t, "HTTPFetchOptions", "AllowedHosts") }, func(e, el *Term) bool {
							return e == el || isHostOf(e, el)
						})
						if ok {
							r.ok("policy field", key)
						} else {
							r.bad("policy field", key, p.instrPos(o.at), "%s does not keep an entry for every configured host: %s", key, why)
						}
					}
				}
			}
		}
	}
	r.need("policy field", 2)
}

func isHostOf(e, el *Term) bool {
	b, ok := isURLField(e, "Host")
	return ok && callTo(b, "net/url.Parse") && strip(b.A[0]) == el
}

func isNetFetcher(p *Prog, n string) bool {
	for _, f := range p.fetchers() {
		if f.kind == "net" && f.typ == n {
			return true
		}
	}
	return false
}

func allocsOf(fn *ssa.Function, pred func(types.Type) bool) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && pred(deref(a.Type())) {
				if n, isN := types.Unalias(deref(a.Type())).(*types.Named); isN && n != nil {
					out = append(out, in)
				}
			}
		}
	}
	return out
}
