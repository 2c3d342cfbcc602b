package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/ryanolee/go-chaff"

// Prog is the resolved program: every package of /repo and of its dependencies,
// type checked from source and lowered to SSA.
type Prog struct {
	SSA     *ssa.Program
	Pkgs    []*packages.Package
	Repo    map[string]*ssa.Package // by path relative to the module ("" = root)
	Funcs   []*ssa.Function         // every function of the repository with a body, incl. closures and instances
	AllFns  map[*ssa.Function]bool
	dir     string
	impls   map[string][]*ssa.Function
	mods    map[*ssa.Function]map[string]bool
	sigs    map[string][]*ssa.Function
	graph   map[*ssa.Function][]*ssa.Function
	bodies  []*ssa.Function
	rec     map[*ssa.Function]bool
	cyc     map[*ssa.Function]map[*ssa.Function]*ssa.Function
	ioMemo  map[*ssa.Function]string
	callers map[*ssa.Function][]ssa.CallInstruction
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadEnv() []string {
	return []string{"HOME=/root",
		"PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build", "CGO_ENABLED=0", "GO111MODULE=on"}
}

func loadProg() (*Prog, error) {
	dir := repoDir()
	os.Setenv("PATH", "/opt/veriftools/go1.25.14/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax,
		Dir:   dir,
		Env:   loadEnv(),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 5 {
			errs = errs[:5]
		}
		return nil, fmt.Errorf("the repository does not type check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{SSA: prog, Pkgs: pkgs, Repo: map[string]*ssa.Package{}, dir: dir}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if path == repoModule || strings.HasPrefix(path, repoModule+"/") {
			rel := strings.TrimPrefix(strings.TrimPrefix(path, repoModule), "/")
			p.Repo[rel] = sp
		}
	}
	if p.Repo[""] == nil {
		return nil, fmt.Errorf("package %s not found", repoModule)
	}
	p.AllFns = ssautil.AllFunctions(prog)
	for fn := range p.AllFns {
		if len(fn.Blocks) > 0 && p.inRepo(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o != f && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if f.Signature.Recv() != nil {
			if n, ok := deref(f.Signature.Recv().Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
		}
	}
	return ""
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	return path == repoModule || strings.HasPrefix(path, repoModule+"/")
}

// isLib: package of the library proper (not cli, not test helpers)
func (p *Prog) isLib(fn *ssa.Function) bool {
	path := fnPkgPath(fn)
	return p.inRepo(fn) && !strings.HasSuffix(path, "/cli") && !strings.Contains(path, "test_utils") && !strings.Contains(path, "/test_data")
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (p *Prog) pos(v interface{ Pos() (pp tokenPos) }) string { return p.posAt(v.Pos()) }

func (p *Prog) posAt(ps tokenPos) string {
	if !ps.IsValid() {
		return "?"
	}
	pp := p.SSA.Fset.Position(ps)
	rel, err := filepath.Rel(p.dir, pp.Filename)
	if err != nil {
		rel = pp.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pp.Line)
}

// instrPos finds a usable position for an instruction.
func (p *Prog) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.posAt(in.Pos())
	}
	b := in.Block()
	idx := -1
	for i, x := range b.Instrs {
		if x == in {
			idx = i
		}
	}
	for i := idx; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return p.posAt(b.Instrs[i].Pos())
		}
	}
	for i := idx + 1; i < len(b.Instrs); i++ {
		if b.Instrs[i].Pos().IsValid() {
			return p.posAt(b.Instrs[i].Pos())
		}
	}
	return p.posAt(in.Parent().Pos())
}

// namedType looks a package level type up by name.
func (p *Prog) namedType(rel, name string) *types.Named {
	sp := p.Repo[rel]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) fn(rel, name string) *ssa.Function {
	sp := p.Repo[rel]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// method resolves a method declared on T or *T.
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	n := p.namedType(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

// implementations returns the methods named name declared on repository types whose type (or pointer to it) implements iface.
func (p *Prog) implementations(iface *types.Interface, name string) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var rels []string
	for r := range p.Repo {
		rels = append(rels, r)
	}
	sort.Strings(rels)
	for _, r := range rels {
		sp := p.Repo[r]
		names := sp.Pkg.Scope().Names()
		for _, nm := range names {
			tn, ok := sp.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || n.TypeParams().Len() > 0 {
				continue
			}
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if !types.Implements(t, iface) {
					continue
				}
				obj, _, _ := types.LookupFieldOrMethod(t, true, sp.Pkg, name)
				if m, ok := obj.(*types.Func); ok {
					if f := p.SSA.FuncValue(m); f != nil && !seen[f] && len(f.Blocks) > 0 {
						seen[f] = true
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func structOf(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func isRepoType(t types.Type, name string) bool {
	n, ok := deref(types.Unalias(t)).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Name() == name && (n.Obj().Pkg().Path() == repoModule || strings.HasPrefix(n.Obj().Pkg().Path(), repoModule+"/"))
}

// fullName of a callee: pkgpath.Func or pkgpath.Type.Method
func fullName(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil {
		if n, ok := deref(types.Unalias(f.Signature.Recv().Type())).(*types.Named); ok {
			pk := ""
			if n.Obj().Pkg() != nil {
				pk = n.Obj().Pkg().Path()
			}
			return pk + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	pk := fnPkgPath(f)
	return pk + "." + f.Name()
}
