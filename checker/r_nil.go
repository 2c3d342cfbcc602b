package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22, C23: nothing absent is used.

const nilRule = "Every function of the library is interpreted path by path on its own; parameters, fields, results, list elements, captured and loop variables are classes joined by the values that flow into them, and a class may be nil when nil, an absent JSON keyword, a failed map look-up, a failed type assertion or the result of a failed call flows into it. Functions on a chain that ends in a use are interpreted again with the small functions they call. Every dereference, field access, method or function call and map write through a pointer, interface, function or map in a function reachable from "

func init() {
	register("C22", nilRule+"the exported parse functions must have an operand that the path tested or whose classes are never nil.",
		"indexes, slices, type assertions without ok and other panics; the command line tool; an object's fields that one of its own methods fills in later.", func(r *R) { nilRun(r, true) })
	register("C23", nilRule+"a Generate method must have an operand that the path tested or whose classes are never nil.",
		"indexes, slices, random bounds and other panics; the values of Generators a caller writes; an object's fields that one of its own methods fills in later.", func(r *R) { nilRun(r, false) })
}

func nilRun(r *R, parsing bool) {
	p := r.p
	var roots []*ssa.Function
	if parsing {
		for _, f := range p.Funcs {
			if f.Pkg == p.Repo[""] && f.Signature.Recv() == nil && token.IsExported(f.Name()) && f.Parent() == nil {
				roots = append(roots, f)
				r.ok("root", shortFn(f))
			}
		}
		r.need("root", 4)
	} else {
		for _, f := range p.generateImpls() {
			roots = append(roots, f)
			r.ok("root", shortFn(f))
		}
		for _, f := range p.Funcs {
			if f.Pkg == p.Repo[""] && f.Signature.Recv() != nil && f.Parent() == nil && strings.HasPrefix(f.Name(), "Generate") {
				roots = append(roots, f)
				r.ok("root", shortFn(f))
			}
		}
		r.need("root", 12)
	}
	reach := p.reach(roots, nil)
	n := newNilness(p)
	want := func(u *use) bool { _, ok := reach[u.fn]; return ok }
	out, bad := n.solve(want)
	r.instrs += n.instrs
	r.states += n.steps
	for _, f := range n.fns {
		if _, ok := reach[f]; ok {
			r.fn(f)
			if why := n.failed[f]; why != "" {
				r.bad("undecided", shortFn(f), "-", "the analysis of %s could not be completed: %s", shortFn(f), why)
			} else {
				r.ok("function", shortFn(f))
			}
		}
	}
	isBad := map[ssa.Instruction]bool{}
	for _, o := range out {
		isBad[o.u.in] = true
		key := shortFn(o.u.fn) + ":" + o.u.what + ":" + o.class
		r.bad("use", key, p.instrPos(o.u.in), "in %s, %s %s, but it may be nil: %s", shortFn(o.u.fn), strings.ReplaceAll(o.term, repoModule+"/", ""), o.u.what, strings.ReplaceAll(chainNil(bad, o.class), repoModule, ""))
	}
	for _, us := range n.uses {
		for _, u := range us {
			if want(u) && !isBad[u.in] {
				r.ok("use", shortFn(u.fn)+":"+u.what+" "+p.instrPos(u.in))
			}
		}
	}
	for to, m := range n.flows {
		for from := range m {
			r.ok("flow", to+" <- "+from)
		}
	}
	r.need("function", 20)
	r.need("use", 100)
	r.need("flow", 100)
}
