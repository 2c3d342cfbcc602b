package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/types"
	"maps"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Viol is one construct that breaks the rule. Key names it without line numbers.
type Viol struct {
	Key string
	Pos string
	Msg string
}

// R collects what one run of a rule analysed.
type R struct {
	p       *Prog
	id      string
	tier    string
	viols   []Viol
	seenV   map[string]bool
	oks     map[string]map[string]bool
	bads    map[string]map[string]bool
	fns     map[string]bool
	instrs  int
	states  int
	notes   []string
	samples []string
}

func newR(p *Prog, id, tier string) *R {
	return &R{p: p, id: id, tier: tier, seenV: map[string]bool{}, oks: map[string]map[string]bool{}, bads: map[string]map[string]bool{}, fns: map[string]bool{}}
}

func (r *R) ok(kind, item string) {
	if r.oks[kind] == nil {
		r.oks[kind] = map[string]bool{}
	}
	r.oks[kind][item] = true
	if len(r.samples) < 12 && len(r.oks[kind]) <= 2 {
		r.samples = append(r.samples, kind+": "+item)
	}
}

func (r *R) bad(kind, key, pos, format string, a ...interface{}) {
	if r.bads[kind] == nil {
		r.bads[kind] = map[string]bool{}
	}
	r.bads[kind][key] = true
	k := kind + "|" + key
	if r.seenV[k] {
		return
	}
	r.seenV[k] = true
	r.viols = append(r.viols, Viol{Key: k, Pos: pos, Msg: fmt.Sprintf(format, a...)})
}

// need fails the run when fewer instances than confirmed by hand were found.
func (r *R) need(kind string, n int) {
	have := len(r.oks[kind]) + len(r.bads[kind])
	if have < n {
		r.bad("coverage", kind, "-", "only %d instance(s) of %q were found in the code, at least %d are expected: the construct the property depends on is gone", have, kind, n)
	}
}

// missing reports that an anchor of the rule does not exist any more.
func (r *R) missing(what string) {
	r.bad("anchor", what, "-", "%s was not found in the code", what)
}

// exec accounts for one engine run.
func (r *R) exec(x *Exec, what string) {
	for f := range x.visited {
		r.fns[fullName(f)] = true
	}
	r.instrs += x.nInstr
	r.states += x.steps
	if x.fail != "" {
		r.bad("undecided", what, "-", "the analysis of %s could not be completed: %s", what, x.fail)
	}
}

// each runs n independent parts of a rule side by side. Every part gets its own view of the program and
// its own result, which are put together in order.
func (r *R) each(n int, part func(r *R, i int)) {
	p := r.p
	p.warm()
	rs := make([]*R, n)
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i := range rs {
		q := newR(p.fork(), r.id, r.tier)
		rs[i] = q
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			part(q, i)
			<-sem
		}()
	}
	wg.Wait()
	for _, q := range rs {
		for _, v := range q.viols {
			if !r.seenV[v.Key] {
				r.seenV[v.Key] = true
				r.viols = append(r.viols, v)
			}
		}
		join := func(to, from map[string]map[string]bool) {
			for k, m := range from {
				if to[k] == nil {
					to[k] = map[string]bool{}
				}
				for i := range m {
					to[k][i] = true
				}
			}
		}
		join(r.oks, q.oks)
		join(r.bads, q.bads)
		for f := range q.fns {
			r.fns[f] = true
		}
		r.instrs += q.instrs
		r.states += q.states
		r.notes = append(r.notes, q.notes...)
		for _, s := range q.samples {
			if len(r.samples) < 12 {
				r.samples = append(r.samples, s)
			}
		}
	}
}

// warm computes what is shared by all parts.
func (p *Prog) warm() {
	p.allBodies()
	p.callGraph()
	for _, f := range p.Funcs {
		p.recursive(f)
		p.modsOf(f)
		p.callersOf(f)
		break
	}
	p.funcsBySig(types.NewSignatureType(nil, nil, nil, nil, nil, false))
}

// fork: a view of the program whose tables may grow independently.
func (p *Prog) fork() *Prog {
	q := *p
	q.impls = maps.Clone(p.impls)
	q.ioMemo = maps.Clone(p.ioMemo)
	q.cyc = maps.Clone(p.cyc)
	return &q
}

func (r *R) fn(f *ssa.Function) { r.fns[fullName(f)] = true }

type ruleDef struct {
	run   func(r *R)
	rule  string // the rule applied, in words
	limit string // what is not covered
}

var rules = map[string]ruleDef{}

func register(id, rule, limit string, run func(r *R)) {
	rules[id] = ruleDef{run, rule, limit}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "."
}

func loadKnown(id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<key> :: what fails
		if !strings.HasPrefix(l, "known: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" key=")
		k, what, _ := strings.Cut(rest, " :: ")
		out[k] = what
	}
	return out
}

func runRule(p *Prog, id, tier string) *R {
	r := newR(p, id, tier)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.bad("undecided", "crash", "-", "the analysis stopped: %v\n%s", e, debug.Stack())
			}
		}()
		rules[id].run(r)
	}()
	return r
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker <property>|all [quick|thorough]")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	t0 := time.Now()
	var ids []string
	if os.Args[1] == "all" {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else if os.Args[1] == "list" {
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	} else {
		ids = strings.Split(os.Args[1], ",")
	}
	for _, id := range ids {
		if _, ok := rules[id]; !ok {
			fmt.Fprintf(os.Stderr, "no rule for %s\n", id)
			os.Exit(2)
		}
	}
	p, err := loadProg()
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		os.Exit(2)
	}
	load := time.Since(t0)
	code := 0
	for _, id := range ids {
		t1 := time.Now()
		r := runRule(p, id, tier)
		if finish(r, load+time.Since(t1)) {
			code = 1
		}
	}
	os.Exit(code)
}

func finish(r *R, wall time.Duration) (violated bool) {
	id := r.id
	known := loadKnown(id)
	var open []Viol
	var kn []string
	for _, v := range r.viols {
		if what, ok := known[v.Key]; ok {
			kn = append(kn, v.Key)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, what, v.Pos)
			continue
		}
		open = append(open, v)
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	cov := map[string]interface{}{}
	obligations, discharged := 0, 0
	var kinds []string
	ksum := map[string]interface{}{}
	all := map[string]bool{}
	for k := range r.oks {
		all[k] = true
	}
	for k := range r.bads {
		all[k] = true
	}
	for k := range all {
		kinds = append(kinds, k)
	}
	sort.Strings(kinds)
	for _, k := range kinds {
		n := len(r.oks[k])
		b := 0
		for i := range r.bads[k] {
			if r.oks[k][i] {
				n--
			}
			b++
		}
		obligations += n + b
		discharged += n
		var items []string
		for i := range r.oks[k] {
			items = append(items, i)
		}
		sort.Strings(items)
		if len(items) > 60 {
			items = items[:60]
		}
		ksum[k] = map[string]interface{}{"instances": n + b, "discharged": n, "list": items}
	}
	var fl []string
	for f := range r.fns {
		fl = append(fl, strings.TrimPrefix(strings.ReplaceAll(f, repoModule, ""), "."))
	}
	sort.Strings(fl)
	def := rules[id]
	cov["explanation"] = "Static analysis of the type-checked SSA form of /repo's current source; nothing is executed. Rule: " + def.rule + " Not covered: " + def.limit
	cov["rule"] = def.rule
	cov["obligations"] = obligations
	cov["discharged"] = discharged
	cov["obligation_kinds"] = ksum
	cov["functions_analysed"] = len(fl)
	cov["functions"] = fl
	cov["instructions_interpreted"] = r.instrs
	cov["states"] = r.states
	cov["repo_functions_loaded"] = len(r.p.Funcs)
	cov["samples"] = r.samples
	cov["known_findings"] = kn
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": id, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": wall.Seconds()}
	if len(open) > 0 {
		var vs []map[string]string
		for _, v := range open {
			vs = append(vs, map[string]string{"key": v.Key, "at": v.Pos, "what": v.Msg})
		}
		ev["violations"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
	if len(open) == 0 {
		os.Remove(filepath.Join(dir, id+".report.txt"))
		fmt.Printf("OK property=%s obligations=%d functions=%d (%.1fs)\n", id, obligations, len(fl), wall.Seconds())
		return false
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", id, def.rule)
	for _, v := range open {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n\n", v.Key, v.Pos, v.Msg)
	}
	rp := filepath.Join(dir, id+".report.txt")
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, "evidence/"+id+".report.txt")
	return true
}
