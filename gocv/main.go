package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var dumpDir string

type statT struct {
	mu sync.Mutex
	d  time.Duration
}

func (s *statT) add(d time.Duration) { s.mu.Lock(); s.d += d; s.mu.Unlock() }

var stats statT

func loadEngine(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pats := []string{".", "./bytecode", "./bytecode/cache", "./helpers", "./tester"}
	if _, err := os.Stat(filepath.Join(dir, "bytecode")); err != nil {
		pats = []string{"."}
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, _ := ssautil.Packages(ps, ssa.GlobalDebug)
	prog.Build()
	e := &Engine{prog: prog, pkgs: ps, fns: map[string]*ssa.Function{}, srcs: map[string][]string{}, repoDir: dir, pkgByN: map[string]*types.Package{}, assume: map[string]bool{}, inlined: map[string]bool{}, scc: map[*ssa.Function]int{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && isRepoPkg(f.Pkg.Pkg) || f.Parent() != nil {
			if f.Blocks != nil {
				e.fns[shortName(f.String())] = f
			}
		}
	}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if _, ok := e.pkgByN[p.Types.Name()]; !ok || isRepoPkg(p.Types) {
			e.pkgByN[p.Types.Name()] = p.Types
		}
	})
	e.computeSCC()
	return e, nil
}

// computeSCC: strongly connected components of the static call graph (closures belong to their parents' calls)
func (e *Engine) computeSCC() {
	succ := map[*ssa.Function][]*ssa.Function{}
	var all []*ssa.Function
	for _, f := range e.fns {
		all = append(all, f)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].String() < all[j].String() })
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil {
						succ[f] = append(succ[f], g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					succ[f] = append(succ[f], mc.Fn.(*ssa.Function))
				}
				// function values passed as arguments
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && g.Blocks != nil {
						succ[f] = append(succ[f], g)
					}
				}
			}
		}
	}
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	n, id := 0, 0
	var dfs func(f *ssa.Function)
	dfs = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		st = append(st, f)
		on[f] = true
		self := false
		for _, g := range succ[f] {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				dfs(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var comp []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				comp = append(comp, g)
				if g == f {
					break
				}
			}
			if len(comp) > 1 || self {
				id++
				for _, g := range comp {
					e.scc[g] = id
				}
			}
		}
	}
	for _, f := range all {
		if idx[f] == 0 {
			dfs(f)
		}
	}
}

func (e *Engine) resultType(name string) types.Type {
	if f := e.fns[name]; f != nil {
		return resT(f.Signature)
	}
	if e.allFns == nil {
		e.allFns = map[string]*ssa.Function{}
		for f := range ssautil.AllFunctions(e.prog) {
			e.allFns[shortName(f.String())] = f
		}
	}
	if f := e.allFns[name]; f != nil {
		return resT(f.Signature)
	}
	return nil
}

func resT(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// genVC produces the verification conditions of one contracted function
func (e *Engine) genVC(sp *Spec, fs *FnSpec, f *ssa.Function) (vc *VC) {
	vc = &VC{E: e, sp: sp, fn: f, fs: fs, name: fs.Name, gseen: map[string]bool{}, heapS: map[string]string{}, strs: map[string]string{}, subOf: map[string][3]string{}, types: map[string]int{}, obNames: map[string]int{}, aliveN: map[string]bool{}, calls: map[string]bool{}, subIDs: map[string]int{}, allowed: map[string]map[string]bool{}, modAny: map[string]bool{}, params: map[string]*Val{}, memo: map[string]map[string]string{}}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				vc.err = "outside the verifier's subset: " + u.msg
				return
			}
			panic(r)
		}
	}()
	vc.homDecls()
	st := &State{heaps: map[string]string{}, locals: map[int]*Val{}, next: "next!0", guard: "true"}
	fr := newFrame(f, nil)
	vc.top = fr
	vc.stack = []*ssa.Function{f}
	if len(fs.Params) != len(f.Params) && len(fs.Params) != 0 {
		panic(unsup("contract of %s names %d parameters but the function has %d", fs.Name, len(fs.Params), len(f.Params)))
	}
	for i, p := range f.Params {
		v := vc.freshVal(st, p.Type(), "p_"+p.Name())
		fr.env[p] = v
		if i < len(fs.Params) {
			vc.params[fs.Params[i]] = v
		}
		if i == 0 && f.Signature.Recv() != nil && v.K == kScalar {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				vc.assume("true", not(eq(v.S, "0")))
			}
		}
	}
	for i, fv := range f.FreeVars {
		// verifying a closure on its own: captured variables are arbitrary cells
		v := vc.freshVal(st, fv.Type(), "fv_"+fv.Name())
		fr.env[fv] = v
		_ = i
	}
	vc.old = st.clone()
	ev := &evalCtx{vc: vc, st: st, old: st, scope: vc.params, pkg: vc.pkgOf(f, fs)}
	for _, r := range fs.Requires {
		vc.assume("true", ev.boolTerm(r.E))
	}
	for _, r := range fs.Assumes {
		vc.assume("true", ev.boolTerm(r.E))
	}
	for _, m := range fs.Modifies {
		for _, t := range vc.modTargets(ev, m) {
			if t.ref == "*" {
				vc.modAny[t.heap] = true
				continue
			}
			if vc.allowed[t.heap] == nil {
				vc.allowed[t.heap] = map[string]bool{}
			}
			vc.allowed[t.heap][t.ref] = true
		}
	}
	for _, d := range fs.Decr {
		vc.measure = append(vc.measure, vc.define("measure", "Int", ev.eval(d).S))
	}
	// vacuity: the precondition must be satisfiable
	vc.smoke(st, "entry")
	// postconditions are checked at every return statement, in the state of that return
	fr.onReturn = func(rst *State, vals []*Val) {
		sc := map[string]*Val{}
		for k, v := range vc.params {
			sc[k] = v
		}
		for i, r := range fs.Results {
			if i < len(vals) {
				sc[r] = typed(vals[i], f.Signature.Results().At(i).Type())
			}
		}
		ev2 := &evalCtx{vc: vc, st: rst, old: vc.old, scope: sc, pkg: ev.pkg}
		for _, a := range fs.Assert {
			t := ev2.boolTerm(a.E)
			vc.oblig(rst, "lemma", a.label(), t)
			vc.assume(rst.guard, t)
		}
		if vc.checkOn("post") {
			for _, en := range fs.Ensures {
				vc.oblig(rst, "post", en.label(), ev2.boolTerm(en.E))
			}
		}
	}
	var gs []string
	vc.runBody(fr, st.clone())
	for _, r := range fr.rets {
		if r.st.guard != "false" {
			gs = append(gs, r.st.guard)
		}
	}
	if len(gs) == 0 {
		if len(fs.Ensures) == 1 && fs.Ensures[0].label() == "false" {
			return vc
		}
		panic(unsup("function never returns normally"))
	}
	vc.smoke(&State{guard: or(gs...)}, "exit")
	return vc
}

func (vc *VC) smoke(st *State, where string) {
	o := &Obl{Name: vc.name + " | smoke | " + where, Kind: "smoke", Guard: st.guard, Goal: "false"}
	vc.items = append(vc.items, Item{K: 'o', O: o})
	vc.smokes = append(vc.smokes, o)
}

type result struct {
	fs  *FnSpec
	vc  *VC
	err string
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specPath := flag.String("spec", "", "spec file")
	only := flag.String("fn", "", "only this function (substring)")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("dump", "", "dump failing obligations to this directory")
	stepMs := flag.Int("step", 4000, "incremental timeout (ms)")
	houMs := flag.Int("hou", 2500, "houdini timeout (ms)")
	finalMs := flag.Int("final", 15000, "fallback timeout (ms)")
	jsonOut := flag.String("json", "", "write report")
	ssaDump := flag.String("ssa", "", "print the SSA of a function")
	list := flag.Bool("list", false, "list repository functions")
	flag.BoolVar(&debugCands, "dc", false, "debug candidates")
	flag.Parse()
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	dumpDir = *dump
	t0 := time.Now()
	e, err := loadEngine(*repo)
	if err != nil {
		fmt.Println("LOAD-ERROR", err)
		os.Exit(3)
	}
	if *list {
		var ns []string
		for n := range e.fns {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n, e.scc[e.fns[n]])
		}
		return
	}
	if *ssaDump != "" {
		for n, f := range e.fns {
			if n == *ssaDump {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	sp := newSpec()
	sp.load(*specPath)
	for _, fs := range sp.Fns {
		fs.Requires = sp.splitClauses(fs.Requires)
		fs.AtCall = sp.splitClauses(fs.AtCall)
		fs.Ensures = sp.splitClauses(fs.Ensures)
		fs.Inv = sp.splitClauses(fs.Inv)
	}
	e.spec = sp
	var res []*result
	for _, n := range sp.Order {
		fs := sp.Fns[n]
		if fs.Extern || fs.Inline {
			continue
		}
		r := &result{fs: fs}
		if f := e.fns[n]; f == nil {
			r.err = "function not found in the repository"
		}
		if fs.Trusted != "" {
			if r.err == "" {
				continue
			}
		}
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		res = append(res, r)
	}
	// generate sequentially (shared tables), solve in parallel
	for _, r := range res {
		if r.err != "" {
			continue
		}
		r.vc = e.genVC(sp, r.fs, e.fns[r.fs.Name])
		if r.vc.err != "" {
			r.err = r.vc.err
		}
	}
	genT := time.Since(t0)
	so := solveOpts{stepMs: *stepMs, finalMs: *finalMs, houMs: *houMs, verbose: *verbose}
	if v, err := strconv.Atoi(sp.Opts["final"]); err == nil {
		so.finalMs = v
	}
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for _, r := range res {
		if r.err != "" {
			continue
		}
		wg.Add(1)
		go func(r *result) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r.vc.solve(so)
			if r.vc.err != "" {
				r.err = r.vc.err
			}
		}(r)
	}
	wg.Wait()
	rep := report(e, sp, res, *verbose)
	rep.GenS = genT.Seconds()
	rep.WallS = time.Since(t0).Seconds()
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*jsonOut, b, 0o644)
	}
	fmt.Printf("obligations %d discharged %d failed %d functions %d wall %.1fs (gen %.1fs)\n", rep.Obligations, rep.Discharged, len(rep.Failed), len(rep.Functions), rep.WallS, rep.GenS)
	if len(rep.Failed) > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

type FailedOb struct {
	Name   string `json:"name"`
	Status string `json:"status"`
	Output string `json:"output"`
	Goal   string `json:"goal,omitempty"`
}

type Report struct {
	Property    string         `json:"property"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	ByBackend   map[string]int `json:"by_backend"`
	ByKind      map[string]int `json:"by_kind"`
	Functions   []string       `json:"functions"`
	Inlined     []string       `json:"inlined"`
	Trusted     []string       `json:"trusted"`
	Externs     []string       `json:"externs"`
	Assumptions []string       `json:"assumptions"`
	Invariants  int            `json:"invariants"`
	Failed      []FailedOb     `json:"failed"`
	SolverS     float64        `json:"solver_s"`
	GenS        float64        `json:"gen_s"`
	WallS       float64        `json:"wall_s"`
	Slowest     []string       `json:"slowest"`
	Notes       []string       `json:"notes"`
}

func report(e *Engine, sp *Spec, res []*result, verbose bool) *Report {
	rep := &Report{Property: sp.Property, ByBackend: map[string]int{}, ByKind: map[string]int{}, Notes: sp.Notes}
	type sl struct {
		n  string
		ms int64
	}
	var slow []sl
	fail := func(n, s, o, g string) {
		rep.Failed = append(rep.Failed, FailedOb{n, s, o, trunc(g, 2000)})
	}
	for _, r := range res {
		if r.err != "" {
			rep.Obligations++
			fail(r.fs.Name+" | translate", "error", r.err, "")
			fmt.Printf("FAIL %s: %s\n", r.fs.Name, r.err)
			continue
		}
		rep.Functions = append(rep.Functions, r.fs.Name)
		n, ok := 0, 0
		var maxms int64
		for _, it := range r.vc.items {
			if it.K != 'o' {
				continue
			}
			o := it.O
			if o.Kind == "smoke" {
				if o.Status == "unsat" {
					rep.Obligations++
					fail(o.Name, "vacuous", "the assumptions at this point are contradictory", "")
					fmt.Printf("  VACUOUS %s\n", o.Name)
				}
				continue
			}
			if o.Cand != nil {
				if !o.Cand.Alive || o.Kind == "loopdec" {
					continue
				}
			}
			n++
			slow = append(slow, sl{o.Name, o.Ms})
			if o.Ms > maxms {
				maxms = o.Ms
			}
			if o.Status == "unsat" {
				ok++
				rep.ByBackend[o.By]++
				rep.ByKind[o.Kind]++
			} else {
				fail(o.Name, o.Status, o.Out, imp(o.Guard, o.Goal))
				fmt.Printf("  FAIL %s [%s] %dms %s\n", o.Name, o.Status, o.Ms, o.Out)
			}
		}
		// termination groups
		for g, ln := range r.vc.groups {
			n++
			found := false
			for _, c := range r.vc.cands {
				if c.Dec && c.group == g && c.Alive {
					found = true
					if verbose {
						fmt.Printf("      %s: %s\n", ln, c.Text)
					}
					break
				}
			}
			if found {
				ok++
				rep.ByBackend["z3-new"]++
				rep.ByKind["loopdec"]++
			} else {
				fail(r.fs.Name+" | loopdec | "+ln, "unknown", "no termination measure found", "")
				fmt.Printf("  FAIL %s | loopdec | %s: no termination measure\n", r.fs.Name, ln)
			}
		}
		inv := 0
		for _, c := range r.vc.cands {
			if c.Alive && !c.Dec && len(c.Goals) > 0 {
				inv++
				if verbose {
					fmt.Printf("      inv [%s] %s\n", c.Loop, c.Text)
				}
			}
		}
		rep.Invariants += inv
		rep.Obligations += n
		rep.Discharged += ok
		if verbose || n != ok {
			fmt.Printf("%-60s obligations %d discharged %d invariants %d slowest %dms wall %.1fs\n", r.fs.Name, n, ok, inv, maxms, r.vc.wall.Seconds())
		}
	}
	for _, lm := range sp.Lemmas {
		ok, by, ms := sp.proveLemma(lm, 20*time.Second)
		rep.Obligations += 2
		if ok {
			rep.Discharged += 2
			rep.ByBackend[by] += 2
			rep.ByKind["lemma"] += 2
		} else {
			fail("lemma "+lm.Name, "unknown", fmt.Sprint(ms, " ms"), lm.Smt)
			fmt.Printf("  FAIL lemma %s\n", lm.Name)
		}
	}
	for _, n := range sp.Order {
		fs := sp.Fns[n]
		if fs.Extern && fs.Used {
			rep.Externs = append(rep.Externs, n)
		}
		if fs.Trusted != "" {
			rep.Trusted = append(rep.Trusted, n)
		}
	}
	for a := range e.assume {
		rep.Assumptions = append(rep.Assumptions, a)
	}
	rep.Assumptions = append(rep.Assumptions, sp.Assume...)
	sort.Strings(rep.Assumptions)
	for a := range e.inlined {
		rep.Inlined = append(rep.Inlined, a)
	}
	sort.Strings(rep.Inlined)
	sort.Slice(slow, func(i, j int) bool { return slow[i].ms > slow[j].ms })
	for i := 0; i < len(slow) && i < 5; i++ {
		rep.Slowest = append(rep.Slowest, fmt.Sprintf("%dms %s", slow[i].ms, slow[i].n))
	}
	rep.SolverS = stats.d.Seconds()
	return rep
}
