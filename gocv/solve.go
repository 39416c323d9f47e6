package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const basePrelude = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun sdiff (Str Str) Int)
(declare-fun sconcat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun str_of ((Array Int Int) Int Int) Str)
(declare-fun strarr (Str) (Array Int Int))
(declare-fun str_of_rune (Int) Str)
(declare-fun str_lt (Str Str) Bool)
(declare-fun runeAt (Str Int) Int)
(declare-fun runeW (Str Int) Int)
(declare-const str_empty Str)
(assert (= (slen str_empty) 0))
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (str_of a o n)) n)) :pattern ((str_of a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (sat (str_of a o n) i) (select a (+ o i)))) :pattern ((sat (str_of a o n) i)))))
(declare-const flt_zero Flt)
(declare-fun flt_add (Flt Flt) Flt)
(declare-fun flt_sub (Flt Flt) Flt)
(declare-fun flt_mul (Flt Flt) Flt)
(declare-fun flt_div (Flt Flt) Flt)
(declare-fun fneg (Flt) Flt)
(declare-fun flt_lt (Flt Flt) Bool)
(declare-fun flt_le (Flt Flt) Bool)
(declare-fun flt_gt (Flt Flt) Bool)
(declare-fun flt_ge (Flt Flt) Bool)
(declare-fun flt_of_int (Int) Flt)
(declare-fun flt_to_int (Flt) Int)
(declare-fun flt_to32 (Flt) Flt)
(declare-fun band (Int Int) Int)
(declare-fun bor (Int Int) Int)
(declare-fun bxor (Int Int) Int)
(declare-fun bandnot (Int Int) Int)
(declare-fun bshl (Int Int) Int)
(declare-fun bshr (Int Int) Int)
(declare-fun typeof (Int) Int)
(declare-fun root (Int) Int)
(declare-fun skind (Int) Int)
(declare-fun sparent (Int) Int)
(declare-fun sidx (Int) Int)
(assert (= (root 0) 0))
(define-fun tdiv ((a Int) (b Int)) Int (ite (>= a 0) (div a b) (- (div (- a) b))))
(define-fun tmod ((a Int) (b Int)) Int (- a (* b (tdiv a b))))
(declare-const next!0 Int)
(assert (> next!0 0))
`

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err error
}

func startZ3(bin string, timeoutMs int, extra ...string) *z3proc {
	args := append([]string{"-in", "-smt2"}, extra...)
	c := exec.Command(bin, args...)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = io.Discard
	if err := c.Start(); err != nil {
		panic(err)
	}
	p := &z3proc{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<16)}
	p.send("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.array.extensional false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 30.0)\n")
	p.send(fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs))
	return p
}

func (p *z3proc) send(s string) {
	if p.err != nil {
		return
	}
	_, p.err = io.WriteString(p.in, s)
}

func (p *z3proc) read() string {
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			p.err = err
			return "error: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

func (p *z3proc) checkSat() string {
	p.send("(check-sat)\n")
	if p.err != nil {
		return "error: " + p.err.Error()
	}
	r := p.read()
	for strings.HasPrefix(r, "(error") || strings.HasPrefix(r, "WARNING") {
		if strings.HasPrefix(r, "(error") {
			if p.err == nil {
				p.err = fmt.Errorf("%s", r)
			}
			return r
		}
		r = p.read()
	}
	return r
}

func (p *z3proc) close() {
	p.send("(exit)\n")
	p.in.Close()
	done := make(chan bool)
	go func() { p.cmd.Wait(); done <- true }()
	select {
	case <-done:
	case <-time.After(300 * time.Millisecond):
		p.cmd.Process.Kill()
		<-done
	}
}

type backend struct {
	name string
	args []string
	cvc  bool
}

// runAll gives the script to all back ends at once; the first proof wins
func runAll(script string, timeout time.Duration) (r, by, out string) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct {
		i int
		r string
	}
	ch := make(chan res, len(fallbacks))
	for i, bk := range fallbacks {
		go func(i int, bk backend) { ch <- res{i, runOnce(ctx, bk, script, timeout)} }(i, bk)
	}
	r = "unknown"
	outs := make([]string, len(fallbacks))
	for range fallbacks {
		x := <-ch
		bk := fallbacks[x.i]
		outs[x.i] = bk.name + " " + strings.Join(bk.args, " ") + ": " + x.r
		if x.r == "unsat" {
			return "unsat", bk.name, ""
		}
		if x.r == "sat" {
			r = "sat"
		}
	}
	return r, "", strings.Join(outs, "; ")
}

func runOnce(parent context.Context, bk backend, script string, timeout time.Duration) string {
	ctx, cancel := context.WithTimeout(parent, timeout+2*time.Second)
	defer cancel()
	f, err := os.CreateTemp("", "gocv*.smt2")
	if err != nil {
		return "error"
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	args := append([]string{}, bk.args...)
	if bk.cvc {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", int(timeout.Seconds()+0.5)))
	}
	args = append(args, f.Name())
	c := exec.CommandContext(ctx, bk.name, args...)
	var out bytes.Buffer
	c.Stdout = &out
	c.Run()
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			return l
		}
		if strings.HasPrefix(l, "(error") {
			return l
		}
	}
	return "timeout"
}

var fallbacks = []backend{
	{name: "z3-new", args: []string{"auto_config=false", "smt.mbqi=false", "smt.case_split=3", "smt.array.extensional=false"}},
	{name: "z3-new", args: []string{"auto_config=false", "smt.mbqi=false"}},
	{name: "z3", args: []string{"auto_config=false", "smt.mbqi=false"}},
	{name: "cvc5", args: []string{"--lang=smt2", "--quiet"}, cvc: true},
	{name: "z3-new", args: []string{"auto_config=false", "smt.mbqi=false", "smt.arith.solver=2", "smt.random_seed=7"}},
	{name: "z3-new", args: []string{"auto_config=false"}},
}

// script renders the items up to (not including) item idx as plain text
func (vc *VC) header() string {
	var b strings.Builder
	b.WriteString(basePrelude)
	for _, p := range vc.sp.Prelude {
		b.WriteString(p)
		b.WriteString("\n")
	}
	for _, g := range vc.gdecl {
		b.WriteString(g)
		b.WriteString("\n")
	}
	return b.String()
}

func itemText(it Item) string {
	switch it.K {
	case 'd':
		return it.Text + "\n"
	case 'a':
		return "(assert " + it.Text + ")\n"
	}
	return ""
}

// lemma asserts the item if the solver shows it within a short time
func (p *z3proc) lemma(it Item, ms int) {
	p.send(fmt.Sprintf("(set-option :timeout 300)\n(push)\n(assert %s)\n", not(it.Text)))
	r := p.checkSat()
	p.send(fmt.Sprintf("(pop)\n(set-option :timeout %d)\n", ms))
	v := int32(0)
	if r == "unsat" {
		p.send("(assert " + it.Text + ")\n")
		v = 1
	}
	atomic.StoreInt32(it.Proved, v)
}

func (vc *VC) scriptFor(o *Obl) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(vc.header())
	for _, c := range vc.cands {
		_ = c
	}
	for _, it := range vc.items {
		if it.K == 'o' {
			if it.O == o {
				break
			}
			if it.O.Cand == nil && it.O.Status == "unsat" {
				b.WriteString("(assert " + imp(it.O.Guard, it.O.Goal) + ")\n")
			}
			continue
		}
		if it.K == 'l' {
			if atomic.LoadInt32(it.Proved) == 1 {
				b.WriteString("(assert " + it.Text + ")\n")
			}
			continue
		}
		b.WriteString(itemText(it))
		if it.K == 'd' && strings.HasPrefix(it.Text, "(declare-const act!") {
			nm := strings.Fields(it.Text)[1]
			for _, c := range vc.cands {
				if c.Act == nm {
					if c.Alive && !c.Dec {
						b.WriteString("(assert " + nm + ")\n")
					} else {
						b.WriteString("(assert (not " + nm + "))\n")
					}
				}
			}
		}
	}
	b.WriteString("(assert " + and(o.Guard, not(o.Goal)) + ")\n(check-sat)\n")
	return b.String()
}

// fnBudget bounds the time spent on one function
var fnBudget = 240 * time.Second

type solveOpts struct {
	stepMs  int
	finalMs int
	houMs   int
	verbose bool
}

// solve discharges all obligations of the VC
func (vc *VC) solve(so solveOpts) {
	defer func() {
		if vc.err != "" && dumpDir != "" {
			var b strings.Builder
			b.WriteString(basePrelude)
			for _, g := range vc.gdecl {
				b.WriteString(g + "\n")
			}
			for _, it := range vc.items {
				if it.K != 'o' {
					b.WriteString(itemText(it))
				}
			}
			os.WriteFile(dumpDir+"/error.smt2", []byte(b.String()), 0o644)
		}
	}()
	t0 := time.Now()
	defer func() { vc.wall = time.Since(t0); stats.add(vc.wall) }()
	// Houdini over loop invariant candidates and termination measures
	need := false
	for _, c := range vc.cands {
		if len(c.Goals) > 0 {
			need = true
		}
	}
	if need {
		vc.houdini(so)
	}
	// main pass: incremental, program points dealt out to several solver processes
	n := 0
	for _, it := range vc.items {
		if it.K == 'o' && it.O.Cand == nil {
			n++
		}
	}
	workers := 1 + n/120
	if workers > 6 {
		workers = 6
	}
	var wg sync.WaitGroup
	errs := make([]error, workers)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			errs[w] = vc.mainPass(so, w, workers, t0)
		}(w)
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			vc.err = "solver: " + err.Error()
			return
		}
	}
	var retry []*Obl
	for _, it := range vc.items {
		if it.K == 'o' && it.O.Cand == nil && it.O.Kind != "smoke" && it.O.Status != "unsat" {
			retry = append(retry, it.O)
		}
	}
	fails := 0
	for _, o := range retry {
		if fails >= 3 || time.Since(t0) > fnBudget {
			o.Status = "unknown"
			o.Out = "not retried after earlier failures in this function"
			continue
		}
		script := vc.scriptFor(o)
		s0 := time.Now()
		r, by, out := runAll(script, time.Duration(so.finalMs)*time.Millisecond)
		if r != "unsat" && r != "sat" && vc.byPaths(o, script, so.finalMs) {
			r, by = "unsat", "z3-new"
		}
		o.Ms += time.Since(s0).Milliseconds()
		ok := r == "unsat"
		o.Status = r
		if ok {
			o.By = by
		}
		if !ok {
			fails++
			o.Out = out
			if dumpDir != "" {
				os.WriteFile(dumpDir+"/"+sane(trunc(o.Name, 120))+".smt2", []byte(script), 0o644)
			}
		}
	}
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*![0-9]+`)

// byPaths proves an obligation separately for every choice among the paths joined before it
func (vc *VC) byPaths(o *Obl, script string, ms int) bool {
	idx := len(vc.items)
	for i, it := range vc.items {
		if it.K == 'o' && it.O == o {
			idx = i
			break
		}
	}
	var ms2 []mergePoint
	for i := len(vc.merges) - 1; i >= 0; i-- {
		known := vc.merges[i].at <= idx
		for _, g := range vc.merges[i].gs {
			for _, w := range identRe.FindAllString(g, -1) {
				known = known && (strings.Contains(script, "(define-const "+w+" ") || strings.Contains(script, "(declare-const "+w+" ") || strings.Contains(script, "(define-fun "+w+" ") || strings.Contains(script, "(declare-fun "+w+" "))
			}
		}
		if known {
			ms2 = append(ms2, vc.merges[i])
		}
	}
	if len(ms2) == 0 {
		return false
	}
	var p *z3proc
	defer func() { p.close() }()
	restart := func(trail []string) {
		if p != nil {
			p.close()
		}
		p = startZ3("z3-new", 80)
		p.send(strings.TrimSuffix(strings.TrimPrefix(script, "(set-logic ALL)\n"), "(check-sat)\n"))
		for _, t := range trail {
			p.send("(push)\n" + t + "\n")
		}
	}
	restart(nil)
	restarts := 0
	t0 := time.Now()
	limit := time.Duration(12*ms) * time.Millisecond
	var trail []string
	var bad int32
	var lw sync.WaitGroup
	var rec func(k int) bool
	rec = func(k int) bool {
		if time.Since(t0) > limit || atomic.LoadInt32(&bad) != 0 {
			return false
		}
		last := k >= len(ms2)
		r := p.checkSat()
		for p.err != nil && restarts < 20 { // a time limit that strikes between two queries ends the solver
			restarts++
			restart(trail)
			r = p.checkSat()
		}
		if r == "unsat" {
			return true
		}
		if p.err != nil {
			return false
		}
		if last {
			leaf := strings.TrimSuffix(script, "(check-sat)\n") + strings.Join(trail, "\n") + "\n(check-sat)\n"
			lw.Add(1)
			go func() {
				defer lw.Done()
				leafLim <- true
				defer func() { <-leafLim }()
				if atomic.LoadInt32(&bad) != 0 || time.Since(t0) > limit {
					atomic.StoreInt32(&bad, 1)
					return
				}
				l0 := time.Now()
				by := fallbacks[0].name
				r := runOnce(context.Background(), fallbacks[0], leaf, 45*time.Second)
				if r != "unsat" {
					r, by, _ = runAll(leaf, time.Duration(ms)*time.Millisecond)
				}
				if os.Getenv("GOCV_DEBUG") != "" {
					fmt.Println("leaf", r, by, time.Since(l0), time.Since(t0))
				}
				if r != "unsat" {
					atomic.StoreInt32(&bad, 1)
					if dumpDir != "" {
						os.WriteFile(dumpDir+"/path_"+sane(trunc(o.Name, 100))+".smt2", []byte(leaf), 0o644)
					}
				}
			}()
			return true
		}
		alts := append([]string{}, ms2[k].gs...)
		alts = append(alts, not(or(ms2[k].gs...)))
		for _, g := range alts {
			p.send("(push)\n(assert " + g + ")\n")
			trail = append(trail, "(assert "+g+")")
			ok := rec(k + 1)
			trail = trail[:len(trail)-1]
			p.send("(pop)\n")
			if !ok {
				return false
			}
		}
		return true
	}
	ok := rec(0)
	lw.Wait()
	return ok && atomic.LoadInt32(&bad) == 0
}

// leafLim bounds how many paths are tried at the same time
var leafLim = make(chan bool, 6)

// mainPass checks the groups of obligations that belong to this worker; the others are proved by its
// siblings and serve as facts here (an obligation only ever relies on earlier ones)
func (vc *VC) mainPass(so solveOpts, w, workers int, t0 time.Time) error {
	p := startZ3("z3-new", so.stepMs)
	defer p.close()
	p.send(vc.header())
	alive := map[string]*Cand{}
	for _, c := range vc.cands {
		alive[c.Act] = c
	}
	skip := map[*Obl]bool{}
	slow := false
	failed := 0
	group := -1
	for i, it := range vc.items {
		if it.K == 'l' {
			p.lemma(it, so.stepMs)
			continue
		}
		if it.K != 'o' {
			p.send(itemText(it))
			if it.K == 'd' && strings.HasPrefix(it.Text, "(declare-const act!") {
				nm := strings.Fields(it.Text)[1]
				if c := alive[nm]; c != nil && c.Alive && !c.Dec {
					p.send("(assert " + nm + ")\n")
				} else {
					p.send("(assert (not " + nm + "))\n")
				}
			}
			continue
		}
		o := it.O
		if o.Cand != nil || skip[o] {
			continue
		}
		// adjacent obligations of one program point are first tried as one conjunction
		grp := []*Obl{o}
		if o.Kind != "smoke" {
			for j := i + 1; j < len(vc.items) && vc.items[j].K == 'o' && vc.items[j].O.Cand == nil && vc.items[j].O.Kind != "smoke" && vc.items[j].O.Guard == o.Guard; j++ {
				grp = append(grp, vc.items[j].O)
			}
		}
		var gl []string
		for _, g := range grp {
			gl = append(gl, g.Goal)
			skip[g] = true
		}
		all := "(assert " + imp(o.Guard, and(gl...)) + ")\n"
		group++
		if group%workers != w {
			if o.Kind != "smoke" {
				p.send(all)
			}
			continue
		}
		if !slow && (failed > 12 || time.Since(t0) > fnBudget/2) {
			// many failures or much time used: the remaining obligations get little time each
			slow = true
			p.send("(set-option :timeout 300)\n")
		}
		if len(grp) > 1 {
			s0 := time.Now()
			p.send("(push)\n(assert " + and(o.Guard, not(and(gl...))) + ")\n")
			r := p.checkSat()
			p.send("(pop)\n")
			if p.err != nil {
				return p.err
			}
			if r == "unsat" {
				for _, g := range grp {
					g.Ms = time.Since(s0).Milliseconds() / int64(len(grp))
					g.Status, g.By = r, "z3-new"
				}
				p.send(all)
				continue
			}
		}
		for _, g := range grp {
			s0 := time.Now()
			p.send("(push)\n(assert " + and(g.Guard, not(g.Goal)) + ")\n")
			r := p.checkSat()
			p.send("(pop)\n")
			g.Ms = time.Since(s0).Milliseconds()
			g.Status, g.By = r, "z3-new"
			if p.err != nil {
				return p.err
			}
			if g.Kind == "smoke" {
				continue
			}
			if r == "unsat" {
				p.send("(assert " + imp(g.Guard, g.Goal) + ")\n")
			} else {
				failed++
			}
		}
	}
	return nil
}

// houdini computes the largest inductive subset of the candidate invariants
func (vc *VC) houdini(so solveOpts) {
	byAct := map[string]*Cand{}
	for _, c := range vc.cands {
		byAct[c.Act] = c
	}
	pending := map[*Cand]bool{}
	h0 := time.Now()
	for round := 0; round < 40; round++ {
		p := startZ3("z3-new", so.houMs)
		p.send(vc.header())
		changed := false
		var late []*Obl
		for _, it := range vc.items {
			if it.K == 'l' {
				p.lemma(it, so.houMs)
				continue
			}
			if it.K != 'o' {
				p.send(itemText(it))
				if it.K == 'd' && strings.HasPrefix(it.Text, "(declare-const act!") {
					nm := strings.Fields(it.Text)[1]
					if c := byAct[nm]; c != nil && c.Alive && !c.Dec {
						p.send("(assert " + nm + ")\n")
					} else {
						p.send("(assert (not " + nm + "))\n")
					}
				}
				continue
			}
			o := it.O
			if o.Cand == nil {
				// earlier obligations that hold under the current candidates serve as intermediate facts
				if o.Kind == "smoke" {
					continue
				}
				if o.Kind != "post" {
					// discharged by the main pass, under the invariants found here
					p.send("(assert " + imp(o.Guard, o.Goal) + ")\n")
				}
				continue
			}
			if !o.Cand.Alive {
				continue
			}
			if o.Cand.Dec && round == 0 && pending[o.Cand] {
				continue
			}
			s0 := time.Now()
			p.send("(push)\n(assert " + and(o.Guard, not(o.Goal)) + ")\n")
			r := p.checkSat()
			p.send("(pop)\n")
			o.Ms += time.Since(s0).Milliseconds()
			if p.err != nil {
				vc.err = "solver: " + p.err.Error()
				p.close()
				return
			}
			if r == "unknown" && vc.fs != nil && vc.fs.Opts["standalone"] && !strings.HasPrefix(o.Cand.Text, "auto:") && !o.Cand.Dec {
				late = append(late, o) // tried on its own below
				continue
			}
			if r != "unsat" {
				// user-written candidates get a second chance with a longer timeout at the end
				if so.verbose {
					fmt.Printf("      houdini drops [%s] %s (%s: %s, %dms)\n", o.Cand.Loop, o.Cand.Text, o.Name[strings.LastIndex(o.Name, "inv-")+1:][:12], r, o.Ms)
				}
				if dumpDir != "" {
					os.WriteFile(dumpDir+"/hou_"+sane(trunc(o.Name[len(vc.name):], 120))+".smt2", []byte(vc.scriptFor(o)), 0o644)
				}
				o.Cand.Alive = false
				o.Status = r
				changed = true
			} else {
				o.Status, o.By = "unsat", "z3-new"
			}
		}
		p.close()
		if changed {
			late = nil // first settle the others
		}
		var lw sync.WaitGroup
		lim := make(chan bool, 3)
		// an instance of a template with another instance that already holds is not worth the effort
		isLate := map[*Cand]bool{}
		for _, o := range late {
			isLate[o.Cand] = true
		}
		tmpl := func(c *Cand) string { return c.Loop + "|" + strings.SplitN(c.Text, " [$", 2)[0] }
		settled := map[string]bool{}
		for _, c := range vc.cands {
			if c.Alive && !isLate[c] && len(c.Goals) > 0 && strings.Contains(c.Text, " [$") {
				settled[tmpl(c)] = true
			}
		}
		for _, o := range late {
			if settled[tmpl(o.Cand)] {
				o.Status = "unknown"
				continue
			}
			lw.Add(1)
			go func(o *Obl, script string) {
				defer lw.Done()
				lim <- true
				s0 := time.Now()
				r, by, _ := runAll(script, time.Duration(so.finalMs)*time.Millisecond)
				if r != "unsat" && r != "sat" && vc.byPaths(o, script, so.finalMs) {
					r, by = "unsat", "z3-new by paths"
				}
				<-lim
				o.Ms += time.Since(s0).Milliseconds()
				o.Status, o.By = r, by
			}(o, vc.scriptFor(o))
		}
		lw.Wait()
		for _, o := range late {
			if so.verbose {
				fmt.Printf("      houdini standalone [%s] %s: %s %s %dms\n", o.Cand.Loop, o.Cand.Text, o.Status, o.By, o.Ms)
			}
			if o.Cand.Alive && o.Status != "unsat" {
				o.Cand.Alive = false
				changed = true
			}
		}
		if so.verbose {
			fmt.Printf("      houdini round %d after %.1fs\n", round, time.Since(h0).Seconds())
		}
		nonDec := false
		_ = nonDec
		if !changed {
			return
		}
		// termination measures dropped do not invalidate others: only repeat when an invariant was dropped
		again := false
		for _, c := range vc.cands {
			if !c.Alive && !c.Dec && !pending[c] {
				again = true
				pending[c] = true
			}
		}
		if !again {
			return
		}
		for _, c := range vc.cands { // measures may only be lost by a weaker invariant set; recheck those alive
			_ = c
		}
	}
}
