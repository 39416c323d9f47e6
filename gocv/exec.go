package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	consts  map[*ssa.Global]*ssa.Const
	allFns  map[string]*ssa.Function
	prog    *ssa.Program
	pkgs    []*packages.Package
	fns     map[string]*ssa.Function
	spec    *Spec
	scc     map[*ssa.Function]int
	srcs    map[string][]string
	repoDir string
	pkgByN  map[string]*types.Package
	assume  map[string]bool // collected assumptions
	inlined map[string]bool
}

type Obl struct {
	Name   string
	Kind   string
	Guard  string
	Goal   string
	Cand   *Cand // non nil: candidate goal (Houdini)
	Status string
	By     string
	Ms     int64
	Out    string
	Pos    string
	idx    int
}

type Cand struct {
	ID    int
	Text  string
	Loop  string
	Act   string
	Alive bool
	Goals []*Obl
	Dec   bool // termination measure candidate
	group int
}

type Item struct {
	K      byte // 'd' declaration/definition, 'a' assertion, 'o' obligation
	Text   string
	O      *Obl
	Proved *int32 // 'l': a lemma the solver showed
}

type State struct {
	heaps  map[string]string
	locals map[int]*Val
	next   string
	guard  string
	epoch  string // heaps not in the map have the value they had when this epoch began
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]string, len(s.heaps)), locals: make(map[int]*Val, len(s.locals)), next: s.next, guard: s.guard, epoch: s.epoch}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.locals {
		n.locals[k] = v
	}
	return n
}

type recorder struct {
	start  int                        // counter at loop start
	heaps  map[string]map[string]bool // heap -> refs ("*" any)
	locals map[int]bool
	next   bool
	all    bool // anything in memory may have changed
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	parent *Frame
	allocs map[ssa.Value]int
	entry  *State // state at entry of the top function (for old)
	scope  map[string]*Val
	depth  int
	loops  *loopInfo
	rets   []retState
	// called at every return statement of the function under contract
	onReturn func(*State, []*Val)
	in       map[*ssa.BasicBlock][]edge
	loopCtx  map[*ssa.BasicBlock]*loopCtx
}
type retState struct {
	st   *State
	vals []*Val
}
type edge struct {
	pred *ssa.BasicBlock
	st   *State
}

type VC struct {
	wall     time.Duration
	openQ    []string // bound variables of the quantifiers being evaluated
	E        *Engine
	sp       *Spec
	fn       *ssa.Function
	fs       *FnSpec
	name     string
	items    []Item
	gdecl    []string
	gseen    map[string]bool
	heapS    map[string]string
	n        int
	nlocal   int
	strs     map[string]string
	harrs    int
	harrAt   []harrPoint
	litBytes map[string]string
	subOf    map[string][3]string
	types    map[string]int
	merges   []mergePoint
	cands    []*Cand
	groups   []string // loopdec groups (loop names)
	recs     []*recorder
	obNames  map[string]int
	old      *State
	params   map[string]*Val
	allowed  map[string]map[string]bool
	modAny   map[string]bool
	top      *Frame
	quiet    int // >0: do not emit obligations (spec evaluation of pre/post in assumption position)
	err      string
	smokes   []*Obl
	stack    []*ssa.Function
	measure  []string
	subIDs   map[string]int
	aliveN   map[string]bool
	calls    map[string]bool
	homTrk   map[string]bool
	frozen   bool
	memo     map[string]map[string]string
}

func (vc *VC) gdeclare(name, text string) {
	if !vc.gseen[name] {
		vc.gseen[name] = true
		vc.gdecl = append(vc.gdecl, text)
	}
}

// emit adds an item; facts about a quantifier's bound variable are dropped (they are not closed terms)
func (vc *VC) emit(k byte, s string) {
	if k == 'a' && vc.hasOpenQ(s) {
		return
	}
	vc.items = append(vc.items, Item{K: k, Text: s})
}

func (vc *VC) hasOpenQ(s string) bool {
	if len(vc.openQ) == 0 || !strings.Contains(s, "?") {
		return false
	}
	for _, q := range vc.openQ {
		if i := strings.Index(s, q); i >= 0 {
			for ; i >= 0; i = idxFrom(s, q, i+1) {
				if j := i + len(q); j == len(s) || s[j] < '0' || s[j] > '9' {
					return true
				}
			}
		}
	}
	return false
}

func idxFrom(s, q string, from int) int {
	i := strings.Index(s[from:], q)
	if i < 0 {
		return -1
	}
	return from + i
}

func (vc *VC) fresh(p, sort string) string {
	vc.n++
	nm := fmt.Sprintf("%s!%d", sane(p), vc.n)
	vc.emit('d', fmt.Sprintf("(declare-const %s %s)", nm, sort))
	return nm
}

func sane(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '$' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "t"
	}
	return b.String()
}

func (vc *VC) define(p, sort, term string) string {
	if strings.HasPrefix(term, "(store ") {
		return vc.defineStore(p, sort, term)
	}
	if len(term) < 24 || !strings.HasPrefix(term, "(") || vc.hasOpenQ(term) {
		return term
	}
	vc.n++
	nm := fmt.Sprintf("%s!%d", sane(p), vc.n)
	vc.emit('d', fmt.Sprintf("(define-fun %s () %s %s)", nm, sort, term))
	return nm
}

// defineStore names a store term and remembers the stored value, so that later reads at the
// same reference see it directly (read-over-write resolved at generation time)
func (vc *VC) defineStore(p, sort, term string) string {
	as := sexps(term[1 : len(term)-1])
	if len(as) != 4 {
		panic(unsup("malformed store %s", term))
	}
	h, r, v := as[1], as[2], as[3]
	el := arrElem(sort)
	if len(v) >= 24 && strings.HasPrefix(v, "(") && !strings.HasPrefix(v, "((as const") {
		v = vc.define(p+"_v", el, v)
	}
	if strings.HasPrefix(h, "(") {
		h = vc.define(p, sort, h)
	}
	vc.n++
	nm := fmt.Sprintf("%s!%d", sane(p), vc.n)
	vc.emit('d', fmt.Sprintf("(define-fun %s () %s (store %s %s %s))", nm, sort, h, r, v))
	m := map[string]string{r: v}
	for k, x := range vc.memo[h] {
		if k != r && distinctRefs(k, r) {
			m[k] = x
		}
	}
	vc.memo[nm] = m
	return nm
}

// distinctRefs: two allocation constants, or an allocation constant and a parameter
func distinctRefs(a, b string) bool {
	ra, rb := reAlloc.MatchString(a), reAlloc.MatchString(b)
	if ra && rb {
		return a != b
	}
	if ra && reParam.MatchString(b) || rb && reParam.MatchString(a) {
		return true
	}
	return isNum(a) && isNum(b) && a != b
}

var reAlloc = regexp.MustCompile(`^ref!\d+$`)
var reParam = regexp.MustCompile(`^p_[A-Za-z0-9_]+!\d+$`)

func (vc *VC) sel(h, r string) string {
	if m := vc.memo[h]; m != nil {
		if v, ok := m[r]; ok {
			return v
		}
	}
	return "(select " + h + " " + r + ")"
}

// mergeTerm joins terms under guards; for arrays the remembered entries are joined pointwise
func (vc *VC) mergeTerm(p, srt string, gs, ts []string) string {
	same := true
	for _, t := range ts[1:] {
		if t != ts[0] {
			same = false
		}
	}
	if same {
		return ts[0]
	}
	x := ts[len(ts)-1]
	for j := len(ts) - 2; j >= 0; j-- {
		x = ite(gs[j], ts[j], x)
	}
	if !strings.HasPrefix(srt, "(Array ") {
		return vc.define(p, srt, x)
	}
	keys := map[string]bool{}
	for _, t := range ts {
		for k := range vc.memo[t] {
			keys[k] = true
		}
	}
	var nm string
	if strings.HasPrefix(x, "(ite") {
		vc.n++
		nm = fmt.Sprintf("%s!%d", sane(p), vc.n)
		vc.emit('d', fmt.Sprintf("(define-fun %s () %s %s)", nm, srt, x))
	} else {
		return vc.define(p, srt, x)
	}
	if len(keys) > 0 && len(keys) <= 12 {
		m := map[string]string{}
		el := arrElem(srt)
		for _, k := range sortedKeys(keys) {
			var vs []string
			for _, t := range ts {
				vs = append(vs, vc.sel(t, k))
			}
			m[k] = vc.mergeTerm(p+"_v", el, gs, vs)
		}
		vc.memo[nm] = m
	}
	return nm
}

// defineC introduces a real constant equal to the term (useful for arrays)
func (vc *VC) assume(guard, f string) {
	if f == "true" {
		return
	}
	vc.emit('a', imp(guard, f))
}

func (vc *VC) checkOn(kind string) bool { return vc.sp.Checks[kind] || vc.sp.Checks["all"] }

func (vc *VC) oblig(st *State, kind, what, goal string) {
	if vc.quiet > 0 || st.guard == "false" {
		return
	}
	if goal == "true" && kind != "post" {
		return
	}
	nm := vc.name + " | " + kind + " | " + what
	vc.obNames[nm]++
	if c := vc.obNames[nm]; c > 1 {
		nm = fmt.Sprintf("%s #%d", nm, c)
	}
	o := &Obl{Name: nm, Kind: kind, Guard: st.guard, Goal: goal}
	vc.items = append(vc.items, Item{K: 'o', O: o})
}

// check: emit obligation if the kind is enabled, assume afterwards
func (vc *VC) check(st *State, kind, what, goal string) {
	if goal == "true" {
		return
	}
	if vc.checkOn(kind) {
		vc.oblig(st, kind, what, goal)
	}
	vc.assume(st.guard, goal)
}

// ---------- heaps ----------

func (vc *VC) heapSort(name, sort string) {
	if s, ok := vc.heapS[name]; ok && s != sort {
		panic(unsup("heap %s with sorts %s and %s", name, s, sort))
	}
	vc.heapS[name] = sort
}

func (vc *VC) getHeap(st *State, name, sort string) string {
	vc.heapSort(name, sort)
	if t, ok := st.heaps[name]; ok {
		return t
	}
	nm := name + "!0"
	if st.epoch != "" {
		nm = name + "!" + st.epoch
	}
	vc.gdeclare(nm, fmt.Sprintf("(declare-const %s %s)", nm, sort))
	return nm
}

// havocAll forgets all of memory
func (vc *VC) havocAll(st *State) {
	vc.n++
	st.epoch = fmt.Sprintf("e%d", vc.n)
	st.heaps = map[string]string{}
	for _, r := range vc.recs {
		r.all = true
	}
}

func (vc *VC) setHeap(st *State, name, sort, term, ref string) {
	vc.heapSort(name, sort)
	st.heaps[name] = vc.define(name, sort, term)
	vc.recordWrite(name, ref)
}

func (vc *VC) recordWrite(name, ref string) {
	for _, r := range vc.recs {
		m := r.heaps[name]
		if m == nil {
			m = map[string]bool{}
			r.heaps[name] = m
		}
		if vc.stable(ref, r.start) {
			m[ref] = true
		} else {
			m["*"] = true
		}
	}
}

var reID = regexp.MustCompile(`!(\d+)`)

func (vc *VC) stable(t string, start int) bool {
	if t == "*" {
		return false
	}
	for _, m := range reID.FindAllStringSubmatch(t, -1) {
		n, _ := strconv.Atoi(m[1])
		if n > start {
			return false
		}
	}
	return true
}

func (vc *VC) setLocal(st *State, id int, v *Val) {
	st.locals[id] = v
	for _, r := range vc.recs {
		r.locals[id] = true
	}
}

func fieldHeap(t types.Type, fname string) string { return "F_" + typeKey(t) + "_" + fname }

// canonical struct type for pointer *T
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsup("deref of %s", t))
}

func (vc *VC) subRef(kind string, parent string) string {
	id, ok := vc.subIDs[kind]
	if !ok {
		id = len(vc.subIDs) + 1
		vc.subIDs[kind] = id
	}
	f := "sub_" + kind
	vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int) Int)", f))
	t := app(f, parent)
	key := "subfact " + t
	if !vc.aliveN[key] {
		vc.aliveN[key] = true
		vc.emit('a', fmt.Sprintf("(and (= (skind %s) %d) (= (sparent %s) %s) (= (root %s) (root %s)) (=> (not (= %s 0)) (not (= %s 0))))", t, id, t, parent, t, parent, parent, t))
	}
	return t
}

func (vc *VC) eref(elem types.Type, base, idx string) string {
	kind := "elem_" + typeKey(elem)
	id, ok := vc.subIDs[kind]
	if !ok {
		id = len(vc.subIDs) + 1
		vc.subIDs[kind] = id
	}
	f := "e" + kind
	if !vc.gseen[f] {
		vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int Int) Int)", f))
		vc.gdecl = append(vc.gdecl, fmt.Sprintf("(assert (forall ((b Int) (i Int)) (! (and (= (skind (%s b i)) %d) (= (sparent (%s b i)) b) (= (sidx (%s b i)) i) (= (root (%s b i)) (root b)) (=> (not (= b 0)) (not (= (%s b i) 0)))) :pattern ((%s b i)))))", f, id, f, f, f, f, f))
	}
	return app(f, base, idx)
}

// fieldLoc: address of field i in struct of type T at ref
func (vc *VC) fieldAddr(T types.Type, ref string, i int) *Val {
	st := structOf(T)
	if st == nil {
		panic(unsup("field of opaque type %s", T))
	}
	f := st.Field(i)
	pt := types.NewPointer(f.Type())
	if isStructLike(f.Type()) {
		return scalar(pt, vc.subRef(typeKey(T)+"_"+f.Name(), ref))
	}
	if isArray(f.Type()) != nil {
		return &Val{K: kAddr, T: pt, A: &Addr{K: aArr, T: f.Type(), Ref: vc.subRef(typeKey(T)+"_"+f.Name(), ref)}}
	}
	return &Val{K: kAddr, T: pt, A: &Addr{K: aField, T: f.Type(), Heap: fieldHeap(T, f.Name()), Ref: ref}}
}

func elemHeapOf(elem types.Type) string { return "E_" + typeKey(canonElem(elem)) }

// canonical element type: byte/uint8 and named types over the same... keep Go identity
func canonElem(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok {
		return types.Typ[b.Kind()]
	}
	return types.Unalias(t)
}

func (vc *VC) elemAddr(elem types.Type, base, idx string) *Val {
	pt := types.NewPointer(elem)
	if isStructLike(elem) {
		return scalar(pt, vc.eref(elem, base, idx))
	}
	if isArray(elem) != nil {
		return &Val{K: kAddr, T: pt, A: &Addr{K: aArr, T: elem, Ref: vc.eref(elem, base, idx)}}
	}
	return &Val{K: kAddr, T: pt, A: &Addr{K: aElem, T: elem, Heap: elemHeapOf(elem), Ref: base, Idx: idx}}
}

// toAddr turns a pointer value to a non-struct into an Addr
func (vc *VC) toAddr(p *Val) *Addr {
	if p.K == kAddr {
		return p.A
	}
	if p.K == kPoison {
		panic(unsup("%s", p.Msg))
	}
	e := deref(p.T)
	if isArray(e) != nil {
		return &Addr{K: aArr, T: e, Ref: p.S}
	}
	return &Addr{K: aCell, T: e, Heap: "C_" + typeKey(e), Ref: p.S}
}

func arrSort(s string) string { return "(Array Int " + s + ")" }

func (vc *VC) load(st *State, p *Val) *Val {
	t := deref(p.T)
	if p.K == kScalar && isStructLike(t) {
		return vc.loadStruct(st, t, p.S)
	}
	a := vc.toAddr(p)
	switch a.K {
	case aLocal:
		v, ok := st.locals[a.ID]
		if !ok {
			panic(unsup("uninitialised local"))
		}
		return v
	case aGlobal:
		if a.Const != nil {
			if isByteSlice(t) {
				// read-only bytes: a copy of their own at every use is the same thing
				return vc.convert(st, vc.constVal(a.Const), a.Const.Type(), t)
			}
			return vc.constVal(a.Const)
		}
		var ts []string
		for _, l := range flatLeaves(t) {
			ts = append(ts, vc.getHeap(st, a.Heap+l.suf, l.sort))
		}
		v, _ := unflatten(t, ts)
		vc.typeFacts(st, v)
		return v
	case aField, aCell:
		var ts []string
		for _, l := range leavesOf(t) {
			ts = append(ts, vc.sel(vc.getHeap(st, a.Heap+l.suf, arrSort(l.sort)), a.Ref))
		}
		v, _ := unflatten(t, ts)
		vc.typeFacts(st, v)
		return v
	case aElem:
		var ts []string
		for _, l := range leavesOf(t) {
			ts = append(ts, vc.sel(vc.sel(vc.getHeap(st, a.Heap+l.suf, arrSort(arrSort(l.sort))), a.Ref), a.Idx))
		}
		v, _ := unflatten(t, ts)
		vc.typeFacts(st, v)
		return v
	case aArr:
		at := isArray(t)
		ls := leavesOf(at.Elem())
		if isStructLike(at.Elem()) || len(ls) != 1 {
			return scalar(t, vc.fresh("arr", "Int"))
		}
		return scalar(t, vc.sel(vc.getHeap(st, elemHeapOf(at.Elem())+ls[0].suf, arrSort(arrSort(ls[0].sort))), a.Ref))
	}
	panic(unsup("load"))
}

func (vc *VC) loadStruct(st *State, t types.Type, ref string) *Val {
	s := structOf(t)
	v := &Val{K: kStruct, T: t}
	for i := 0; i < s.NumFields(); i++ {
		v.Fs = append(v.Fs, vc.load(st, vc.fieldAddr(t, ref, i)))
	}
	return v
}

func (vc *VC) store(st *State, p *Val, v *Val, what string) {
	t := deref(p.T)
	if p.K == kScalar && isStructLike(t) {
		s := structOf(t)
		if v.K == kPoison {
			panic(unsup("%s", v.Msg))
		}
		for i := 0; i < s.NumFields(); i++ {
			vc.store(st, vc.fieldAddr(t, p.S, i), v.Fs[i], what)
		}
		return
	}
	a := vc.toAddr(p)
	if a.K != aLocal {
		vc.escape(v)
	}
	switch a.K {
	case aLocal:
		vc.setLocal(st, a.ID, v)
	case aGlobal:
		ts := flatten(v)
		for i, l := range flatLeaves(t) {
			vc.frameCheck(st, a.Heap+l.suf, "0", what)
			vc.setHeap(st, a.Heap+l.suf, l.sort, ts[i], "0")
		}
	case aField, aCell:
		ts := flatten(v)
		for i, l := range leavesOf(t) {
			h := vc.getHeap(st, a.Heap+l.suf, arrSort(l.sort))
			if i == 0 {
				vc.frameCheck(st, a.Heap+l.suf, a.Ref, what)
			}
			vc.setHeap(st, a.Heap+l.suf, arrSort(l.sort), app("store", h, a.Ref, ts[i]), a.Ref)
		}
	case aElem:
		ts := flatten(v)
		for i, l := range leavesOf(t) {
			srt := arrSort(arrSort(l.sort))
			h := vc.getHeap(st, a.Heap+l.suf, srt)
			if i == 0 {
				vc.frameCheck(st, a.Heap+l.suf, a.Ref, what)
			}
			na := vc.define("A", arrSort(l.sort), app("store", vc.sel(h, a.Ref), a.Idx, ts[i]))
			vc.setHeap(st, a.Heap+l.suf, srt, app("store", h, a.Ref, na), a.Ref)
			vc.homStoreElem(st, a, l, vc.sel(h, a.Ref), na, a.Idx)
		}
	case aArr:
		at := isArray(t)
		ls := leavesOf(at.Elem())
		if isStructLike(at.Elem()) || len(ls) != 1 {
			panic(unsup("store of array of %s", at.Elem()))
		}
		hn := elemHeapOf(at.Elem()) + ls[0].suf
		srt := arrSort(arrSort(ls[0].sort))
		h := vc.getHeap(st, hn, srt)
		vc.frameCheck(st, hn, a.Ref, what)
		vc.setHeap(st, hn, srt, app("store", h, a.Ref, v.S), a.Ref)
	}
}

// escape: a closure that is stored or passed away must not write captured locals
func (vc *VC) escape(v *Val) {
	if v == nil || v.Clo == nil {
		return
	}
	if v.Clo.Fn == nil {
		return
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fv, ok := s.Addr.(*ssa.FreeVar); ok {
						for i, x := range v.Clo.Fn.FreeVars {
							if x == fv && i < len(v.Clo.Bindings) && v.Clo.Bindings[i].K == kAddr && v.Clo.Bindings[i].A.K == aLocal {
								panic(unsup("escaping closure %s writes captured variable %s", f.Name(), fv.Name()))
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(v.Clo.Fn)
}

// frameCheck: the write target must be fresh or listed in the modifies clause
func (vc *VC) frameCheck(st *State, heap, ref, what string) {
	if !vc.checkOn("frame") || vc.fs == nil || vc.quiet > 0 {
		return
	}
	if vc.modAny[heap] || vc.modAny["*"] {
		return
	}
	if vc.allowed[heap] != nil && vc.allowed[heap][ref] {
		return
	}
	if ref == "*" {
		vc.oblig(st, "frame", what+" ["+heap+"]", "false")
		return
	}
	gs := []string{fmt.Sprintf("(>= (root %s) %s)", ref, vc.old.next)}
	if heap[0] == 'G' {
		gs = nil
	}
	for r := range vc.allowed[heap] {
		gs = append(gs, eq(ref, r))
	}
	sort.Strings(gs)
	vc.oblig(st, "frame", what+" ["+heap+"]", or(gs...))
}

// typeFacts: well-typedness facts about values read from memory / havocked
func (vc *VC) typeFacts(st *State, v *Val) {
	if v == nil || v.K == kPoison {
		return
	}
	switch v.K {
	case kStruct, kTuple:
		for _, f := range v.Fs {
			vc.typeFacts(st, f)
		}
	case kSlice:
		key := "sl " + strings.Join(v.Sl[:], " ") + st.next + st.guard
		if vc.aliveN[key] {
			return
		}
		vc.aliveN[key] = true
		b, o, l, c := v.Sl[0], v.Sl[1], v.Sl[2], v.Sl[3]
		vc.assume(st.guard, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= 0 %s) (< (root %s) %s) (<= (+ %s %s) 4611686018427387904) (=> (= %s 0) (= %s 0)))", l, l, c, o, b, st.next, o, c, b, c))
	case kScalar:
		if v.T == nil {
			return
		}
		key := "sc " + v.S + " " + st.next + st.guard
		if vc.aliveN[key] {
			return
		}
		vc.aliveN[key] = true
		if lo, hi, ok := intRange(v.T); ok {
			if isNum(v.S) {
				return
			}
			vc.assume(st.guard, fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, v.S, v.S, hi))
			return
		}
		switch v.T.Underlying().(type) {
		case *types.Pointer, *types.Map:
			vc.assume(st.guard, fmt.Sprintf("(< (root %s) %s)", v.S, st.next))
		case *types.Basic:
			if leavesOf(v.T)[0].sort == "Str" {
				vc.assume(st.guard, fmt.Sprintf("(<= 0 (slen %s) 4611686018427387904)", v.S))
			}
		}
	}
}

// newRef allocates a fresh reference
func (vc *VC) newRef(st *State) string {
	r := vc.fresh("ref", "Int")
	vc.assume("true", fmt.Sprintf("(and (= %s %s) (= (root %s) %s) (= (skind %s) 0))", r, st.next, r, r, r))
	st.next = vc.define("next", "Int", fmt.Sprintf("(+ %s 1)", r))
	for _, rc := range vc.recs {
		rc.next = true
	}
	return r
}

func (vc *VC) freshVal(st *State, t types.Type, p string) *Val {
	var ts []string
	for _, l := range flatT(t) {
		ts = append(ts, vc.fresh(p+l.suf, l.sort))
	}
	v, _ := unflatten(t, ts)
	vc.typeFacts(st, v)
	return v
}

// ---------- strings ----------

func (vc *VC) strConst(s string) string {
	if s == "" {
		return "str_empty"
	}
	if n, ok := vc.strs[s]; ok {
		return n
	}
	nm := fmt.Sprintf("str_%d_%s", len(vc.strs), sane(trunc(s, 12)))
	vc.strs[s] = nm
	vc.gdecl = append(vc.gdecl, fmt.Sprintf("(declare-const %s Str)", nm))
	var b strings.Builder
	fmt.Fprintf(&b, "(assert (and (= (slen %s) %d)", nm, len(s))
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&b, " (= (sat %s %d) %d)", nm, i, s[i])
		}
	}
	b.WriteString("))")
	vc.gdecl = append(vc.gdecl, b.String())
	return nm
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (vc *VC) strEq(a, b string) string {
	if a == b {
		return "true"
	}
	key := "seq " + a + " " + b
	if !vc.aliveN[key] {
		vc.aliveN[key] = true
		vc.emit('a', fmt.Sprintf("(or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 (sdiff %s %s)) (< (sdiff %s %s) (slen %s)) (not (= (sat %s (sdiff %s %s)) (sat %s (sdiff %s %s))))))", a, b, a, b, a, b, a, b, a, a, a, b, b, a, b))
	}
	return eq(a, b)
}

// newStr introduces a string with given length and content function (i -> term)
func (vc *VC) newStr(st *State, length string, content func(i string) string) string {
	s := vc.fresh("s", "Str")
	vc.assume(st.guard, fmt.Sprintf("(= (slen %s) %s)", s, length))
	if content != nil {
		vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (sat %s i) %s)) :pattern ((sat %s i))))", length, s, content("i"), s))
	}
	return s
}

func (vc *VC) sat(s, i string) string {
	t := app("sat", s, i)
	key := "satr " + t
	if !vc.aliveN[key] && !strings.Contains(t, "?") {
		vc.aliveN[key] = true
		vc.emit('a', fmt.Sprintf("(and (<= 0 %s) (<= %s 255))", t, t))
	}
	return t
}

// ---------- constants ----------

func (vc *VC) constVal(c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return scalar(t, "true")
		}
		return scalar(t, "false")
	case constant.String:
		return scalar(t, vc.strConst(constant.StringVal(c.Value)))
	case constant.Int:
		if leavesOf(t)[0].sort == "Flt" {
			return scalar(t, vc.fltConst(c.Value.ExactString()))
		}
		return scalar(t, numTerm(c.Value.ExactString()))
	case constant.Float:
		if leavesOf(t)[0].sort == "Int" {
			return scalar(t, numTerm(constant.ToInt(c.Value).ExactString()))
		}
		return scalar(t, vc.fltConst(c.Value.ExactString()))
	}
	panic(unsup("constant %s", c))
}

func (vc *VC) fltConst(s string) string {
	if s == "0" {
		return "flt_zero"
	}
	nm := "flt_" + sane(s)
	vc.gdeclare(nm, fmt.Sprintf("(declare-const %s Flt)", nm))
	return nm
}

func numTerm(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

// ---------- source snippets ----------

func (vc *VC) snippet(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	p := vc.E.prog.Fset.Position(pos)
	ls, ok := vc.E.srcs[p.Filename]
	if !ok {
		d, _ := os.ReadFile(p.Filename)
		ls = strings.Split(string(d), "\n")
		vc.E.srcs[p.Filename] = ls
	}
	if p.Line-1 < len(ls) {
		return trunc(strings.Join(strings.Fields(ls[p.Line-1]), " "), 90)
	}
	return "?"
}

// ---------- frames, values ----------

func (vc *VC) val(fr *Frame, st *State, v ssa.Value) *Val {
	switch x := v.(type) {
	case *ssa.Const:
		return vc.constVal(x)
	case *ssa.Global:
		t := deref(x.Type())
		if isStructLike(t) {
			nm := "gref_" + sane(x.String())
			vc.gdeclare(nm, fmt.Sprintf("(declare-const %s Int)\n(assert (and (> %s 0) (= (root %s) %s) (< %s next!0) (= (skind %s) 0)))", nm, nm, nm, nm, nm, nm))
			return scalar(x.Type(), nm)
		}
		if isArray(t) != nil {
			nm := "gref_" + sane(x.String())
			vc.gdeclare(nm, fmt.Sprintf("(declare-const %s Int)\n(assert (and (> %s 0) (= (root %s) %s) (< %s next!0) (= (skind %s) 0)))", nm, nm, nm, nm, nm, nm))
			return &Val{K: kAddr, T: x.Type(), A: &Addr{K: aArr, T: t, Ref: nm}}
		}
		return &Val{K: kAddr, T: x.Type(), A: &Addr{K: aGlobal, T: t, Heap: "G_" + sane(shortName(x.String())), Const: vc.E.constGlobal(x)}}
	case *ssa.Function:
		nm := "fn_" + sane(shortName(x.String()))
		vc.gdeclare(nm, fmt.Sprintf("(declare-const %s Int)\n(assert (not (= %s 0)))", nm, nm))
		return &Val{K: kScalar, T: x.Type(), S: nm, Clo: &Closure{Fn: x}}
	case *ssa.Builtin:
		panic(unsup("builtin value"))
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsup("value %s (%s) not in environment of %s", v.Name(), v, fr.fn))
}

// constGlobal: the constant an unexported global of the repository always holds: it is stored once, by the
// initialiser of its package, and nothing else takes its address
func (e *Engine) constGlobal(g *ssa.Global) *ssa.Const {
	if e.consts == nil {
		e.consts = map[*ssa.Global]*ssa.Const{}
		bad := map[*ssa.Global]bool{}
		for f := range ssautil.AllFunctions(e.prog) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch x := in.(type) {
						case *ssa.UnOp:
							if isByteSlice(x.Type()) && !readOnlyBytes(x, map[ssa.Value]bool{}) {
								bad[g] = true
							}
						case *ssa.DebugRef:
						case *ssa.Store:
							c, isC := x.Val.(*ssa.Const)
							if cv, ok := x.Val.(*ssa.Convert); ok && isByteSlice(cv.Type()) && usedOnce(cv) {
								c, isC = cv.X.(*ssa.Const)
							}
							if !isC || x.Addr != g || f.Synthetic != "package initializer" || e.consts[g] != nil {
								bad[g] = true
								continue
							}
							e.consts[g] = c
						default:
							bad[g] = true
						}
					}
				}
			}
		}
		for g := range e.consts {
			if bad[g] || g.Pkg == nil || !isRepoPkg(g.Pkg.Pkg) || g.Object() == nil || g.Object().Exported() {
				delete(e.consts, g)
			}
		}
	}
	return e.consts[g]
}

func usedOnce(v ssa.Value) bool {
	n := 0
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			n++
		}
	}
	return n == 1
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// readOnlyBytes: the bytes of the slice are only read, and the slice is not kept
func readOnlyBytes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.Range, *ssa.If:
		case *ssa.IndexAddr:
			for _, u := range *x.Referrers() {
				if _, ok := u.(*ssa.UnOp); !ok {
					return false
				}
			}
		case *ssa.Convert:
			if b, ok := x.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
				return false
			}
		case *ssa.Call:
			c := x.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				if b.Name() == "len" || (b.Name() == "append" || b.Name() == "copy") && len(c.Args) == 2 && c.Args[0] != v {
					continue
				}
				return false
			}
			f := c.StaticCallee()
			if f == nil || f.Blocks == nil {
				return false
			}
			for i, a := range c.Args {
				if a == v && !readOnlyBytes(f.Params[i], seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func simpleAlloc(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return true
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != a || x.Val == a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			f := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == a {
					if !simpleAlloc(f.FreeVars[i], seen) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func (vc *VC) newLocal() int { vc.nlocal++; return vc.nlocal }

func (vc *VC) alloc(fr *Frame, st *State, a *ssa.Alloc) *Val {
	t := deref(a.Type())
	if isStructLike(t) {
		ref := vc.newRef(st)
		p := scalar(a.Type(), ref)
		vc.zeroInit(st, t, ref)
		return p
	}
	if isArray(t) != nil {
		ref := vc.newRef(st)
		vc.zeroArr(st, t, ref)
		return &Val{K: kAddr, T: a.Type(), A: &Addr{K: aArr, T: t, Ref: ref}}
	}
	if simpleAlloc(a, map[ssa.Value]bool{}) {
		id, ok := fr.allocs[a]
		if !ok {
			id = vc.newLocal()
			fr.allocs[a] = id
		}
		vc.setLocal(st, id, zeroVal(t))
		return &Val{K: kAddr, T: a.Type(), A: &Addr{K: aLocal, T: t, ID: id}}
	}
	ref := vc.newRef(st)
	p := &Val{K: kAddr, T: a.Type(), A: &Addr{K: aCell, T: t, Heap: "C_" + typeKey(t), Ref: ref}}
	vc.quietFrame(func() { vc.store(st, p, zeroVal(t), "alloc") })
	return p
}

func (vc *VC) quietFrame(f func()) { vc.quiet++; f(); vc.quiet-- }

func (vc *VC) zeroInit(st *State, t types.Type, ref string) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fa := vc.fieldAddr(t, ref, i)
		if isStructLike(ft) {
			vc.zeroInit(st, ft, fa.S)
		} else if isArray(ft) != nil {
			vc.zeroArr(st, ft, fa.A.Ref)
		} else {
			vc.quietFrame(func() { vc.store(st, fa, zeroVal(ft), "alloc") })
		}
	}
}

func (vc *VC) zeroArr(st *State, t types.Type, ref string) {
	e := isArray(t).Elem()
	if isStructLike(e) || isArray(e) != nil {
		return // contents left unknown (over-approximation)
	}
	for _, l := range leavesOf(e) {
		srt := arrSort(arrSort(l.sort))
		hn := elemHeapOf(e) + l.suf
		h := vc.getHeap(st, hn, srt)
		vc.setHeap(st, hn, srt, app("store", h, ref, zeroTerm(arrSort(l.sort))), ref)
	}
}

// ---------- merging ----------

func (vc *VC) mergeVals(gs []string, vs []*Val, p string) *Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	var t types.Type
	for _, v := range vs {
		if v.K == kPoison {
			return v
		}
		if v.T != nil {
			t = v.T
		}
	}
	var fl [][]string
	bad := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					bad = u.msg
					return
				}
				panic(r)
			}
		}()
		for _, v := range vs {
			fl = append(fl, flatten(v))
		}
	}()
	if bad != "" || t == nil {
		return &Val{K: kPoison, T: t, Msg: "merge of distinct addresses: " + bad}
	}
	ls := flatT(t)
	var ts []string
	for i := range ls {
		x := fl[len(fl)-1][i]
		for j := len(fl) - 2; j >= 0; j-- {
			x = ite(gs[j], fl[j][i], x)
		}
		ts = append(ts, vc.define(p+ls[i].suf, ls[i].sort, x))
	}
	r, _ := unflatten(t, ts)
	return r
}

func sameVal(a, b *Val) bool {
	if a == b {
		return true
	}
	if a.K != b.K || len(a.Fs) != len(b.Fs) {
		return false
	}
	switch a.K {
	case kScalar:
		return a.S == b.S && a.Clo == b.Clo
	case kSlice:
		return a.Sl == b.Sl
	case kAddr:
		x, y := a.A, b.A
		return x.K == y.K && x.ID == y.ID && x.Heap == y.Heap && x.Ref == y.Ref && x.Idx == y.Idx
	case kStruct, kTuple:
		for i := range a.Fs {
			if !sameVal(a.Fs[i], b.Fs[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// mergePoint remembers where paths were joined; exactly one of the guards holds on a path through it
type mergePoint struct {
	gs []string
	at int
}

func (vc *VC) mergeStates(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s.guard != "false" {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		s := sts[0].clone()
		s.guard = "false"
		return s
	}
	if len(live) == 1 {
		return live[0].clone()
	}
	n := live[0].clone()
	var gs []string
	for _, s := range live {
		gs = append(gs, s.guard)
	}
	n.guard = vc.define("g", "Bool", or(gs...))
	vc.merges = append(vc.merges, mergePoint{gs, len(vc.items)})
	names := map[string]bool{}
	for _, s := range live {
		for h := range s.heaps {
			names[h] = true
		}
		if s.epoch != live[0].epoch {
			n.epoch = ""
			for h := range vc.heapS {
				names[h] = true
			}
		}
	}
	for _, s := range live {
		if s.epoch != live[0].epoch {
			vc.n++
			n.epoch = fmt.Sprintf("e%d", vc.n)
		}
	}
	for _, h := range sortedKeys(names) {
		var ts []string
		for _, s := range live {
			ts = append(ts, vc.getHeap(s, h, vc.heapS[h]))
		}
		n.heaps[h] = vc.mergeTerm(h, vc.heapS[h], gs, ts)
	}
	x := live[len(live)-1].next
	for j := len(live) - 2; j >= 0; j-- {
		x = ite(gs[j], live[j].next, x)
	}
	n.next = vc.define("next", "Int", x)
	ids := map[int]bool{}
	for _, s := range live {
		for i := range s.locals {
			ids[i] = true
		}
	}
	for id := range ids {
		var vs []*Val
		var g2 []string
		for i, s := range live {
			if v, ok := s.locals[id]; ok {
				vs = append(vs, v)
				g2 = append(g2, gs[i])
			}
		}
		n.locals[id] = vc.mergeVals(g2, vs, "loc")
	}
	return n
}

func sortedKeys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// ---------- loops ----------

type loopInfo struct {
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func analyzeLoops(f *ssa.Function) *loopInfo {
	li := &loopInfo{order: map[*ssa.BasicBlock]int{}, headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.order[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.headers[s] = body
				}
				var stack = []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			} else if li.order[s] <= li.order[b] {
				panic(unsup("irreducible control flow in %s", f))
			}
		}
	}
	return li
}

type loopCtx struct {
	name  string
	cands []*Cand
	exprs []candExpr
	hdr   *State
	// decreases candidates
	dec  []*Cand
	decE []candExpr
	decV [][]string
	pre  *State
}
type candExpr struct {
	c     Clause
	holes map[string]ssa.Value
	raw   func(st *State, fr *Frame) (string, error)
	text  string
}

type havocSpec struct {
	all    bool
	heaps  map[string]map[string]bool
	locals map[int]bool
	next   bool
}

func (vc *VC) execRegion(fr *Frame, blocks []*ssa.BasicBlock, skipHeader *ssa.BasicBlock) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		if done[b] {
			continue
		}
		body, isH := fr.loops.headers[b]
		if isH && b != skipHeader {
			var bl []*ssa.BasicBlock
			for _, x := range fr.loops.rpo {
				if body[x] {
					bl = append(bl, x)
					done[x] = true
				}
			}
			vc.execLoop(fr, b, bl)
			continue
		}
		done[b] = true
		if b == skipHeader {
			vc.execInstrs(fr, b, fr.loopCtx[b].hdr.clone())
			continue
		}
		es := fr.in[b]
		if len(es) == 0 && b != fr.fn.Blocks[0] {
			continue
		}
		st := vc.enterBlock(fr, b, es)
		if st == nil {
			continue
		}
		vc.execInstrs(fr, b, st)
	}
}

func (vc *VC) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) *State {
	var sts []*State
	for _, e := range es {
		sts = append(sts, e.st)
	}
	st := vc.mergeStates(sts)
	if st.guard == "false" {
		return nil
	}
	// phis
	phis := map[*ssa.Phi]*Val{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var gs []string
		var vs []*Val
		for _, e := range es {
			if e.st.guard == "false" {
				continue
			}
			gs = append(gs, e.st.guard)
			vs = append(vs, vc.phiVal(fr, e, b, ph))
		}
		phis[ph] = vc.mergeVals(gs, vs, ph.Comment)
	}
	for p, v := range phis {
		fr.env[p] = v
	}
	return st
}

func (vc *VC) phiVal(fr *Frame, e edge, b *ssa.BasicBlock, ph *ssa.Phi) *Val {
	for i, p := range b.Preds {
		if p == e.pred {
			return vc.val(fr, e.st, ph.Edges[i])
		}
	}
	panic("phi edge")
}

func (vc *VC) execLoop(fr *Frame, h *ssa.BasicBlock, blocks []*ssa.BasicBlock) {
	es := fr.in[h]
	if len(es) == 0 {
		return
	}
	delete(fr.in, h)
	pre := vc.enterBlock(fr, h, es)
	if pre == nil {
		return
	}
	body := fr.loops.headers[h]
	// values of the header phis at entry
	entryPhi := map[*ssa.Phi]*Val{}
	for _, in := range h.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			entryPhi[ph] = fr.env[ph]
		}
	}
	hs := &havocSpec{heaps: map[string]map[string]bool{}, locals: map[int]bool{}}
	savedItems := len(vc.items)
	savedRets := len(fr.rets)
	savedCands := len(vc.cands)
	savedGroups := len(vc.groups)
	savedNames := map[string]int{}
	for k, v := range vc.obNames {
		savedNames[k] = v
	}
	savedAlive := copyBool(vc.aliveN)
	savedIn := map[*ssa.BasicBlock]int{}
	for b, l := range fr.in {
		savedIn[b] = len(l)
	}
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsup("loop effect analysis does not stabilise"))
		}
		vc.items = vc.items[:savedItems]
		for n := len(vc.harrAt); n > 0 && vc.harrAt[n-1].at > savedItems; n-- {
			vc.harrAt = vc.harrAt[:n-1]
		}
		fr.rets = fr.rets[:savedRets]
		vc.cands = vc.cands[:savedCands]
		vc.groups = vc.groups[:savedGroups]
		vc.obNames = map[string]int{}
		for k, v := range savedNames {
			vc.obNames[k] = v
		}
		vc.aliveN = copyBool(savedAlive)
		for b := range fr.in {
			fr.in[b] = fr.in[b][:savedIn[b]]
		}
		start := vc.n
		st := pre.clone()
		lc := &loopCtx{pre: pre}
		lc.name = fmt.Sprintf("loop@%s", vc.snippet(loopPos(h)))
		fr.loopCtx[h] = lc
		// candidates evaluated at entry
		for ph, v := range entryPhi {
			fr.env[ph] = v
		}
		vc.loopCandidates(fr, h, lc, hs)
		for i, ce := range lc.exprs {
			vc.candGoal(fr, lc, lc.cands[i], ce, pre, pre, "entry")
		}
		// havoc
		if hs.all {
			vc.havocAll(st)
		}
		for _, hn := range sortedKeysM(hs.heaps) {
			refs := hs.heaps[hn]
			srt := vc.heapS[hn]
			if refs["*"] || hn[0] == 'G' {
				st.heaps[hn] = vc.fresh(hn, srt)
			} else {
				el := srt[len("(Array Int ") : len(srt)-1]
				for _, r := range sortedKeys(refs) {
					cur := vc.getHeap(st, hn, srt)
					st.heaps[hn] = vc.define(hn, srt, app("store", cur, r, vc.fresh(hn+"_h", el)))
				}
			}
		}
		if hs.next {
			nn := vc.fresh("next", "Int")
			vc.assume("true", fmt.Sprintf("(>= %s %s)", nn, st.next))
			st.next = nn
		}
		for id := range hs.locals {
			if v, ok := st.locals[id]; ok {
				if v.K == kIter {
					continue
				}
				st.locals[id] = vc.havocLike(st, v, fmt.Sprintf("loc%d", id))
			}
		}
		st.guard = vc.fresh("g", "Bool")
		vc.emit('a', imp(st.guard, pre.guard))
		for ph := range entryPhi {
			nm := ph.Comment
			if nm == "" {
				nm = ph.Name()
			}
			fr.env[ph] = vc.havocLike(st, typed(entryPhi[ph], ph.Type()), nm)
		}
		lc.hdr = st
		for i, ce := range lc.exprs {
			f, err := vc.evalCand(fr, lc, ce, st, pre)
			if err != nil {
				continue
			}
			c := lc.cands[i]
			vc.emit('a', imp(and(c.Act, st.guard), f))
		}
		vc.decAtHeader(fr, h, lc, st)
		rec := &recorder{start: start, heaps: map[string]map[string]bool{}, locals: map[int]bool{}}
		vc.recs = append(vc.recs, rec)
		vc.execRegion(fr, blocks, h)
		// back edges
		back := fr.in[h]
		delete(fr.in, h)
		vc.recs = vc.recs[:len(vc.recs)-1]
		grown := false
		for hn, refs := range rec.heaps {
			cur := hs.heaps[hn]
			if cur == nil {
				cur = map[string]bool{}
				hs.heaps[hn] = cur
				grown = true
			}
			if cur["*"] {
				continue
			}
			for r := range refs {
				if !cur[r] {
					cur[r] = true
					grown = true
				}
			}
			if len(cur) > 6 {
				cur["*"] = true
			}
		}
		for id := range rec.locals {
			if !hs.locals[id] {
				hs.locals[id] = true
				if _, ok := pre.locals[id]; ok {
					grown = true
				}
			}
		}
		if rec.all && !hs.all {
			hs.all = true
			grown = true
		}
		if rec.next && !hs.next {
			hs.next = true
			grown = true
		}
		if grown {
			continue
		}
		// propagate records outward
		if rec.all {
			for _, r := range vc.recs {
				r.all = true
			}
		}
		for hn, refs := range rec.heaps {
			for r := range refs {
				vc.recordWrite(hn, r)
			}
		}
		// preservation
		for _, e := range back {
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				_ = ph
			}
			vals := map[*ssa.Phi]*Val{}
			saved := map[*ssa.Phi]*Val{}
			for ph := range entryPhi {
				vals[ph] = vc.phiVal(fr, e, h, ph)
				saved[ph] = fr.env[ph]
			}
			for ph, v := range vals {
				fr.env[ph] = v
			}
			for i, ce := range lc.exprs {
				vc.candGoal(fr, lc, lc.cands[i], ce, e.st, pre, "preserved")
			}
			vc.decAtBack(fr, lc, e.st)
			for ph, v := range saved {
				fr.env[ph] = v
			}
		}
		_ = body
		return
	}
}

func typed(v *Val, t types.Type) *Val {
	if v.K == kScalar && v.T == nil {
		c := *v
		c.T = t
		return &c
	}
	return v
}

func copyBool(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func sortedKeysM(m map[string]map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (vc *VC) havocLike(st *State, v *Val, p string) *Val {
	switch v.K {
	case kAddr:
		if v.A.K == aCell || v.A.K == aArr {
			return vc.freshVal(st, v.T, p)
		}
		return &Val{K: kPoison, T: v.T, Msg: "address modified in loop"}
	case kPoison:
		if v.T != nil {
			return vc.freshVal(st, v.T, p)
		}
		return v
	case kIter:
		return v
	}
	return vc.freshVal(st, v.T, p)
}

// candGoal adds a Houdini goal for candidate c
func (vc *VC) candGoal(fr *Frame, lc *loopCtx, c *Cand, ce candExpr, st *State, pre *State, what string) {
	f, err := vc.evalCand(fr, lc, ce, st, pre)
	if err != nil {
		f = "false"
		c.Alive = false
	}
	if f == "true" {
		return
	}
	o := &Obl{Name: vc.name + " | inv-" + what + " | " + c.Loop + " | " + c.Text, Kind: "inv", Guard: st.guard, Goal: f, Cand: c}
	c.Goals = append(c.Goals, o)
	vc.items = append(vc.items, Item{K: 'o', O: o})
}

func bigPow(n int) string { return new(big.Int).Lsh(big.NewInt(1), uint(n)).String() }

func shortName(s string) string {
	s = rePath.ReplaceAllString(s, "$1")
	return s
}

var rePath = regexp.MustCompile(`(?:[A-Za-z0-9_.\-]+/)+([A-Za-z0-9_]+)`)
