package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pureDefaultPkgs = map[string]bool{"strings": true, "bytes": true, "strconv": true, "unicode": true, "utf8": true, "utf16": true, "errors": true, "fmt": true, "math": true, "sort": true, "time": true, "log": true, "hash": true, "fnv": true, "bits": true, "slices": true, "maps": true}

func (vc *VC) call(fr *Frame, st *State, c *ssa.CallCommon, rt types.Type, snip string, instr ssa.Value) *Val {
	var args []*Val
	if c.IsInvoke() {
		recv := vc.val(fr, st, c.Value)
		if recv.K == kPoison {
			panic(unsup("%s", recv.Msg))
		}
		vc.check(st, "nil", snip, not(eq(recv.S, "0")))
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, vc.val(fr, st, a))
		}
		name := ifaceMethodName(c)
		return vc.callNamed(fr, st, name, nil, args, rt, snip)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, vc.val(fr, st, a))
		}
		return vc.builtin(fr, st, b.Name(), args, rt, snip, c)
	}
	for _, a := range c.Args {
		args = append(args, vc.val(fr, st, a))
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cv := vc.val(fr, st, mc)
			return vc.callFn(fr, st, f, cv.Clo.Bindings, args, rt, snip)
		}
		return vc.callFn(fr, st, f, nil, args, rt, snip)
	}
	fv := vc.val(fr, st, c.Value)
	if fv.K == kPoison {
		panic(unsup("%s", fv.Msg))
	}
	if fv.Clo != nil {
		return vc.callFn(fr, st, fv.Clo.Fn, fv.Clo.Bindings, args, rt, snip)
	}
	vc.check(st, "nilfunc", snip, not(eq(fv.S, "0")))
	nm := "dyncall"
	if p, ok := c.Value.(*ssa.Parameter); ok {
		nm = shortName(fr.fn.String()) + "." + p.Name()
	}
	if fs := vc.sp.Fns["dyncall"]; fs != nil {
		_ = fs
	}
	return vc.callNamed(fr, st, nm, nil, args, rt, snip)
}

func ifaceMethodName(c *ssa.CallCommon) string {
	return shortName(c.Method.FullName())
}

func (vc *VC) callFn(fr *Frame, st *State, f *ssa.Function, bindings []*Val, args []*Val, rt types.Type, snip string) *Val {
	name := shortName(f.String())
	fs := vc.sp.Fns[name]
	if fs != nil && !fs.Inline {
		fs.Used = true
		vc.passClosures(fr, st, fs, args, snip)
		return vc.callContract(fr, st, fs, f, name, args, rt, snip)
	}
	isRepo := f.Pkg != nil && isRepoPkg(f.Pkg.Pkg) || f.Parent() != nil && f.Parent().Pkg != nil && isRepoPkg(f.Parent().Pkg.Pkg)
	if f.Blocks == nil || !isRepo {
		// method value wrappers etc. have blocks but no package: inline when synthetic
		if f.Blocks != nil && f.Pkg == nil && f.Synthetic != "" && f.Parent() == nil && (strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "wrapper")) {
			return vc.inline(fr, st, f, bindings, args, rt, snip)
		}
		return vc.callNamed(fr, st, name, f, args, rt, snip)
	}
	if vc.sp.Havoc[name] || vc.sp.PureM[name] {
		return vc.callNamed(fr, st, name, f, args, rt, snip)
	}
	return vc.inline(fr, st, f, bindings, args, rt, snip)
}

func (vc *VC) inline(fr *Frame, st *State, f *ssa.Function, bindings []*Val, args []*Val, rt types.Type, snip string) *Val {
	for _, g := range vc.stack {
		if g == f {
			panic(unsup("recursive function %s needs a contract", f))
		}
	}
	if len(vc.stack) > 14 {
		panic(unsup("inlining too deep at %s", f))
	}
	vc.E.inlined[shortName(f.String())] = true
	vc.stack = append(vc.stack, f)
	defer func() { vc.stack = vc.stack[:len(vc.stack)-1] }()
	nf := newFrame(f, fr)
	for i, p := range f.Params {
		nf.env[p] = args[i]
	}
	for i, v := range f.FreeVars {
		nf.env[v] = bindings[i]
	}
	out, vals := vc.runFrame(nf, st.clone())
	if out == nil {
		// callee never returns
		vc.assume(st.guard, "false")
		st.guard = "false"
		return vc.junk(rt)
	}
	// adopt state in place
	*st = *out
	switch len(vals) {
	case 0:
		return &Val{K: kTuple, T: rt}
	case 1:
		return vals[0]
	}
	return &Val{K: kTuple, T: rt, Fs: vals}
}

func (vc *VC) junk(rt types.Type) *Val {
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		return &Val{K: kTuple, T: rt}
	}
	return zeroVal(rt)
}

func newFrame(f *ssa.Function, parent *Frame) *Frame {
	fr := &Frame{fn: f, env: map[ssa.Value]*Val{}, parent: parent, allocs: map[ssa.Value]int{}, in: map[*ssa.BasicBlock][]edge{}, loopCtx: map[*ssa.BasicBlock]*loopCtx{}}
	fr.loops = analyzeLoops(f)
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	return fr
}

func (vc *VC) runBody(fr *Frame, st *State) {
	entry := fr.fn.Blocks[0]
	if _, isH := fr.loops.headers[entry]; isH {
		panic(unsup("entry block is a loop header"))
	}
	fr.in[entry] = []edge{{nil, st}}
	vc.execRegion(fr, fr.loops.rpo, nil)
}

// runFrame executes the body; returns merged exit state and results
func (vc *VC) runFrame(fr *Frame, st *State) (*State, []*Val) {
	vc.runBody(fr, st)
	var sts []*State
	for _, r := range fr.rets {
		if r.st.guard != "false" {
			sts = append(sts, r.st)
		}
	}
	if len(sts) == 0 {
		return nil, nil
	}
	out := vc.mergeStates(sts)
	n := fr.fn.Signature.Results().Len()
	var vals []*Val
	for i := 0; i < n; i++ {
		var gs []string
		var vs []*Val
		for _, r := range fr.rets {
			if r.st.guard == "false" {
				continue
			}
			gs = append(gs, r.st.guard)
			vs = append(vs, typed(r.vals[i], fr.fn.Signature.Results().At(i).Type()))
		}
		vals = append(vals, vc.mergeVals(gs, vs, "ret"))
	}
	return out, vals
}

func (vc *VC) pureApp(st *State, name string, args []*Val, rt types.Type) *Val {
	var as, sorts []string
	for _, a := range args {
		switch a.K {
		case kSlice:
			e := a.T.Underlying().(*types.Slice).Elem()
			if !isStructLike(e) && isArray(e) == nil {
				for _, l := range leavesOf(e) {
					h := vc.getHeap(st, elemHeapOf(e)+l.suf, arrSort(arrSort(l.sort)))
					as = append(as, vc.sel(h, a.Sl[0]))
					sorts = append(sorts, arrSort(l.sort))
				}
			}
			as = append(as, a.Sl[1], a.Sl[2])
			sorts = append(sorts, "Int", "Int")
		default:
			if a.Clo != nil {
				continue
			}
			ts := flatten(a)
			as = append(as, ts...)
			for _, l := range flatT(a.T) {
				sorts = append(sorts, l.sort)
			}
		}
	}
	var ts []string
	for i, l := range flatT(rt) {
		f := fmt.Sprintf("pf_%s_%d", sane(name), i)
		if len(as) == 0 {
			vc.gdeclare(f, fmt.Sprintf("(declare-const %s %s)", f, l.sort))
			ts = append(ts, f)
			continue
		}
		key := f + strings.Join(sorts, "_")
		if !vc.gseen[key] && vc.gseen[f] {
			f = f + "_" + sane(strings.Join(sorts, ""))
		}
		vc.gseen[key] = true
		vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (%s) %s)", f, strings.Join(sorts, " "), l.sort))
		ts = append(ts, vc.define(sane(name), l.sort, app(f, as...)))
	}
	v, _ := unflatten(rt, ts)
	// results that are references must not depend on allocation: they may be any live reference
	vc.typeFacts(st, v)
	return v
}

// callNamed: function without a body in the repository (external, interface method, dynamic)
func (vc *VC) callNamed(fr *Frame, st *State, name string, f *ssa.Function, args []*Val, rt types.Type, snip string) *Val {
	vc.calls[name] = true
	vc.passClosures(fr, st, vc.sp.Fns[name], args, snip)
	if fs := vc.sp.Fns[name]; fs != nil {
		fs.Used = true
		return vc.callContract(fr, st, fs, f, name, args, rt, snip)
	}
	if vc.sp.PureM[name] {
		vc.E.assume["external "+name+": result is a function of its arguments, no side effects"] = true
		return vc.pureApp(st, name, args, rt)
	}
	if vc.sp.Havoc[name] {
		vc.E.assume["external "+name+": arbitrary result, no effect on modelled state"] = true
		return vc.freshResult(st, rt, name)
	}
	pkg := name
	pkg = strings.TrimLeft(pkg, "(*")
	if i := strings.Index(pkg, "."); i > 0 {
		pkg = pkg[:i]
	}
	if pureDefaultPkgs[pkg] {
		vc.E.assume["external "+name+": arbitrary result, no effect on modelled state (default for standard-library package "+pkg+")"] = true
		return vc.freshResult(st, rt, name)
	}
	if vc.sp.Opts["externals"] == "havoc" {
		vc.E.assume["external "+name+": arbitrary result, no effect on modelled state (default)"] = true
		return vc.freshResult(st, rt, name)
	}
	panic(unsup("call of %s without a contract", name))
}

func (vc *VC) freshResult(st *State, rt types.Type, name string) *Val {
	nn := vc.fresh("next", "Int")
	vc.assume("true", fmt.Sprintf("(>= %s %s)", nn, st.next))
	st.next = nn
	for _, rc := range vc.recs {
		rc.next = true
	}
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		return &Val{K: kTuple, T: rt}
	}
	return vc.freshVal(st, rt, "r")
}

func (vc *VC) callContract(fr *Frame, st *State, fs *FnSpec, f *ssa.Function, name string, args []*Val, rt types.Type, snip string) *Val {
	if f != nil {
		vc.calls[name] = true
	}
	sc := map[string]*Val{}
	for i, p := range fs.Params {
		if i < len(args) {
			sc[p] = args[i]
		} else {
			panic(unsup("contract of %s names %d parameters, call has %d", name, len(fs.Params), len(args)))
		}
	}
	if len(fs.Params) > 0 && len(args) != len(fs.Params) {
		panic(unsup("contract of %s names %d parameters, call has %d", name, len(fs.Params), len(args)))
	}
	pre := st.clone()
	// receiver non-nil
	if f != nil && f.Signature.Recv() != nil && !fs.Extern && len(args) > 0 && args[0].K == kScalar {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			vc.check(st, "nil", snip, not(eq(args[0].S, "0")))
		}
	}
	ev := &evalCtx{vc: vc, st: pre, old: pre, scope: sc, pkg: vc.pkgOf(f, fs)}
	for _, r := range append(append([]Clause{}, fs.Requires...), fs.AtCall...) {
		t := ev.boolTerm(r.E)
		if vc.checkOn("pre") {
			vc.oblig(st, "pre", name+": "+r.label()+" @ "+snip, t)
		}
		vc.assume(st.guard, t)
	}
	// termination
	if f != nil && vc.checkOn("decreases") && vc.quiet == 0 && vc.E.scc[f] != 0 && vc.E.scc[f] == vc.E.scc[vc.fn] {
		if len(fs.Decr) == 0 || len(vc.measure) == 0 {
			vc.oblig(st, "decreases", name+" has no termination measure @ "+snip, "false")
		} else {
			var m []string
			for _, d := range fs.Decr {
				m = append(m, ev.eval(d).S)
			}
			vc.oblig(st, "decreases", name+" @ "+snip, lexLess(m, vc.measure))
		}
	}
	vc.applyModifies(st, pre, fs, sc, ev, snip+" -> "+name)
	// allocation
	nn := vc.fresh("next", "Int")
	vc.assume("true", fmt.Sprintf("(>= %s %s)", nn, st.next))
	st.next = nn
	for _, rc := range vc.recs {
		rc.next = true
	}
	var res *Val
	if t, ok := rt.(*types.Tuple); ok && t.Len() == 0 {
		res = &Val{K: kTuple, T: rt}
	} else if fs.Opts["pure"] {
		res = vc.pureApp(pre, name, args, rt)
	} else {
		res = vc.freshVal(st, rt, "r")
	}
	if len(fs.Results) > 0 {
		if res.K == kTuple {
			for i, r := range fs.Results {
				if i < len(res.Fs) {
					sc[r] = res.Fs[i]
				}
			}
		} else {
			sc[fs.Results[0]] = res
		}
	}
	ev2 := &evalCtx{vc: vc, st: st, old: pre, scope: sc, pkg: ev.pkg, assuming: true}
	for _, e := range fs.Ensures {
		vc.assume(st.guard, ev2.boolTerm(e.E))
	}
	return res
}

func (c Clause) label() string {
	if c.Name != "" {
		return c.Name
	}
	return trunc(c.E.Src, 110)
}

func lexLess(a, b []string) string {
	var alts []string
	var eqs []string
	for i := range a {
		if i >= len(b) {
			break
		}
		alts = append(alts, and(append(append([]string{}, eqs...), fmt.Sprintf("(< %s %s)", a[i], b[i]), fmt.Sprintf("(<= 0 %s)", b[i]))...))
		eqs = append(eqs, eq(a[i], b[i]))
	}
	return or(alts...)
}

// modTargets evaluates a modifies clause to heap/ref pairs (ref "*" = any)
type modTarget struct{ heap, sort, ref string }

func (vc *VC) modTargets(ev *evalCtx, e *Expr) []modTarget {
	var out []modTarget
	var addFields func(t types.Type, ref string)
	addField := func(t types.Type, ref string, i int) {
		f := structOf(t).Field(i)
		if isStructLike(f.Type()) {
			addFields(f.Type(), vc.fieldAddr(t, ref, i).S)
			return
		}
		if a := isArray(f.Type()); a != nil {
			fa := vc.fieldAddr(t, ref, i)
			if !isStructLike(a.Elem()) {
				for _, l := range leavesOf(a.Elem()) {
					out = append(out, modTarget{elemHeapOf(a.Elem()) + l.suf, arrSort(arrSort(l.sort)), fa.A.Ref})
				}
			}
			return
		}
		for _, l := range leavesOf(f.Type()) {
			out = append(out, modTarget{fieldHeap(t, f.Name()) + l.suf, arrSort(l.sort), ref})
		}
	}
	addFields = func(t types.Type, ref string) {
		for i := 0; i < structOf(t).NumFields(); i++ {
			addField(t, ref, i)
		}
	}
	var anyFields func(t types.Type)
	anyFields = func(t types.Type) {
		s := structOf(t)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isStructLike(f.Type()) {
				anyFields(f.Type())
				continue
			}
			if a := isArray(f.Type()); a != nil {
				if !isStructLike(a.Elem()) {
					for _, l := range leavesOf(a.Elem()) {
						out = append(out, modTarget{elemHeapOf(a.Elem()) + l.suf, arrSort(arrSort(l.sort)), "*"})
					}
				}
				continue
			}
			for _, l := range leavesOf(f.Type()) {
				out = append(out, modTarget{fieldHeap(t, f.Name()) + l.suf, arrSort(l.sort), "*"})
			}
		}
	}
	switch e.Op {
	case "field":
		b := ev.eval(e.Args[0])
		t := b.T
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		i := fieldIndex(t, e.Name)
		if i < 0 {
			panic(unsup("modifies: no field %s in %s", e.Name, t))
		}
		addField(t, b.S, i)
	case "allfields":
		b := ev.eval(e.Args[0])
		addFields(deref(b.T), b.S)
	case "elems":
		b := ev.eval(e.Args[0])
		switch u := b.T.Underlying().(type) {
		case *types.Slice:
			if isStructLike(u.Elem()) {
				anyFields(u.Elem())
			} else {
				for _, l := range leavesOf(u.Elem()) {
					out = append(out, modTarget{elemHeapOf(u.Elem()) + l.suf, arrSort(arrSort(l.sort)), b.Sl[0]})
				}
			}
		case *types.Map:
			n := mapName(u)
			ks := mapKeySort(u)
			out = append(out, modTarget{"MH_" + n, "(Array Int (Array " + ks + " Bool))", b.S}, modTarget{"ML_" + n, "(Array Int Int)", b.S})
			for _, l := range flatLeaves(u.Elem()) {
				out = append(out, modTarget{"MV_" + n + l.suf, "(Array Int (Array " + ks + " " + l.sort + "))", b.S})
			}
		default:
			panic(unsup("modifies elements of %s", b.T))
		}
	case "deref":
		b := ev.eval(e.Args[0])
		t := deref(b.T)
		if isStructLike(t) {
			addFields(t, b.S)
			break
		}
		if b.K == kAddr && b.A.K == aField {
			for _, l := range leavesOf(t) {
				out = append(out, modTarget{b.A.Heap + l.suf, arrSort(l.sort), b.A.Ref})
			}
			break
		}
		if b.K == kAddr && b.A.K == aLocal {
			out = append(out, modTarget{"local", "", itoa(b.A.ID)})
			break
		}
		a := vc.toAddr(b)
		if a.K != aCell {
			panic(unsup("modifies deref of %v", a.K))
		}
		for _, l := range leavesOf(t) {
			out = append(out, modTarget{a.Heap + l.suf, arrSort(l.sort), a.Ref})
		}
	case "call":
		switch e.Name {
		case "all": // all(pkg.Type.field) or all(pkg.Type): every object
			x := e.Args[0]
			if x.Op == "field" && x.Args[0].Op == "field" {
				t := vc.typeByName(x.Args[0].Args[0].Name, x.Args[0].Name)
				i := fieldIndex(t, x.Name)
				f := structOf(t).Field(i)
				if isStructLike(f.Type()) {
					anyFields(f.Type())
				} else if a := isArray(f.Type()); a != nil {
					for _, l := range leavesOf(a.Elem()) {
						out = append(out, modTarget{elemHeapOf(a.Elem()) + l.suf, arrSort(arrSort(l.sort)), "*"})
					}
				} else {
					for _, l := range leavesOf(f.Type()) {
						out = append(out, modTarget{fieldHeap(t, f.Name()) + l.suf, arrSort(l.sort), "*"})
					}
				}
			} else {
				anyFields(vc.typeByName(x.Args[0].Name, x.Name))
			}
		case "allelems": // allelems(x): element heap of slice x at any base
			b := ev.eval(e.Args[0])
			u := b.T.Underlying().(*types.Slice)
			for _, l := range leavesOf(u.Elem()) {
				out = append(out, modTarget{elemHeapOf(u.Elem()) + l.suf, arrSort(arrSort(l.sort)), "*"})
			}
		case "everything":
			out = append(out, modTarget{"*", "", "*"})
		default:
			panic(unsup("modifies %s", e.Name))
		}
	case "ident":
		if srt, ok := vc.sp.Ghost[e.Name]; ok {
			return []modTarget{{"G_ghost_" + e.Name, srt, "0"}}
		}
		// global variable
		g := ev.global(e.Name)
		if g == nil {
			panic(unsup("modifies %s", e.Name))
		}
		for _, l := range flatLeaves(g.A.T) {
			out = append(out, modTarget{g.A.Heap + l.suf, l.sort, "0"})
		}
	default:
		panic(unsup("modifies expression %s", e.Op))
	}
	return out
}

func fieldIndex(t types.Type, name string) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (vc *VC) applyModifies(st, pre *State, fs *FnSpec, sc map[string]*Val, ev *evalCtx, what string) {
	done := map[string]bool{}
	for _, m := range fs.Modifies {
		for _, t := range vc.modTargets(ev, m) {
			k := t.heap + " " + t.ref
			if done[k] {
				continue
			}
			done[k] = true
			if t.heap == "*" {
				vc.frameCheck(st, "*", "*", what)
				vc.havocAll(st)
				continue
			}
			if t.heap == "local" {
				id := atoi(t.ref)
				if v, ok := st.locals[id]; ok {
					vc.setLocal(st, id, vc.havocLike(st, v, "loc"))
				}
				continue
			}
			vc.frameCheck(st, t.heap, t.ref, what)
			if t.heap[0] == 'G' {
				vc.setHeap(st, t.heap, t.sort, vc.fresh(t.heap, t.sort), "0")
				continue
			}
			if t.ref == "*" {
				vc.heapSort(t.heap, t.sort)
				st.heaps[t.heap] = vc.fresh(t.heap, t.sort)
				vc.recordWrite(t.heap, "*")
				continue
			}
			el := t.sort[len("(Array Int ") : len(t.sort)-1]
			h := vc.getHeap(st, t.heap, t.sort)
			vc.setHeap(st, t.heap, t.sort, app("store", h, t.ref, vc.fresh(t.heap+"_h", el)), t.ref)
		}
	}
}

// ---------- builtins ----------

func (vc *VC) builtin(fr *Frame, st *State, name string, args []*Val, rt types.Type, snip string, c *ssa.CallCommon) *Val {
	switch name {
	case "len":
		a := args[0]
		switch a.K {
		case kSlice:
			return scalar(rt, a.Sl[2])
		case kAddr:
			return scalar(rt, itoa(int(isArray(a.A.T).Len())))
		}
		if a.sort() == "Str" {
			t := app("slen", a.S)
			vc.assume("true", "(<= 0 "+t+")")
			return scalar(rt, t)
		}
		if m, ok := a.T.Underlying().(*types.Map); ok {
			return scalar(rt, vc.mapLen(st, m, a.S))
		}
		if at := isArray(a.T); at != nil {
			return scalar(rt, itoa(int(at.Len())))
		}
		return vc.freshVal(st, rt, "len")
	case "cap":
		if args[0].K == kSlice {
			return scalar(rt, args[0].Sl[3])
		}
		return vc.freshVal(st, rt, "cap")
	case "append":
		return vc.appendB(st, args[0], args[1], rt, snip)
	case "copy":
		return vc.copyB(st, args[0], args[1], rt, snip)
	case "print", "println":
		return &Val{K: kTuple, T: rt}
	case "min", "max":
		op := "<="
		if name == "max" {
			op = ">="
		}
		x := args[0].S
		for _, a := range args[1:] {
			x = vc.define("mm", "Int", ite(app(op, x, a.S), x, a.S))
		}
		return scalar(rt, x)
	case "delete":
		m := args[0].T.Underlying().(*types.Map)
		ks := mapKeySort(m)
		hs := "(Array Int (Array " + ks + " Bool))"
		hn := "MH_" + mapName(m)
		h := vc.getHeap(st, hn, hs)
		key := flatten(args[1])[0]
		ref := args[0].S
		vc.frameCheck(st, hn, ref, snip)
		ln := "ML_" + mapName(m)
		lh := vc.getHeap(st, ln, "(Array Int Int)")
		vc.setHeap(st, ln, "(Array Int Int)", app("store", lh, ref, sub(vc.sel(lh, ref), ite(vc.sel(vc.sel(h, ref), key), "1", "0"))), ref)
		vc.setHeap(st, hn, hs, app("store", h, ref, app("store", vc.sel(h, ref), key, "false")), ref)
		return &Val{K: kTuple, T: rt}
	}
	panic(unsup("builtin %s", name))
}

// source content of an appended/copied value: function from index to term, plus array form
func (vc *VC) srcContent(st *State, v *Val, l leaf, e types.Type) (arr, off string) {
	if v.K == kSlice {
		h := vc.getHeap(st, elemHeapOf(e)+l.suf, arrSort(arrSort(l.sort)))
		return vc.define("src", arrSort(l.sort), vc.sel(h, v.Sl[0])), v.Sl[1]
	}
	// string: use its byte array view
	vc.strArrFacts(v.S)
	return app("strarr", v.S), "0"
}

func (vc *VC) strArrFacts(s string) {
	key := "strarr " + s
	if !vc.aliveN[key] {
		vc.aliveN[key] = true
		vc.emit('a', fmt.Sprintf("(forall ((i Int)) (! (= (select (strarr %s) i) (sat %s i)) :pattern ((select (strarr %s) i)) :pattern ((sat %s i))))", s, s, s, s))
	}
}

func (vc *VC) appendB(st *State, s, t *Val, rt types.Type, snip string) *Val {
	e := rt.Underlying().(*types.Slice).Elem()
	var n string
	if t.K == kSlice {
		n = t.Sl[2]
	} else if t.sort() == "Str" {
		n = app("slen", t.S)
		vc.assume("true", "(<= 0 "+n+")")
	} else {
		panic(unsup("append of %s", t.T))
	}
	if n == "0" {
		return s
	}
	b, o, l, c := s.Sl[0], s.Sl[1], s.Sl[2], s.Sl[3]
	nl := vc.define("len", "Int", add(l, n))
	grow := vc.define("grow", "Bool", fmt.Sprintf("(> %s %s)", nl, c))
	nb := vc.newRef(st)
	base := vc.define("base", "Int", ite(grow, nb, b))
	nc := vc.fresh("cap", "Int")
	vc.assume(st.guard, fmt.Sprintf("(ite %s (>= %s %s) (= %s %s))", grow, nc, nl, nc, c))
	if isStructLike(e) {
		vc.appendStructs(st, e, s, t, n, grow, nb, base, snip)
	} else {
		for i, lf := range leavesOf(e) {
			hn := elemHeapOf(e) + lf.suf
			srt := arrSort(arrSort(lf.sort))
			h := vc.getHeap(st, hn, srt)
			if i == 0 {
				g := *st
				g.guard = vc.define("g", "Bool", and(st.guard, not(grow)))
				// an in-place append of zero elements writes nothing
				if !isNum(n) {
					g.guard = vc.define("g", "Bool", and(g.guard, fmt.Sprintf("(> %s 0)", n)))
				}
				vc.frameCheck(&g, hn, b, snip)
			}
			oldA := vc.define("A", arrSort(lf.sort), vc.sel(h, b))
			sa, so := vc.srcContent(st, t, lf, e)
			var na string
			if isNum(n) && atoi(n) <= 16 {
				x := oldA
				for j := 0; j < atoi(n); j++ {
					x = app("store", x, vc.define("ix", "Int", add(add(o, l), itoa(j))), vc.define("by", lf.sort, vc.sel(sa, add(so, itoa(j)))))
				}
				na = vc.define("A", arrSort(lf.sort), x)
			} else {
				na = vc.fresh("A", arrSort(lf.sort))
				st0 := vc.define("at", "Int", add(o, l))
				vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i))))", na, st0, st0, n, sa, so, st0, oldA, na))
			}
			vc.setHeap(st, hn, srt, app("store", h, base, na), "*")
			// precise record: either the old base or a fresh one
			vc.homAppend(st, lf, oldA, na, o, l, n, sa, so, t)
		}
	}
	r := &Val{K: kSlice, T: rt, Sl: [4]string{base, o, nl, nc}}
	vc.typeFacts(st, r)
	return r
}

func (vc *VC) structPaths(t types.Type, ref string, out *[][2]string, sorts *[]string) {
	s := structOf(t)
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		fa := vc.fieldAddrQ(t, ref, i)
		if isStructLike(ft) {
			vc.structPaths(ft, fa, out, sorts)
			continue
		}
		if a := isArray(ft); a != nil {
			continue
		}
		for _, l := range leavesOf(ft) {
			*out = append(*out, [2]string{fieldHeap(t, s.Field(i).Name()) + l.suf, ref})
			*sorts = append(*sorts, arrSort(l.sort))
		}
	}
}

// fieldAddrQ: sub reference without instance facts (for use under quantifiers)
func (vc *VC) fieldAddrQ(t types.Type, ref string, i int) string {
	f := structOf(t).Field(i)
	k := typeKey(t) + "_" + f.Name()
	vc.gdeclare("sub_"+k, fmt.Sprintf("(declare-fun sub_%s (Int) Int)", k))
	return app("sub_"+k, ref)
}

func (vc *VC) appendStructs(st *State, e types.Type, s, t *Val, n, grow, nb, base, snip string) {
	b, o, l := s.Sl[0], s.Sl[1], s.Sl[2]
	g := *st
	g.guard = vc.define("g", "Bool", and(st.guard, not(grow)))
	vc.frameCheck(&g, "E_"+typeKey(e), b, snip)
	if t.K != kSlice {
		panic(unsup("append struct spread"))
	}
	vc.eref(e, "0", "0")
	var paths [][2]string
	var sorts []string
	vc.structPaths(e, "@R@", &paths, &sorts)
	at := vc.define("at", "Int", add(o, l))
	for i, p := range paths {
		h := vc.getHeap(st, p[0], sorts[i])
		nh := vc.fresh(p[0], sorts[i])
		ref := func(bb, ii string) string { return strings.ReplaceAll(p[1], "@R@", app("eelem_"+typeKey(e), bb, ii)) }
		// unchanged outside the written elements
		inNew := fmt.Sprintf("(and (= (sparent r) %s) (= (skind r) %d))", base, vc.subIDs["elem_"+typeKey(e)])
		_ = inNew
		// old elements (copied when grown)
		vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", o, at, nh, ref(base, "i"), h, ref(b, "i"), nh, ref(base, "i")))
		vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i (+ %s %s))) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", at, at, n, nh, ref(base, "i"), h, ref(t.Sl[0], "(+ "+t.Sl[1]+" (- i "+at+"))"), nh, ref(base, "i")))
		if isNum(n) && atoi(n) <= 4 {
			for j := 0; j < atoi(n); j++ {
				vc.assume(st.guard, eq(vc.sel(nh, ref(base, add(at, itoa(j)))), vc.sel(h, ref(t.Sl[0], add(t.Sl[1], itoa(j))))))
			}
		}
		vc.assume(st.guard, fmt.Sprintf("(forall ((r Int)) (! (or (= (root r) (root %s)) (= (select %s r) (select %s r))) :pattern ((select %s r))))", base, nh, h, nh))
		st.heaps[p[0]] = nh
		vc.recordWrite(p[0], "*")
	}
}

func (vc *VC) copyB(st *State, d, s *Val, rt types.Type, snip string) *Val {
	e := d.T.Underlying().(*types.Slice).Elem()
	var sl string
	if s.K == kSlice {
		sl = s.Sl[2]
	} else {
		sl = app("slen", s.S)
		vc.assume("true", "(<= 0 "+sl+")")
	}
	n := vc.define("n", "Int", ite(fmt.Sprintf("(< %s %s)", d.Sl[2], sl), d.Sl[2], sl))
	if isStructLike(e) {
		panic(unsup("copy of structs"))
	}
	for i, lf := range leavesOf(e) {
		hn := elemHeapOf(e) + lf.suf
		srt := arrSort(arrSort(lf.sort))
		h := vc.getHeap(st, hn, srt)
		if i == 0 {
			g := *st
			g.guard = vc.define("g", "Bool", and(st.guard, fmt.Sprintf("(> %s 0)", n)))
			vc.frameCheck(&g, hn, d.Sl[0], snip)
		}
		sa, so := vc.srcContent(st, s, lf, e)
		oldA := vc.define("A", arrSort(lf.sort), vc.sel(h, d.Sl[0]))
		na := vc.fresh("A", arrSort(lf.sort))
		vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i))))", na, d.Sl[1], d.Sl[1], n, sa, so, d.Sl[1], oldA, na))
		vc.setHeap(st, hn, srt, app("store", h, d.Sl[0], na), d.Sl[0])
		vc.homCopy(st, lf, oldA, na, d.Sl[1])
	}
	return scalar(rt, n)
}

// passClosures: arguments that are closures either only read what they capture or are run by the callee
func (vc *VC) passClosures(fr *Frame, st *State, fs *FnSpec, args []*Val, snip string) {
	for _, a := range args {
		if fs == nil || !fs.Opts["repeats"] {
			vc.escape(a)
		} else if a.Clo != nil && a.Clo.Fn != nil {
			vc.repeatCalls(fr, st, a.Clo, snip)
		}
	}
}

// repeatCalls: the callee calls the closure any number of times with any arguments. What the closure may
// change is forgotten; one call from such a state stands for all of them.
func (vc *VC) repeatCalls(fr *Frame, st *State, c *Closure, snip string) {
	forget := func(s *State) {
		vc.havocAll(s)
		nn := vc.fresh("next", "Int")
		vc.assume("true", fmt.Sprintf("(>= %s %s)", nn, s.next))
		s.next = nn
		for _, rc := range vc.recs {
			rc.next = true
		}
		for _, b := range c.Bindings {
			if b.K == kAddr && b.A.K == aLocal {
				if v, ok := s.locals[b.A.ID]; ok {
					vc.setLocal(s, b.A.ID, vc.havocLike(s, v, "loc"))
				}
			}
		}
	}
	forget(st)
	one := st.clone()
	one.guard = vc.fresh("g", "Bool")
	vc.emit('a', imp(one.guard, st.guard))
	var args []*Val
	for _, p := range c.Fn.Params {
		args = append(args, vc.freshVal(one, p.Type(), "a_"+p.Name()))
	}
	vc.inline(fr, one, c.Fn, c.Bindings, args, resT(c.Fn.Signature), snip)
	forget(st)
}
