package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type evalCtx struct {
	vc       *VC
	st, old  *State
	scope    map[string]*Val
	cur      map[string]*Val // current values of source variables
	pkg      *types.Package
	inOld    bool
	assuming bool
	macroD   int
	entry    map[string]*Val
	pre      *State // loop entry state
	preScope map[string]*Val
	rebase   map[string]string
	recIdx   func(v, arr, off string)
}

func (vc *VC) pkgOf(f *ssa.Function, fs *FnSpec) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
	}
	if vc.fn != nil {
		for g := vc.fn; g != nil; g = g.Parent() {
			if g.Pkg != nil {
				return g.Pkg.Pkg
			}
		}
	}
	return nil
}

func (vc *VC) typeByName(pkg, name string) types.Type {
	p := vc.E.pkgByN[pkg]
	if p == nil {
		panic(unsup("unknown package %s", pkg))
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		panic(unsup("unknown type %s.%s", pkg, name))
	}
	return o.Type()
}

func (ev *evalCtx) boolTerm(e *Expr) string {
	v := ev.eval(e)
	if v.sort() != "Bool" {
		panic(unsup("spec: %s is not boolean (%s)", e.Src, v.sort()))
	}
	return v.S
}

func (ev *evalCtx) global(name string) *Val {
	if ev.pkg == nil {
		return nil
	}
	o := ev.pkg.Scope().Lookup(name)
	v, ok := o.(*types.Var)
	if !ok {
		return nil
	}
	g := ev.vc.E.prog.Package(ev.pkg).Var(v.Name())
	if g == nil {
		return nil
	}
	r := ev.vc.val(nil, ev.st, g)
	return r
}

func (ev *evalCtx) ident(name string) *Val {
	if v, ok := ev.scope[name]; ok {
		return v
	}
	if v, ok := ev.cur[name]; ok {
		return v
	}
	switch name {
	case "true", "false":
		return mkBool(name)
	case "nil":
		return &Val{K: kScalar, S: "0", Srt: "Int"}
	}
	if srt, ok := ev.vc.sp.Ghost[name]; ok {
		return &Val{K: kScalar, S: ev.vc.getHeap(ev.st, "G_ghost_"+name, srt), Srt: srt}
	}
	if f, ok := ev.vc.sp.Smt[name]; ok && len(f.Args) == 0 {
		return &Val{K: kScalar, S: name, Srt: f.Ret}
	}
	if m, ok := ev.vc.sp.Macros[name]; ok && len(m.Params) == 0 {
		return ev.eval(m.Body)
	}
	if ev.pkg != nil {
		if v := ev.pkgConst(ev.pkg, name); v != nil {
			return v
		}
		if g := ev.global(name); g != nil {
			return ev.vc.load(ev.st, g)
		}
	}
	panic(unsup("spec: unknown identifier %s", name))
}

func (ev *evalCtx) pkgConst(p *types.Package, name string) *Val {
	if o := p.Scope().Lookup(name); o != nil {
		if c, ok := o.(*types.Const); ok {
			k := ssa.NewConst(c.Val(), c.Type())
			return ev.vc.constVal(k)
		}
	}
	return nil
}

func (ev *evalCtx) with(f func()) {
	f()
}

var sortOfQ = map[string]string{"int": "Int", "bool": "Bool", "string": "Str", "ref": "Int", "byte": "Int"}

func (ev *evalCtx) eval(e *Expr) *Val {
	vc := ev.vc
	switch e.Op {
	case "int":
		return mkInt(e.Name)
	case "str":
		return scalar(types.Typ[types.String], vc.strConst(e.Name))
	case "ident":
		return ev.ident(e.Name)
	case "unary":
		v := ev.eval(e.Args[0])
		if e.Name == "!" {
			return mkBool(not(v.S))
		}
		if isNum(v.S) {
			return mkInt("(- " + v.S + ")")
		}
		return mkInt(app("-", v.S))
	case "deref":
		return vc.load(ev.st, ev.eval(e.Args[0]))
	case "let":
		v := ev.eval(e.Args[0])
		n := *ev
		n.scope = map[string]*Val{}
		for k, x := range ev.scope {
			n.scope[k] = x
		}
		n.scope[e.Name] = v
		return n.eval(e.Args[1])
	case "forall", "exists":
		return ev.quant(e)
	case "binary":
		return ev.binary(e)
	case "field":
		return ev.field(e)
	case "index":
		b := ev.eval(e.Args[0])
		i := ev.eval(e.Args[1])
		return ev.index(b, i)
	case "call":
		return ev.callE(e)
	}
	panic(unsup("spec: cannot evaluate %s", e.Op))
}

// quant evaluates a quantifier.  A variable k used as x[k] for a slice x is
// re-based to the absolute index j = off(x)+k, so that the natural trigger
// (select arr j) is available for every access to that array.
func (ev *evalCtx) quant(e *Expr) *Val {
	vc := ev.vc
	type shape struct{ arr, off string }
	// probe: evaluate with fresh variables and record index shapes
	mk := func(k int, offs map[string]shape, rec func(v, arr, off string)) (string, string) {
		n := *ev
		n.scope = map[string]*Val{}
		for a, x := range ev.scope {
			n.scope[a] = x
		}
		n.rebase = map[string]string{}
		for a, b := range ev.rebase {
			n.rebase[a] = b
		}
		n.recIdx = rec
		var binds []string
		for _, q := range e.Vars {
			vc.n++
			nm := fmt.Sprintf("%s?%d", q.Name, vc.n)
			srt := sortOfQ[q.Sort]
			if srt == "" {
				srt = q.Sort
			}
			if strings.HasPrefix(q.Sort, "*") {
				srt = "Int"
			}
			binds = append(binds, fmt.Sprintf("(%s %s)", nm, srt))
			t := nm
			if sh, ok := offs[q.Name]; ok && sh.off != "0" {
				t = fmt.Sprintf("(- %s %s)", nm, sh.off)
				n.rebase[t+"@"+sh.off] = nm
			}
			v := &Val{K: kScalar, S: t, Srt: srt}
			if f := strings.Split(q.Sort, "."); len(f) == 2 && f[0][0] == '*' {
				v.T = types.NewPointer(vc.typeByName(f[0][1:], f[1]))
			} else if q.Sort[0] == '*' {
				v.T = types.NewPointer(types.Universe.Lookup(q.Sort[1:]).Type())
			}
			switch q.Sort {
			case "int", "byte":
				v.T = types.Typ[types.Int]
			case "string":
				v.T = types.Typ[types.String]
			}
			n.scope[q.Name] = v
		}
		nq := len(vc.openQ)
		for _, b := range binds {
			vc.openQ = append(vc.openQ, strings.Fields(b)[0][1:])
		}
		defer func() { vc.openQ = vc.openQ[:nq] }()
		body := n.boolTerm(e.Args[0])
		var pats []string
		if len(e.Trig) > 0 {
			for _, t := range e.Trig {
				pats = append(pats, flatten(n.eval(t))[0])
			}
		} else if len(e.Vars) == 1 {
			if sh, ok := offs[e.Vars[0].Name]; ok {
				pats = append(pats, fmt.Sprintf("(%s %s)", sh.arr, strings.Fields(binds[0])[0][1:]))
			}
		}
		if len(pats) > 0 {
			body = fmt.Sprintf("(! %s :pattern (%s))", body, strings.Join(pats, " "))
		}
		return fmt.Sprintf("(%s (%s) %s)", e.Op, strings.Join(binds, " "), body), body
	}
	found := map[string][]shape{}
	names := map[string]string{}
	saveN := vc.n
	for i, q := range e.Vars {
		names[fmt.Sprintf("%s?%d", q.Name, vc.n+i+1)] = q.Name
	}
	mk(0, nil, func(v, arr, off string) {
		q, ok := names[v]
		if !ok {
			return
		}
		for own := range names {
			if strings.Contains(arr, own) || strings.Contains(off, own) {
				return
			}
		}
		for _, s := range found[q] {
			if s.arr == arr && s.off == off {
				return
			}
		}
		found[q] = append(found[q], shape{arr, off})
	})
	_ = saveN
	own := len(e.Trig) > 0 // the spec's own triggers, none of them an element of a slice: nothing to re-base
	for _, t := range e.Trig {
		if t.Op == "index" {
			own = false
		}
	}
	if len(found) == 0 || own {
		t, _ := mk(0, nil, nil)
		return mkBool(t)
	}
	if len(e.Vars) == 1 {
		var parts []string
		for i, sh := range found[e.Vars[0].Name] {
			if i >= 2 {
				break
			}
			t, _ := mk(i, map[string]shape{e.Vars[0].Name: sh}, nil)
			parts = append(parts, t)
			if e.Op == "exists" {
				break
			}
		}
		return mkBool(and(parts...))
	}
	offs := map[string]shape{}
	for q, l := range found {
		offs[q] = l[0]
	}
	t, _ := mk(0, offs, nil)
	return mkBool(t)
}

func (ev *evalCtx) idxTerm(arr func() string, off, i string) string {
	if ev.recIdx != nil && strings.Contains(i, "?") {
		ev.recIdx(i, arr(), off)
	}
	if j, ok := ev.rebase[i+"@"+off]; ok {
		return j
	}
	return add(off, i)
}

func (ev *evalCtx) field(e *Expr) *Val {
	// package-qualified constant
	if e.Args[0].Op == "ident" {
		if _, ok := ev.scope[e.Args[0].Name]; !ok {
			if p := ev.vc.E.pkgByN[e.Args[0].Name]; p != nil {
				if v := ev.pkgConst(p, e.Name); v != nil {
					return v
				}
			}
		}
	}
	b := ev.eval(e.Args[0])
	return ev.fieldOf(b, e.Name)
}

func (ev *evalCtx) fieldOf(b *Val, name string) *Val {
	if b.K == kPoison {
		panic(unsup("spec: %s", b.Msg))
	}
	if b.K == kStruct {
		i := fieldIndex(b.T, name)
		if i < 0 {
			panic(unsup("spec: no field %s", name))
		}
		return b.Fs[i]
	}
	if b.T == nil {
		panic(unsup("spec: field %s of untyped value", name))
	}
	t := b.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	i := fieldIndex(t, name)
	if i < 0 {
		panic(unsup("spec: no field %s in %s", name, t))
	}
	fa := ev.vc.fieldAddr(t, b.S, i)
	if fa.K == kScalar { // nested struct: keep as reference
		return fa
	}
	if fa.A.K == aArr {
		return fa
	}
	return ev.load(fa)
}

func (ev *evalCtx) load(p *Val) *Val {
	// no type facts for terms containing bound variables
	return ev.vc.loadQ(ev.st, p)
}

func (vc *VC) loadQ(st *State, p *Val) *Val {
	n := len(vc.items)
	v := vc.load(st, p)
	for i := n; i < len(vc.items); i++ {
		if strings.Contains(vc.items[i].Text, "?") {
			vc.items = append(vc.items[:i], vc.items[i+1:]...)
			i--
		}
	}
	return v
}

func (ev *evalCtx) index(b, i *Val) *Val {
	vc := ev.vc
	switch b.K {
	case kSlice:
		el := b.T.Underlying().(*types.Slice).Elem()
		a := vc.elemAddr(el, b.Sl[0], ev.idxTerm(func() string {
			if isStructLike(el) || isArray(el) != nil {
				p := strings.TrimSuffix(vc.eref(el, b.Sl[0], "@"), " @)")
				return strings.TrimPrefix(p, "(")
			}
			l := leavesOf(el)[0]
			return "select " + vc.sel(vc.getHeap(ev.st, elemHeapOf(el)+l.suf, arrSort(arrSort(l.sort))), b.Sl[0])
		}, b.Sl[1], i.S))
		if a.K == kScalar || a.A.K == aArr {
			return a
		}
		return ev.load(a)
	case kAddr:
		if b.A.K == aArr {
			a := vc.elemAddr(isArray(b.A.T).Elem(), b.A.Ref, i.S)
			if a.K == kScalar || a.A.K == aArr {
				return a
			}
			return ev.load(a)
		}
	case kScalar:
		if b.Srt != "" && strings.HasPrefix(b.Srt, "(Array") {
			return &Val{K: kScalar, S: vc.sel(b.S, i.S), Srt: arrElem(b.Srt)}
		}
		if b.sort() == "Str" {
			return mkInt(vc.sat(b.S, i.S))
		}
		if m, ok := b.T.Underlying().(*types.Map); ok {
			return vc.mapGet(ev.st, m, b.S, flatten(i)[0])
		}
		if strings.HasPrefix(b.sort(), "(Array") {
			return &Val{K: kScalar, S: vc.sel(b.S, i.S), Srt: arrElem(b.sort()), T: isArray(b.T).Elem()}
		}
	}
	panic(unsup("spec: cannot index"))
}

func arrElem(s string) string {
	p := sexps(s[1 : len(s)-1])
	return p[2]
}

func (ev *evalCtx) binary(e *Expr) *Val {
	a := ev.eval(e.Args[0])
	switch e.Name {
	case "&&":
		if a.S == "false" {
			return a
		}
		return mkBool(and(a.S, ev.boolTerm(e.Args[1])))
	case "||":
		if a.S == "true" {
			return a
		}
		return mkBool(or(a.S, ev.boolTerm(e.Args[1])))
	case "==>":
		if a.S == "false" {
			return mkBool("true")
		}
		return mkBool(imp(a.S, ev.boolTerm(e.Args[1])))
	}
	b := ev.eval(e.Args[1])
	switch e.Name {
	case "<==>":
		return mkBool(eq(a.S, b.S))
	case "==", "!=":
		var t string
		if a.K == kSlice && b.K != kSlice { // nil comparison
			t = eq(a.Sl[0], "0")
		} else if b.K == kSlice && a.K != kSlice {
			t = eq(b.Sl[0], "0")
		} else if a.K == kSlice {
			t = and(eq(a.Sl[0], b.Sl[0]), eq(a.Sl[1], b.Sl[1]), eq(a.Sl[2], b.Sl[2]))
		} else if a.K == kScalar && a.sort() == "Str" && !strings.Contains(a.S+b.S, "?") {
			t = ev.vc.strEq(a.S, b.S)
		} else {
			t = ev.vc.equal(a, b)
		}
		if e.Name == "!=" {
			t = not(t)
		}
		return mkBool(t)
	case "<", "<=", ">", ">=":
		if a.sort() == "Flt" {
			return mkBool(app(map[string]string{"<": "flt_lt", "<=": "flt_le", ">": "flt_gt", ">=": "flt_ge"}[e.Name], a.S, b.S))
		}
		return mkBool(app(e.Name, a.S, b.S))
	case "+":
		return mkInt(add(a.S, b.S))
	case "-":
		return mkInt(sub(a.S, b.S))
	case "*":
		return mkInt(app("*", a.S, b.S))
	case "/":
		return mkInt(app("div", a.S, b.S))
	case "%":
		return mkInt(app("mod", a.S, b.S))
	}
	panic(unsup("spec: operator %s", e.Name))
}

func (ev *evalCtx) callE(e *Expr) *Val {
	vc := ev.vc
	arg := func(i int) *Val {
		if i >= len(e.Args) {
			panic(unsup("spec: %s needs more arguments", e.Name))
		}
		return ev.eval(e.Args[i])
	}
	if n, ok := builtinArity[e.Name]; ok && n != len(e.Args) {
		panic(unsup("spec: %s takes %d argument(s), got %d", e.Name, n, len(e.Args)))
	}
	switch e.Name {
	case "old":
		n := *ev
		n.st = ev.old
		n.inOld = true
		return n.eval(e.Args[0])
	case "atloop": // value at loop entry
		if ev.pre == nil {
			panic(unsup("spec: atloop outside a loop"))
		}
		n := *ev
		n.st = ev.pre
		return n.eval(e.Args[0])
	case "len":
		a := arg(0)
		switch a.K {
		case kSlice:
			return mkInt(a.Sl[2])
		case kAddr:
			return mkInt(itoa(int(isArray(a.A.T).Len())))
		}
		if a.sort() == "Str" {
			return mkInt(app("slen", a.S))
		}
		if m, ok := a.T.Underlying().(*types.Map); ok {
			return mkInt(vc.mapLen(ev.st, m, a.S))
		}
		panic(unsup("spec: len"))
	case "cap":
		return mkInt(arg(0).Sl[3])
	case "base":
		a := arg(0)
		if a.K == kAddr {
			return mkInt(a.A.Ref)
		}
		return mkInt(a.Sl[0])
	case "off":
		a := arg(0)
		if a.K == kAddr {
			return mkInt("0")
		}
		return mkInt(a.Sl[1])
	case "ref": // reference term of a pointer value
		return mkInt(flatten(arg(0))[0])
	case "arr":
		a := arg(0)
		var el types.Type
		var b string
		if a.K == kSlice {
			el = a.T.Underlying().(*types.Slice).Elem()
			b = a.Sl[0]
		} else if a.K == kAddr {
			el = isArray(a.A.T).Elem()
			b = a.A.Ref
		} else if a.sort() == "Str" {
			vc.strArrFacts(a.S)
			return &Val{K: kScalar, S: app("strarr", a.S), Srt: arrSort("Int")}
		} else {
			panic(unsup("spec: arr"))
		}
		l := leavesOf(el)[0]
		return &Val{K: kScalar, S: vc.sel(vc.getHeap(ev.st, elemHeapOf(el)+l.suf, arrSort(arrSort(l.sort))), b), Srt: arrSort(l.sort)}
	case "fresh":
		a := arg(0)
		r := a.S
		if a.K == kSlice {
			r = a.Sl[0]
		} else if a.K == kAddr {
			r = a.A.Ref
		}
		return mkBool(fmt.Sprintf("(>= (root %s) %s)", r, ev.old.next))
	case "alive":
		a := arg(0)
		r := a.S
		if a.K == kSlice {
			r = a.Sl[0]
		} else if a.K == kAddr {
			r = a.A.Ref
		}
		return mkBool(fmt.Sprintf("(< (root %s) %s)", r, ev.st.next))
	case "root":
		a := arg(0)
		r := a.S
		if a.K == kSlice {
			r = a.Sl[0]
		} else if a.K == kAddr {
			r = a.A.Ref
		}
		return mkInt(app("root", r))
	case "has":
		m := arg(0)
		return mkBool(and(not(eq(m.S, "0")), vc.mapHas(ev.st, m.T.Underlying().(*types.Map), m.S, flatten(arg(1))[0])))
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		if a.K == kScalar {
			r := *a
			r.S = ite(c.S, a.S, b.S)
			return &r
		}
		return vc.mergeVals([]string{c.S, not(c.S)}, []*Val{a, b}, "ite")
	case "typeis":
		a := arg(0)
		t := ev.typeArg(e.Args[1])
		return mkBool(and(not(eq(a.S, "0")), eq(app("typeof", a.S), vc.typeID(t))))
	case "unbox":
		a := arg(0)
		t := ev.typeArg(e.Args[1])
		var ts []string
		for _, l := range flatT(t) {
			f := "unbox_" + typeKey(t) + l.suf
			vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int) %s)", f, l.sort))
			ts = append(ts, app(f, a.S))
		}
		v, _ := unflatten(t, ts)
		return v
	case "str": // string view of a byte slice
		a := arg(0)
		el := types.Type(types.Typ[types.Uint8])
		if sl, ok := a.T.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				el = sl.Elem()
			}
		}
		h := vc.getHeap(ev.st, elemHeapOf(el), arrSort(arrSort("Int")))
		return scalar(types.Typ[types.String], app("str_of", vc.sel(h, a.Sl[0]), a.Sl[1], a.Sl[2]))
	case "cur":
		n := e.Args[0].Name
		if v, ok := ev.cur[n]; ok {
			return v
		}
		panic(unsup("spec: no current value of %s", n))
	case "is": // datatype tester is(cons, x)
		return mkBool("((_ is " + e.Args[0].Name + ") " + arg(1).S + ")")
	case "same": // same(x): x unchanged since entry (all leaves)
		a := ev.eval(e.Args[0])
		n := *ev
		n.st = ev.old
		b := n.eval(e.Args[0])
		fa, fb := flatten(a), flatten(b)
		var xs []string
		for i := range fa {
			xs = append(xs, eq(fa[i], fb[i]))
		}
		return mkBool(and(xs...))
	case "closure": // closure value
		return arg(0)
	case "pure": // pure(name, args...) : value of the pure function symbol of an external
		nm := e.Args[0].Name
		var as []*Val
		for i := 1; i < len(e.Args); i++ {
			as = append(as, arg(i))
		}
		rt := vc.E.resultType(nm)
		if rt == nil {
			panic(unsup("spec: unknown function %s", nm))
		}
		return vc.pureApp(ev.st, nm, as, rt)
	case "bytesof":
		// bytesof(x, lo, n, "const") : x[lo..lo+n) equals literal
		x, lo := arg(0), arg(1)
		lit := e.Args[2].Name
		var cs []string
		for i := 0; i < len(lit); i++ {
			cs = append(cs, eq(ev.index(x, mkInt(add(lo.S, itoa(i)))).S, itoa(int(lit[i]))))
		}
		return mkBool(and(cs...))
	}
	if m, ok := vc.sp.Macros[e.Name]; ok {
		if len(m.Params) != len(e.Args) {
			panic(unsup("spec: macro %s wants %d arguments", e.Name, len(m.Params)))
		}
		if ev.macroD > 40 {
			panic(unsup("spec: macro recursion"))
		}
		n := *ev
		n.macroD++
		sub := map[string]*Expr{}
		for i, p := range m.Params {
			sub[p] = e.Args[i]
		}
		return n.eval(substExpr(m.Body, sub))
	}
	for _, h := range vc.sp.Homs {
		if h.Name == e.Name {
			// H(state, x, from, to): fold over x[from:to]; x may be a string
			x := arg(1)
			lo, hi := arg(2).S, arg(3).S
			if x.K == kScalar {
				vc.strArrFacts(x.S)
				return &Val{K: kScalar, S: app(h.Name, arg(0).S, app("strarr", x.S), lo, hi), Srt: h.Sort}
			}
			el := x.T.Underlying().(*types.Slice).Elem()
			l := leavesOf(el)[0]
			a := vc.sel(vc.getHeap(ev.st, elemHeapOf(el)+l.suf, arrSort(arrSort(l.sort))), x.Sl[0])
			return &Val{K: kScalar, S: app(h.Name, arg(0).S, a, add(x.Sl[1], lo), add(x.Sl[1], hi)), Srt: h.Sort}
		}
	}
	if f, ok := vc.sp.Smt[e.Name]; ok {
		var as []string
		for i := range e.Args {
			as = append(as, flatten(arg(i))...)
		}
		if len(as) != len(f.Args) {
			panic(unsup("spec: %s wants %d arguments, got %d", e.Name, len(f.Args), len(as)))
		}
		r := &Val{K: kScalar, S: app(e.Name, as...), Srt: f.Ret}
		switch f.Ret {
		case "Int":
			r.T = types.Typ[types.Int]
		case "Str":
			r.T = types.Typ[types.String]
		}
		return r
	}
	panic(unsup("spec: unknown function %s", e.Name))
}

func (ev *evalCtx) typeArg(e *Expr) types.Type {
	ptr := false
	if e.Op == "deref" {
		ptr = true
		e = e.Args[0]
	}
	var t types.Type
	if e.Op == "field" {
		t = ev.vc.typeByName(e.Args[0].Name, e.Name)
	} else if e.Op == "str" { // "[]byte" etc: not supported beyond basic names
		t = basicByName(e.Name)
	} else {
		t = basicByName(e.Name)
		if t == nil && ev.pkg != nil {
			if o := ev.pkg.Scope().Lookup(e.Name); o != nil {
				t = o.Type()
			}
		}
	}
	if t == nil {
		panic(unsup("spec: unknown type %s", e.Name))
	}
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

func basicByName(n string) types.Type {
	if o := types.Universe.Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

// ---------- loop candidates ----------

func (vc *VC) frameScope(fr *Frame, h *ssa.BasicBlock, st *State) map[string]*Val {
	cur := map[string]*Val{}
	for f := fr; f != nil; f = f.parent {
		put := func(n string, v *Val) {
			if n == "" || v == nil {
				return
			}
			if _, ok := cur[n]; !ok {
				cur[n] = v
			}
		}
		if f == fr && h != nil {
			for _, in := range h.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					put(ph.Comment, f.env[ph])
				}
			}
		}
		for a, id := range f.allocs {
			if al, ok := a.(*ssa.Alloc); ok {
				if v, ok := st.locals[id]; ok {
					put(al.Comment, v)
				}
			}
		}
		for _, p := range f.fn.Params {
			put(p.Name(), f.env[p])
		}
		for i, fv := range f.fn.FreeVars {
			_ = i
			v := f.env[fv]
			if v != nil && v.K == kAddr && v.A.K == aLocal {
				put(fv.Name(), st.locals[v.A.ID])
			}
		}
		// enclosing loop phis and dominating debug references
		if h != nil && f == fr {
			for _, b := range f.fn.Blocks {
				if b != h && b.Dominates(h) {
					for _, in := range b.Instrs {
						if ph, ok := in.(*ssa.Phi); ok {
							put(ph.Comment, f.env[ph])
						}
						if d, ok := in.(*ssa.DebugRef); ok && !d.IsAddr {
							if id, ok := d.Expr.(interface{ String() string }); ok {
								if v := f.env[d.X]; v != nil {
									if _, isAl := d.X.(*ssa.Alloc); !isAl {
										put(id.String(), v)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return cur
}

func (vc *VC) evalCand(fr *Frame, lc *loopCtx, ce candExpr, st, pre *State) (term string, err error) {
	n := len(vc.items)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				vc.items = vc.items[:n]
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	if ce.raw != nil {
		return ce.raw(st, fr)
	}
	sc := map[string]*Val{}
	for k, v := range vc.params {
		sc[k] = v
	}
	for h, v := range ce.holes {
		x := fr.env[v]
		if it, ok := v.(*ssa.Range); ok {
			x = st.locals[fr.env[it].It.id]
		} else if al, ok := v.(*ssa.Alloc); ok {
			x = st.locals[fr.allocs[al]]
		}
		if x == nil || x.K == kPoison {
			return "", fmt.Errorf("hole")
		}
		sc[h] = x
	}
	var hb *ssa.BasicBlock
	for b, c := range fr.loopCtx {
		if c == lc {
			hb = b
		}
	}
	cur := vc.frameScope(fr, hb, st)
	ev := &evalCtx{vc: vc, st: st, old: vc.old, scope: sc, cur: cur, pkg: vc.pkgOf(vc.fn, nil), pre: pre}
	t := ev.boolTerm(ce.c.E)
	return t, nil
}

func exprHoles(e *Expr, out map[string]bool) {
	if e.Op == "ident" && strings.HasPrefix(e.Name, "$") {
		out[e.Name] = true
	}
	for _, a := range e.Args {
		exprHoles(a, out)
	}
	for _, a := range e.Trig {
		exprHoles(a, out)
	}
}

func (vc *VC) loopCandidates(fr *Frame, h *ssa.BasicBlock, lc *loopCtx, hs *havocSpec) {
	addCand := func(ce candExpr) {
		if _, err := vc.evalCandTry(fr, lc, ce); err != nil {
			if debugCands {
				fmt.Println("candidate dropped:", ce.text, err)
			}
			return
		}
		c := &Cand{ID: len(vc.cands), Text: ce.text, Loop: lc.name, Alive: true}
		vc.n++
		c.Act = fmt.Sprintf("act!%d", vc.n)
		vc.emit('d', fmt.Sprintf("(declare-const %s Bool)", c.Act))
		vc.cands = append(vc.cands, c)
		lc.cands = append(lc.cands, c)
		lc.exprs = append(lc.exprs, ce)
	}
	for _, inv := range vc.fs.Inv {
		for _, ce := range vc.expandHoles(fr, h, inv) {
			addCand(ce)
		}
	}
	// automatic: frame of havocked heaps and slice provenance
	pre := lc.pre
	if vc.old != nil {
		// slice phis keep their backing array or move to a fresh one
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, ok := ph.Type().Underlying().(*types.Slice); ok {
				ev := fr.env[ph]
				if ev == nil || ev.K != kSlice {
					continue
				}
				ph := ph
				eb := ev.Sl[0]
				addCand(candExpr{text: "auto: backing array of " + ph.Comment, raw: func(st *State, fr *Frame) (string, error) {
					v := fr.env[ph]
					if v.K != kSlice {
						return "", fmt.Errorf("x")
					}
					return or(eq(v.Sl[0], eb), fmt.Sprintf("(>= (root %s) %s)", v.Sl[0], vc.old.next)), nil
				}})
				eo := ev.Sl[1]
				addCand(candExpr{text: "auto: offset of " + ph.Comment, raw: func(st *State, fr *Frame) (string, error) {
					v := fr.env[ph]
					if v.K != kSlice {
						return "", fmt.Errorf("x")
					}
					return eq(v.Sl[1], eo), nil
				}})
			}
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ev := fr.env[ph]
				if ev == nil || ev.K != kScalar {
					continue
				}
				ph := ph
				addCand(candExpr{text: "auto: " + ph.Comment + " grows from its initial value", raw: func(st *State, fr *Frame) (string, error) {
					return fmt.Sprintf("(>= %s %s)", fr.env[ph].S, ev.S), nil
				}})
				// bounded by loop-invariant operand of a comparison in the header
				for _, in2 := range h.Instrs {
					bo, ok := in2.(*ssa.BinOp)
					if !ok {
						continue
					}
					addB := func(y ssa.Value) {
						yb, isI := y.(ssa.Instruction)
						_, isC := y.(*ssa.Const)
						if !isC && isI && fr.loops.headers[h][yb.Block()] {
							return
						}
						yv, ok := fr.env[y]
						if isC {
							yv = vc.val(fr, pre, y)
							ok = true
						}
						if !ok || yv.K != kScalar || yv.sort() != "Int" {
							return
						}
						yt := yv.S
						addCand(candExpr{text: "auto: " + ph.Comment + " <= bound", raw: func(st *State, fr *Frame) (string, error) {
							return fmt.Sprintf("(<= %s %s)", fr.env[ph].S, yt), nil
						}})
						addCand(candExpr{text: "auto: " + ph.Comment + " < bound", raw: func(st *State, fr *Frame) (string, error) {
							return fmt.Sprintf("(or (< %s %s) (= %s (- 1)))", fr.env[ph].S, yt, fr.env[ph].S), nil
						}})
					}
					switch bo.Op.String() {
					case "<", "<=", "!=":
						addB(bo.Y)
					case ">", ">=":
						addB(bo.X)
					}
				}
			}
		}
		// string iteration positions are never negative
		for v, val := range fr.env {
			if r, ok := v.(*ssa.Range); ok && val.K == kIter && val.It.kind == "string" && r.Block().Dominates(h) {
				id := val.It.id
				s := val.It.x.S
				addCand(candExpr{text: "auto: string iteration position in range", raw: func(st *State, fr *Frame) (string, error) {
					l, ok := st.locals[id]
					if !ok {
						return "", fmt.Errorf("x")
					}
					return fmt.Sprintf("(and (<= 0 %s) (<= %s (slen %s)))", l.S, l.S, s), nil
				}})
			}
		}
		for _, hn := range sortedKeysM(hs.heaps) {
			hn := hn
			srt := vc.heapS[hn]
			if hn[0] == 'G' || !strings.HasPrefix(srt, "(Array Int") || vc.modAny[hn] || vc.modAny["*"] {
				continue
			}
			addCand(candExpr{text: "auto: frame of " + hn, raw: func(st *State, fr *Frame) (string, error) {
				now := vc.getHeap(st, hn, srt)
				was := vc.getHeap(vc.old, hn, srt)
				if now == was {
					return "true", nil
				}
				ex := []string{"(>= (root r) " + vc.old.next + ")"}
				for _, a := range sortedKeys(vc.allowed[hn]) {
					ex = append(ex, eq("r", a))
				}
				ex = append(ex, fmt.Sprintf("(= (select %s r) (select %s r))", now, was))
				return fmt.Sprintf("(forall ((r Int)) (! %s :pattern ((select %s r))))", or(ex...), now), nil
			}})
			if strings.HasPrefix(hn, "F_") && strings.HasSuffix(hn, "_b") {
				for _, a := range sortedKeys(vc.allowed[hn]) {
					a := a
					addCand(candExpr{text: "auto: backing array in " + hn, raw: func(st *State, fr *Frame) (string, error) {
						now := vc.getHeap(st, hn, srt)
						was := vc.getHeap(vc.old, hn, srt)
						if now == was {
							return "true", nil
						}
						return fmt.Sprintf("(or (= (select %s %s) (select %s %s)) (>= (root (select %s %s)) %s))", now, a, was, a, now, a, vc.old.next), nil
					}})
					hb := strings.TrimSuffix(hn, "_b") + "_o"
					addCand(candExpr{text: "auto: offset in " + hb, raw: func(st *State, fr *Frame) (string, error) {
						now := vc.getHeap(st, hb, srt)
						was := vc.getHeap(vc.old, hb, srt)
						if now == was {
							return "true", nil
						}
						return fmt.Sprintf("(= (select %s %s) (select %s %s))", now, a, was, a), nil
					}})
				}
			}
		}
		// local slices held in variables
		for a, id := range fr.allocs {
			id := id
			al, _ := a.(*ssa.Alloc)
			if v, ok := pre.locals[id]; ok && v.K == kSlice {
				eb := v.Sl[0]
				addCand(candExpr{text: "auto: backing array of " + al.Comment, raw: func(st *State, fr *Frame) (string, error) {
					v := st.locals[id]
					if v == nil || v.K != kSlice {
						return "", fmt.Errorf("x")
					}
					return or(eq(v.Sl[0], eb), fmt.Sprintf("(>= (root %s) %s)", v.Sl[0], vc.old.next)), nil
				}})
			}
		}
	}
	// termination candidates
	if vc.checkOn("loopdec") {
		for _, d := range vc.fs.LoopDec {
			for _, ce := range vc.expandHoles(fr, h, d) {
				if _, err := vc.evalDec(fr, lc, ce, pre); err == nil {
					lc.decE = append(lc.decE, ce)
				}
			}
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			b, ok := ph.Type().Underlying().(*types.Basic)
			if !ok || b.Info()&types.IsInteger == 0 {
				continue
			}
			ph2 := ph
			// any comparison inside the loop against a loop-invariant bound
			body := fr.loops.headers[h]
			for blk := range body {
				for _, in2 := range blk.Instrs {
					bo, ok := in2.(*ssa.BinOp)
					if !ok {
						continue
					}
					for yi, y := range []ssa.Value{bo.X, bo.Y} {
						other := bo.Y
						if yi == 1 {
							other = bo.X
						}
						if ob, ok := other.(*ssa.BinOp); ok && other != ssa.Value(ph) {
							if ob.X == ssa.Value(ph) {
								other = ph
							}
						}
						if other != ssa.Value(ph) {
							continue
						}
						yb, isI := y.(ssa.Instruction)
						_, isC := y.(*ssa.Const)
						if !isC && isI && body[yb.Block()] {
							continue
						}
						var yv *Val
						if isC {
							if y.(*ssa.Const).Value == nil {
								continue
							}
							yv = vc.val(fr, pre, y)
						} else {
							yv = fr.env[y]
						}
						if yv == nil || yv.K != kScalar || yv.sort() != "Int" {
							continue
						}
						yt := yv.S
						lc.decE = append(lc.decE, candExpr{text: "auto: " + yt + " - " + ph.Comment, raw: func(st *State, fr *Frame) (string, error) {
							return fmt.Sprintf("(+ 1 (- %s %s))", yt, fr.env[ph2].S), nil
						}})
						lc.decE = append(lc.decE, candExpr{text: "auto: " + ph.Comment + " - " + yt, raw: func(st *State, fr *Frame) (string, error) {
							return fmt.Sprintf("(+ 1 (- %s %s))", fr.env[ph2].S, yt), nil
						}})
					}
				}
			}
		}
		seen := map[string]bool{}
		var ded []candExpr
		for _, d := range lc.decE {
			if !seen[d.text] {
				seen[d.text] = true
				ded = append(ded, d)
			}
		}
		lc.decE = ded
	}
}

func (vc *VC) evalCandTry(fr *Frame, lc *loopCtx, ce candExpr) (string, error) {
	n := len(vc.items)
	al := copyBool(vc.aliveN)
	t, err := vc.evalCand(fr, lc, ce, lc.pre, lc.pre)
	vc.items = vc.items[:n]
	vc.aliveN = al
	return t, err
}

func (vc *VC) expandHoles(fr *Frame, h *ssa.BasicBlock, c Clause) []candExpr {
	hs := map[string]bool{}
	exprHoles(c.E, hs)
	res := []candExpr{{c: c, holes: map[string]ssa.Value{}, text: c.label()}}
	for _, hole := range sortedKeys(hs) {
		var cands []ssa.Value
		match := func(t types.Type) bool {
			switch hole[1] {
			case 'i', 'j', 'k', 'n':
				b, ok := t.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsInteger != 0
			case 'b':
				b, ok := t.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsBoolean != 0
			case 'l':
				_, ok := t.Underlying().(*types.Slice)
				return ok
			case 's':
				b, ok := t.Underlying().(*types.Basic)
				return ok && b.Info()&types.IsString != 0
			}
			return false
		}
		for _, in := range h.Instrs {
			if ph, ok := in.(*ssa.Phi); ok && match(ph.Type()) {
				cands = append(cands, ph)
			}
		}
		for a := range fr.allocs {
			if al, ok := a.(*ssa.Alloc); ok && match(deref(al.Type())) && al.Block().Dominates(h) {
				cands = append(cands, al)
			}
		}
		if hole[1] == 'i' {
			for v, val := range fr.env {
				if r, ok := v.(*ssa.Range); ok && val.K == kIter && r.Block().Dominates(h) {
					cands = append(cands, r)
				}
			}
		}
		sortVals(cands)
		var nres []candExpr
		for _, r := range res {
			for _, v := range cands {
				dup := false
				for _, o := range r.holes {
					if o == v {
						dup = true
					}
				}
				if dup {
					continue
				}
				m := map[string]ssa.Value{}
				for k, x := range r.holes {
					m[k] = x
				}
				m[hole] = v
				nres = append(nres, candExpr{c: c, holes: m, text: r.text + " [" + hole + "=" + holeName(v) + "]"})
			}
		}
		res = nres
	}
	return res
}

func holeName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Phi:
		return x.Comment
	case *ssa.Alloc:
		return x.Comment
	}
	return v.Name()
}

func sortVals(v []ssa.Value) {
	for i := range v {
		for j := i + 1; j < len(v); j++ {
			if v[j].Name() < v[i].Name() {
				v[i], v[j] = v[j], v[i]
			}
		}
	}
}

func (vc *VC) evalDec(fr *Frame, lc *loopCtx, ce candExpr, st *State) (term string, err error) {
	n := len(vc.items)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				vc.items = vc.items[:n]
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	if ce.raw != nil {
		return ce.raw(st, fr)
	}
	c2 := ce
	sc := map[string]*Val{}
	for k, v := range vc.params {
		sc[k] = v
	}
	for h, v := range c2.holes {
		x := fr.env[v]
		if it, ok := v.(*ssa.Range); ok {
			x = st.locals[fr.env[it].It.id]
		} else if al, ok := v.(*ssa.Alloc); ok {
			x = st.locals[fr.allocs[al]]
		}
		if x == nil {
			return "", fmt.Errorf("hole")
		}
		sc[h] = x
	}
	var hb *ssa.BasicBlock
	for b, c := range fr.loopCtx {
		if c == lc {
			hb = b
		}
	}
	ev := &evalCtx{vc: vc, st: st, old: vc.old, scope: sc, cur: vc.frameScope(fr, hb, st), pkg: vc.pkgOf(vc.fn, nil), pre: lc.pre}
	return ev.eval(ce.c.E).S, nil
}

func (vc *VC) loopHasNext(fr *Frame, h *ssa.BasicBlock) bool {
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func (vc *VC) decAtHeader(fr *Frame, h *ssa.BasicBlock, lc *loopCtx, st *State) {
	if !vc.checkOn("loopdec") || vc.loopHasNext(fr, h) {
		lc.decE = nil
		return
	}
	var keep []candExpr
	for _, ce := range lc.decE {
		t, err := vc.evalDec(fr, lc, ce, st)
		if err != nil {
			continue
		}
		keep = append(keep, ce)
		lc.decV = append(lc.decV, []string{vc.define("m", "Int", t)})
	}
	lc.decE = keep
	g := len(vc.groups)
	vc.groups = append(vc.groups, lc.name)
	for _, ce := range keep {
		c := &Cand{ID: len(vc.cands), Text: "terminates by " + ce.text, Loop: lc.name, Alive: true, Dec: true, group: g}
		vc.cands = append(vc.cands, c)
		lc.dec = append(lc.dec, c)
	}
}

func (vc *VC) decAtBack(fr *Frame, lc *loopCtx, st *State) {
	for i, ce := range lc.decE {
		t, err := vc.evalDec(fr, lc, ce, st)
		if err != nil {
			t = lc.decV[i][0]
		}
		o := &Obl{Name: vc.name + " | loopdec | " + lc.name + " | " + ce.text, Kind: "loopdec", Guard: st.guard, Goal: lexLess([]string{t}, lc.decV[i]), Cand: lc.dec[i]}
		lc.dec[i].Goals = append(lc.dec[i].Goals, o)
		vc.items = append(vc.items, Item{K: 'o', O: o})
	}
}

var debugCands = false

var substN int

// substExpr substitutes arguments for macro parameters (call by name), renaming bound variables
func substExpr(e *Expr, sub map[string]*Expr) *Expr {
	if e == nil || len(sub) == 0 {
		return e
	}
	if e.Op == "ident" {
		if r, ok := sub[e.Name]; ok {
			return r
		}
		return e
	}
	c := *e
	inner := sub
	if e.Op == "forall" || e.Op == "exists" || e.Op == "let" {
		inner = map[string]*Expr{}
		for k, v := range sub {
			inner[k] = v
		}
		substMu.Lock()
		substN++
		n := substN
		substMu.Unlock()
		ren := func(nm string) string {
			fresh := fmt.Sprintf("%s^%d", strings.SplitN(nm, "^", 2)[0], n)
			inner[nm] = &Expr{Op: "ident", Name: fresh, Src: nm}
			return fresh
		}
		if e.Op == "let" {
			a0 := substExpr(e.Args[0], sub)
			c.Name = ren(e.Name)
			c.Args = []*Expr{a0, substExpr(e.Args[1], inner)}
			return &c
		}
		c.Vars = nil
		for _, v := range e.Vars {
			c.Vars = append(c.Vars, QVar{ren(v.Name), v.Sort})
		}
	}
	c.Args = nil
	for _, a := range e.Args {
		c.Args = append(c.Args, substExpr(a, inner))
	}
	c.Trig = nil
	for _, a := range e.Trig {
		c.Trig = append(c.Trig, substExpr(a, inner))
	}
	return &c
}

var substMu sync.Mutex

var builtinArity = map[string]int{"old": 1, "atloop": 1, "len": 1, "cap": 1, "base": 1, "off": 1, "ref": 1, "arr": 1, "fresh": 1, "alive": 1, "root": 1, "has": 2, "ite": 3, "str": 1, "cur": 1, "is": 2, "same": 1}
