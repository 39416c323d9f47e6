package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vc *VC) execInstrs(fr *Frame, b *ssa.BasicBlock, st *State) {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if st.guard == "false" {
			return
		}
		switch x := in.(type) {
		case *ssa.If:
			c := vc.val(fr, st, x.Cond).S
			t, f := st.clone(), st
			t.guard = vc.define("g", "Bool", and(st.guard, c))
			f.guard = vc.define("g", "Bool", and(st.guard, not(c)))
			fr.in[b.Succs[0]] = append(fr.in[b.Succs[0]], edge{b, t})
			if b.Succs[0] == b.Succs[1] {
				panic(unsup("degenerate if"))
			}
			fr.in[b.Succs[1]] = append(fr.in[b.Succs[1]], edge{b, f})
		case *ssa.Jump:
			fr.in[b.Succs[0]] = append(fr.in[b.Succs[0]], edge{b, st})
		case *ssa.Return:
			var vs []*Val
			for _, r := range x.Results {
				vs = append(vs, vc.val(fr, st, r))
			}
			if fr.onReturn != nil {
				fr.onReturn(st, vs)
			}
			fr.rets = append(fr.rets, retState{st, vs})
		case *ssa.Panic:
			if vc.checkOn("panic") {
				vc.oblig(st, "panic", vc.snippet(x.Pos()), "false")
			}
			vc.assume(st.guard, "false")
			return
		default:
			vc.instr(fr, st, in)
		}
	}
}

func (vc *VC) instr(fr *Frame, st *State, in ssa.Instruction) {
	set := func(v ssa.Value, r *Val) {
		if r.T == nil {
			c := *r
			c.T = v.Type()
			r = &c
		}
		fr.env[v] = r
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Alloc:
		set(x, vc.alloc(fr, st, x))
	case *ssa.Store:
		p := vc.val(fr, st, x.Addr)
		vc.nilCheck(fr, st, p, x.Pos())
		v := vc.val(fr, st, x.Val)
		if v.K == kAddr && v.A.K == aField && lastUseOfField(x) {
			v = vc.moveToCell(st, v)
		}
		vc.store(st, p, v, vc.snippet(x.Pos()))
	case *ssa.UnOp:
		vc.unop(fr, st, x, set)
	case *ssa.BinOp:
		set(x, vc.binop(st, x.Op, vc.val(fr, st, x.X), vc.val(fr, st, x.Y), x.Type(), vc.snippet(x.Pos())))
	case *ssa.FieldAddr:
		p := vc.val(fr, st, x.X)
		vc.nilCheck(fr, st, p, x.Pos())
		if p.K == kPoison {
			panic(unsup("%s", p.Msg))
		}
		set(x, vc.fieldAddr(deref(x.X.Type()), p.S, x.Field))
	case *ssa.Field:
		v := vc.val(fr, st, x.X)
		if v.K != kStruct {
			if v.K == kPoison {
				panic(unsup("%s", v.Msg))
			}
			// field of an opaque struct value
			set(x, vc.pureApp(st, "field_"+typeKey(x.X.Type())+"_"+itoa(x.Field), []*Val{v}, x.Type()))
			return
		}
		vc.fieldInv(st, x.X.Type(), x.Field, v.Fs[x.Field])
		set(x, v.Fs[x.Field])
	case *ssa.IndexAddr:
		base := vc.val(fr, st, x.X)
		idx := vc.val(fr, st, x.Index).S
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			vc.check(st, "index", vc.snippet(x.Pos()), and("(<= 0 "+idx+")", fmt.Sprintf("(< %s %s)", idx, base.Sl[2])))
			set(x, vc.elemAddr(u.Elem(), base.Sl[0], add(base.Sl[1], idx)))
		case *types.Pointer:
			at := isArray(u.Elem())
			a := vc.toAddr(base)
			vc.check(st, "index", vc.snippet(x.Pos()), arrIdx(idx, at.Len()))
			set(x, vc.elemAddr(at.Elem(), a.Ref, idx))
		default:
			panic(unsup("indexaddr %s", x.X.Type()))
		}
	case *ssa.Index:
		base := vc.val(fr, st, x.X)
		idx := vc.val(fr, st, x.Index).S
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic:
			vc.check(st, "index", vc.snippet(x.Pos()), and("(<= 0 "+idx+")", fmt.Sprintf("(< %s (slen %s))", idx, base.S)))
			set(x, scalar(x.Type(), vc.sat(base.S, idx)))
		case *types.Array:
			vc.check(st, "index", vc.snippet(x.Pos()), arrIdx(idx, u.Len()))
			v := scalar(x.Type(), vc.sel(base.S, idx))
			vc.typeFacts(st, v)
			set(x, v)
		default:
			panic(unsup("index %s", x.X.Type()))
		}
	case *ssa.Lookup:
		set(x, vc.lookup(fr, st, x))
	case *ssa.Slice:
		set(x, vc.slice(fr, st, x))
	case *ssa.MakeSlice:
		l := vc.val(fr, st, x.Len).S
		c := vc.val(fr, st, x.Cap).S
		vc.check(st, "slice", vc.snippet(x.Pos()), fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", l, l, c))
		ref := vc.newRef(st)
		e := x.Type().Underlying().(*types.Slice).Elem()
		if !isStructLike(e) && isArray(e) == nil {
			for _, lf := range leavesOf(e) {
				srt := arrSort(arrSort(lf.sort))
				hn := elemHeapOf(e) + lf.suf
				vc.setHeap(st, hn, srt, app("store", vc.getHeap(st, hn, srt), ref, zeroTerm(arrSort(lf.sort))), ref)
			}
		}
		set(x, &Val{K: kSlice, T: x.Type(), Sl: [4]string{ref, "0", l, c}})
		vc.typeFacts(st, fr.env[x])
	case *ssa.MakeMap:
		ref := vc.newRef(st)
		vc.mapInit(st, x.Type().Underlying().(*types.Map), ref)
		set(x, scalar(x.Type(), ref))
	case *ssa.MapUpdate:
		vc.mapUpdate(st, vc.val(fr, st, x.Map), vc.val(fr, st, x.Key), vc.val(fr, st, x.Value), vc.snippet(x.Pos()))
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		c := &Closure{Fn: f}
		for _, b := range x.Bindings {
			c.Bindings = append(c.Bindings, vc.val(fr, st, b))
		}
		nm := vc.fresh("clo", "Int")
		vc.emit('a', not(eq(nm, "0")))
		set(x, &Val{K: kScalar, T: x.Type(), S: nm, Clo: c})
	case *ssa.MakeInterface:
		set(x, vc.makeIface(st, vc.val(fr, st, x.X), x.Type()))
	case *ssa.ChangeInterface:
		v := *vc.val(fr, st, x.X)
		v.T = x.Type()
		set(x, &v)
	case *ssa.ChangeType:
		v := *vc.val(fr, st, x.X)
		if structOf(x.Type()) != nil || structOf(x.X.Type()) != nil {
			panic(unsup("changetype struct"))
		}
		if v.K == kAddr {
			panic(unsup("changetype address"))
		}
		v.T = x.Type()
		// element heaps are keyed by element type: a slice conversion between named types is fine
		set(x, &v)
	case *ssa.Convert:
		set(x, vc.convert(st, vc.val(fr, st, x.X), x.X.Type(), x.Type()))
	case *ssa.Extract:
		t := vc.val(fr, st, x.Tuple)
		if t.K == kPoison {
			panic(unsup("%s", t.Msg))
		}
		set(x, t.Fs[x.Index])
	case *ssa.Range:
		id := vc.newLocal()
		v := vc.val(fr, st, x.X)
		kind := "map"
		if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
			kind = "string"
		}
		vc.setLocal(st, id, mkInt("0"))
		fr.env[x] = &Val{K: kIter, It: &Iter{id, v, kind}}
	case *ssa.Next:
		vc.next(fr, st, x)
	case *ssa.TypeAssert:
		vc.typeAssert(fr, st, x)
	case *ssa.Call:
		r := vc.call(fr, st, &x.Call, x.Type(), vc.snippet(x.Pos()), x)
		set(x, r)
	case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send, *ssa.RunDefers:
		panic(unsup("instruction %T", in))
	default:
		panic(unsup("instruction %T", in))
	}
}

func arrIdx(idx string, n int64) string {
	return fmt.Sprintf("(and (<= 0 %s) (< %s %d))", idx, idx, n)
}

func (vc *VC) nilCheck(fr *Frame, st *State, p *Val, pos token.Pos) {
	if p.K == kScalar {
		vc.check(st, "nil", vc.snippet(pos), not(eq(p.S, "0")))
	} else if p.K == kAddr && p.A.K == aCell {
		vc.check(st, "nil", vc.snippet(pos), not(eq(p.A.Ref, "0")))
	}
}

func (vc *VC) unop(fr *Frame, st *State, x *ssa.UnOp, set func(ssa.Value, *Val)) {
	v := vc.val(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		vc.nilCheck(fr, st, v, x.Pos())
		r := vc.load(st, v)
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			vc.fieldInv(st, deref(fa.X.Type()), fa.Field, r)
		}
		set(x, r)
	case token.NOT:
		set(x, scalar(x.Type(), not(v.S)))
	case token.SUB:
		if v.sort() == "Flt" {
			set(x, scalar(x.Type(), app("fneg", v.S)))
			return
		}
		set(x, scalar(x.Type(), vc.wrap(app("-", v.S), x.Type())))
	case token.XOR:
		bits, signed, _ := intBits(x.Type())
		if signed {
			set(x, scalar(x.Type(), fmt.Sprintf("(- (- %s) 1)", v.S)))
		} else {
			set(x, scalar(x.Type(), fmt.Sprintf("(- (- %s 1) %s)", bigPow(bits), v.S)))
		}
	default:
		panic(unsup("unop %s", x.Op))
	}
}

func (vc *VC) wrap(t string, ty types.Type) string {
	bits, signed, ok := intBits(ty)
	if !ok {
		return t
	}
	if isNum(t) {
		return vc.define("w", "Int", t)
	}
	if signed && bits == 64 {
		return vc.define("w", "Int", t)
	}
	t = vc.define("w", "Int", t)
	p := bigPow(bits)
	if !signed {
		return vc.define("w", "Int", fmt.Sprintf("(ite (and (<= 0 %s) (< %s %s)) %s (mod %s %s))", t, t, p, t, t, p))
	}
	h := bigPow(bits - 1)
	return vc.define("w", "Int", fmt.Sprintf("(ite (and (<= (- %s) %s) (< %s %s)) %s (- (mod (+ %s %s) %s) %s))", h, t, t, h, t, t, h, p, h))
}

func maskBits(s string) int {
	for i := 1; i <= 63; i++ {
		if bigPow(i) == addOne(s) {
			return i
		}
	}
	return 0
}
func addOne(s string) string {
	if !isNum(s) || len(s) > 18 {
		return ""
	}
	return fmt.Sprint(mustU(s) + 1)
}
func mustU(s string) uint64 {
	var n uint64
	for _, c := range s {
		n = n*10 + uint64(c-'0')
	}
	return n
}

func (vc *VC) binop(st *State, op token.Token, a, b *Val, t types.Type, snip string) *Val {
	if a.K == kPoison || b.K == kPoison {
		panic(unsup("%s%s", a.Msg, b.Msg))
	}
	switch op {
	case token.EQL, token.NEQ:
		e := vc.equal(a, b)
		if op == token.NEQ {
			e = not(e)
		}
		return scalar(t, vc.define("c", "Bool", e))
	}
	so := a.sort()
	cmp := map[token.Token]string{token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}
	if c, ok := cmp[op]; ok {
		switch so {
		case "Int":
			return scalar(t, vc.define("c", "Bool", app(c, a.S, b.S)))
		case "Flt":
			return scalar(t, app(map[string]string{"<": "flt_lt", "<=": "flt_le", ">": "flt_gt", ">=": "flt_ge"}[c], a.S, b.S))
		case "Str":
			switch c {
			case "<":
				return scalar(t, app("str_lt", a.S, b.S))
			case ">":
				return scalar(t, app("str_lt", b.S, a.S))
			case "<=":
				return scalar(t, not(app("str_lt", b.S, a.S)))
			default:
				return scalar(t, not(app("str_lt", a.S, b.S)))
			}
		}
	}
	if so == "Str" && op == token.ADD {
		la, lb := app("slen", a.S), app("slen", b.S)
		s := vc.newStr(st, add(la, lb), nil)
		vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (sat %s i) (ite (< i %s) (sat %s i) (sat %s (- i %s))))) :pattern ((sat %s i))))", add(la, lb), s, la, a.S, b.S, la, s))
		vc.assume(st.guard, fmt.Sprintf("(= %s (sconcat %s %s))", s, a.S, b.S))
		return scalar(t, s)
	}
	if so == "Flt" {
		fn := map[token.Token]string{token.ADD: "flt_add", token.SUB: "flt_sub", token.MUL: "flt_mul", token.QUO: "flt_div"}[op]
		if fn == "" {
			panic(unsup("float op %s", op))
		}
		return scalar(t, app(fn, a.S, b.S))
	}
	if so == "Bool" {
		switch op {
		case token.AND, token.LAND:
			return scalar(t, and(a.S, b.S))
		case token.OR, token.LOR:
			return scalar(t, or(a.S, b.S))
		}
	}
	switch op {
	case token.ADD:
		return scalar(t, vc.ovf(st, snip, vc.wrap(add(a.S, b.S), t), t))
	case token.SUB:
		return scalar(t, vc.ovf(st, snip, vc.wrap(sub(a.S, b.S), t), t))
	case token.MUL:
		return scalar(t, vc.ovf(st, snip, vc.wrap(app("*", a.S, b.S), t), t))
	case token.QUO:
		vc.check(st, "div", snip, not(eq(b.S, "0")))
		return scalar(t, vc.define("q", "Int", app("tdiv", a.S, b.S)))
	case token.REM:
		vc.check(st, "div", snip, not(eq(b.S, "0")))
		return scalar(t, vc.define("q", "Int", app("tmod", a.S, b.S)))
	case token.SHL:
		if isNum(b.S) && len(b.S) < 3 {
			return scalar(t, vc.wrap(app("*", a.S, bigPow(atoi(b.S))), t))
		}
		return vc.rangeApp(st, "bshl", t, a.S, b.S)
	case token.SHR:
		if isNum(b.S) && len(b.S) < 3 {
			return scalar(t, vc.define("sh", "Int", app("div", a.S, bigPow(atoi(b.S)))))
		}
		return vc.rangeApp(st, "bshr", t, a.S, b.S)
	case token.AND:
		x, y := a.S, b.S
		if k := maskBits(x); k > 0 {
			x, y = y, x
		}
		if k := maskBits(y); k > 0 {
			return scalar(t, vc.define("m", "Int", app("mod", x, bigPow(k))))
		}
		r := vc.rangeApp(st, "band", t, x, y)
		vc.assume(st.guard, fmt.Sprintf("(=> (and (<= 0 %s) (<= 0 %s)) (and (<= 0 %s) (<= %s %s) (<= %s %s)))", x, y, r.S, r.S, x, r.S, y))
		return r
	case token.OR:
		r := vc.rangeApp(st, "bor", t, a.S, b.S)
		for _, k := range []int{4, 6, 8, 12, 16, 24, 32} {
			p := bigPow(k)
			vc.assume(st.guard, fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s) (= (mod %s %s) 0)) (= %s (+ %s %s)))", a.S, a.S, p, b.S, p, r.S, a.S, b.S))
			vc.assume(st.guard, fmt.Sprintf("(=> (and (<= 0 %s) (< %s %s) (= (mod %s %s) 0)) (= %s (+ %s %s)))", b.S, b.S, p, a.S, p, r.S, a.S, b.S))
		}
		return r
	case token.XOR:
		return vc.rangeApp(st, "bxor", t, a.S, b.S)
	case token.AND_NOT:
		return vc.rangeApp(st, "bandnot", t, a.S, b.S)
	}
	panic(unsup("binop %s", op))
}

func (vc *VC) ovf(st *State, snip, r string, t types.Type) string {
	bits, signed, _ := intBits(t)
	if signed && bits == 64 && vc.checkOn("overflow") && !isNum(r) {
		vc.check(st, "overflow", snip, fmt.Sprintf("(and (<= (- 9223372036854775808) %s) (<= %s 9223372036854775807))", r, r))
	}
	return r
}

func (vc *VC) rangeApp(st *State, f string, t types.Type, a ...string) *Val {
	v := scalar(t, vc.define(f, "Int", app(f, a...)))
	if lo, hi, ok := intRange(t); ok {
		vc.assume("true", fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, v.S, v.S, hi))
	}
	return v
}

func (vc *VC) equal(a, b *Val) string {
	switch {
	case a.K == kAddr && b.K == kAddr:
		if sameVal(a, b) {
			return "true"
		}
		if (a.A.K == aCell || a.A.K == aArr) && a.A.K == b.A.K {
			return eq(a.A.Ref, b.A.Ref)
		}
		panic(unsup("address comparison"))
	case a.K == kAddr:
		if b.S == "0" {
			if a.A.K == aCell || a.A.K == aArr {
				return eq(a.A.Ref, "0")
			}
			return "false"
		}
		return eq(a.A.Ref, b.S)
	case b.K == kAddr:
		return vc.equal(b, a)
	case a.K == kSlice && b.K == kSlice:
		if b.Sl[0] == "0" {
			return eq(a.Sl[0], "0")
		}
		if a.Sl[0] == "0" {
			return eq(b.Sl[0], "0")
		}
		return and(eq(a.Sl[0], b.Sl[0]), eq(a.Sl[1], b.Sl[1]), eq(a.Sl[2], b.Sl[2]))
	case a.K == kStruct && b.K == kStruct:
		var xs []string
		for i := range a.Fs {
			xs = append(xs, vc.equal(a.Fs[i], b.Fs[i]))
		}
		return and(xs...)
	}
	if a.sort() == "Str" {
		return vc.strEq(a.S, b.S)
	}
	return eq(a.S, b.S)
}

// ---------- maps ----------

func mapKeySort(m *types.Map) string {
	ls := flatLeaves(m.Key())
	if len(ls) != 1 {
		panic(unsup("map with composite key %s", m.Key()))
	}
	return ls[0].sort
}

func mapName(m *types.Map) string { return typeKey(m.Key()) + "_" + typeKey(m.Elem()) }

func (vc *VC) mapInit(st *State, m *types.Map, ref string) {
	ks := mapKeySort(m)
	hs := "(Array Int (Array " + ks + " Bool))"
	hn := "MH_" + mapName(m)
	vc.setHeap(st, hn, hs, app("store", vc.getHeap(st, hn, hs), ref, "((as const (Array "+ks+" Bool)) false)"), ref)
	ln := "ML_" + mapName(m)
	vc.setHeap(st, ln, "(Array Int Int)", app("store", vc.getHeap(st, ln, "(Array Int Int)"), ref, "0"), ref)
}

func (vc *VC) mapHas(st *State, m *types.Map, ref, key string) string {
	hs := "(Array Int (Array " + mapKeySort(m) + " Bool))"
	return vc.sel(vc.sel(vc.getHeap(st, "MH_"+mapName(m), hs), ref), key)
}

func (vc *VC) mapGet(st *State, m *types.Map, ref, key string) *Val {
	ks := mapKeySort(m)
	var ts []string
	for _, l := range flatLeaves(m.Elem()) {
		hs := "(Array Int (Array " + ks + " " + l.sort + "))"
		ts = append(ts, vc.sel(vc.sel(vc.getHeap(st, "MV_"+mapName(m)+l.suf, hs), ref), key))
	}
	v, _ := unflatten(m.Elem(), ts)
	return v
}

func (vc *VC) mapUpdate(st *State, mv, k, v *Val, snip string) {
	m := mv.T.Underlying().(*types.Map)
	vc.check(st, "nilmap", snip, not(eq(mv.S, "0")))
	vc.escape(v)
	ks := mapKeySort(m)
	key := flatten(k)[0]
	ref := mv.S
	hs := "(Array Int (Array " + ks + " Bool))"
	hn := "MH_" + mapName(m)
	h := vc.getHeap(st, hn, hs)
	vc.frameCheck(st, hn, ref, snip)
	had := vc.sel(vc.sel(h, ref), key)
	ln := "ML_" + mapName(m)
	lh := vc.getHeap(st, ln, "(Array Int Int)")
	vc.setHeap(st, ln, "(Array Int Int)", app("store", lh, ref, add(vc.sel(lh, ref), ite(had, "0", "1"))), ref)
	vc.setHeap(st, hn, hs, app("store", h, ref, app("store", vc.sel(h, ref), key, "true")), ref)
	ts := flatten(v)
	for i, l := range flatLeaves(m.Elem()) {
		vs := "(Array Int (Array " + ks + " " + l.sort + "))"
		vn := "MV_" + mapName(m) + l.suf
		vh := vc.getHeap(st, vn, vs)
		vc.setHeap(st, vn, vs, app("store", vh, ref, app("store", vc.sel(vh, ref), key, ts[i])), ref)
	}
}

func (vc *VC) lookup(fr *Frame, st *State, x *ssa.Lookup) *Val {
	mv := vc.val(fr, st, x.X)
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		idx := vc.val(fr, st, x.Index).S
		vc.check(st, "index", vc.snippet(x.Pos()), fmt.Sprintf("(and (<= 0 %s) (< %s (slen %s)))", idx, idx, mv.S))
		return scalar(x.Type(), vc.sat(mv.S, idx))
	}
	m := x.X.Type().Underlying().(*types.Map)
	key := flatten(vc.val(fr, st, x.Index))[0]
	has := vc.define("has", "Bool", and(not(eq(mv.S, "0")), vc.mapHas(st, m, mv.S, key)))
	got := vc.mapGet(st, m, mv.S, key)
	z := zeroVal(m.Elem())
	r := vc.mergeVals([]string{has, not(has)}, []*Val{got, z}, "mv")
	vc.typeFacts(st, r)
	if x.CommaOk {
		return &Val{K: kTuple, T: x.Type(), Fs: []*Val{r, mkBool(has)}}
	}
	return r
}

func (vc *VC) mapLen(st *State, m *types.Map, ref string) string {
	l := vc.sel(vc.getHeap(st, "ML_"+mapName(m), "(Array Int Int)"), ref)
	vc.assume("true", "(<= 0 "+l+")")
	return ite(eq(ref, "0"), "0", l)
}

func (vc *VC) next(fr *Frame, st *State, x *ssa.Next) {
	it := vc.val(fr, st, x.Iter).It
	tt := x.Type().(*types.Tuple)
	if it.kind == "string" {
		pos := st.locals[it.id].S
		ok := vc.define("ok", "Bool", fmt.Sprintf("(< %s (slen %s))", pos, it.x.S))
		r := vc.fresh("rune", "Int")
		w := vc.fresh("w", "Int")
		by := vc.sat(it.x.S, pos)
		vc.assume(and(st.guard, ok), fmt.Sprintf("(and (<= 1 %s) (<= %s 4) (<= (+ %s %s) (slen %s)) (= (< %s 128) (< %s 128)) (=> (< %s 128) (and (= %s %s) (= %s 1))) (<= 0 %s) (<= %s 1114111) (=> (>= %s 128) (>= %s 128)) (= %s (runeAt %s %s)) (= %s (runeW %s %s)))", w, w, pos, w, it.x.S, by, r, by, r, by, w, r, r, by, r, r, it.x.S, pos, w, it.x.S, pos))
		np := vc.define("pos", "Int", ite(ok, add(pos, w), pos))
		vc.setLocal(st, it.id, mkInt(np))
		fr.env[x] = &Val{K: kTuple, T: tt, Fs: []*Val{mkBool(ok), mkInt(pos), scalar(types.Typ[types.Int32], r)}}
		return
	}
	m := it.x.T.Underlying().(*types.Map)
	ok := vc.fresh("ok", "Bool")
	// the position of a map iterator counts the keys it has yielded: the first
	// Next yields a key exactly when the map is not empty
	cnt := st.locals[it.id].S
	vc.assume(st.guard, fmt.Sprintf("(and (>= %s 0) (=> (= %s 0) (= %s (> %s 0))))", cnt, cnt, ok, vc.mapLen(st, m, it.x.S)))
	vc.setLocal(st, it.id, mkInt(vc.define("mpos", "Int", ite(ok, add(cnt, "1"), cnt))))
	k := vc.freshVal(st, m.Key(), "mk")
	vc.assume(and(st.guard, ok), and(not(eq(it.x.S, "0")), vc.mapHas(st, m, it.x.S, flatten(k)[0])))
	v := vc.mapGet(st, m, it.x.S, flatten(k)[0])
	vc.typeFacts(st, v)
	fr.env[x] = &Val{K: kTuple, T: tt, Fs: []*Val{mkBool(ok), k, v}}
}

// ---------- slices ----------

func (vc *VC) slice(fr *Frame, st *State, x *ssa.Slice) *Val {
	v := vc.val(fr, st, x.X)
	snip := vc.snippet(x.Pos())
	lo := "0"
	if x.Low != nil {
		lo = vc.val(fr, st, x.Low).S
	}
	if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		hi := app("slen", v.S)
		if x.High != nil {
			hi = vc.val(fr, st, x.High).S
		}
		vc.check(st, "slice", snip, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (slen %s)))", lo, lo, hi, hi, v.S))
		if lo == "0" && x.High == nil {
			return v
		}
		s := vc.newStr(st, sub(hi, lo), func(i string) string { return app("sat", v.S, add(lo, i)) })
		vc.assume(st.guard, fmt.Sprintf("(= %s (ssub %s %s %s))", s, v.S, lo, hi))
		vc.subOf[s] = [3]string{v.S, lo, hi}
		return scalar(x.Type(), s)
	}
	var base, off, ln, cp string
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		base, off, ln, cp = v.Sl[0], v.Sl[1], v.Sl[2], v.Sl[3]
	case *types.Pointer:
		a := vc.toAddr(v)
		n := itoa(int(isArray(u.Elem()).Len()))
		base, off, ln, cp = a.Ref, "0", n, n
	default:
		panic(unsup("slice of %s", x.X.Type()))
	}
	hi := ln
	if x.High != nil {
		hi = vc.val(fr, st, x.High).S
	}
	mx := cp
	if x.Max != nil {
		mx = vc.val(fr, st, x.Max).S
		vc.check(st, "slice", snip, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, mx, mx, cp))
	} else if hi == ln {
		vc.check(st, "slice", snip, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", lo, lo, hi))
	} else {
		vc.check(st, "slice", snip, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, cp))
	}
	r := &Val{K: kSlice, T: x.Type(), Sl: [4]string{base, vc.define("off", "Int", add(off, lo)), vc.define("len", "Int", sub(hi, lo)), vc.define("cap", "Int", sub(mx, lo))}}
	return r
}

func (vc *VC) convert(st *State, v *Val, from, to types.Type) *Val {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok {
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			flo, fhi, _ := intRange(from)
			tlo, thi, _ := intRange(to)
			_ = flo
			_ = tlo
			if fhi == thi && flo == tlo || widening(fb, tb) {
				return scalar(to, v.S)
			}
			if b, s, _ := intBits(to); s && b == 64 {
				// uint64 -> int64
				return scalar(to, vc.define("cv", "Int", fmt.Sprintf("(ite (< %s 9223372036854775808) %s (- %s 18446744073709551616))", v.S, v.S, v.S)))
			}
			return scalar(to, vc.wrap(v.S, to))
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return scalar(to, app("flt_of_int", v.S))
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return vc.rangeApp(st, "flt_to_int", to, v.S)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() {
				return scalar(to, v.S)
			}
			if tb.Kind() == types.Float32 {
				return scalar(to, app("flt_to32", v.S))
			}
			return scalar(to, v.S)
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return scalar(to, v.S)
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			s := vc.fresh("s", "Str")
			vc.assume(st.guard, fmt.Sprintf("(and (= %s (str_of_rune %s)) (<= 1 (slen %s)) (<= (slen %s) 4) (=> (and (<= 0 %s) (< %s 128)) (and (= (slen %s) 1) (= (sat %s 0) %s))))", s, v.S, s, s, v.S, v.S, s, s, v.S))
			return scalar(to, s)
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if e, ok := sl.Elem().Underlying().(*types.Basic); ok && e.Kind() == types.Uint8 {
				ref := vc.newRef(st)
				a := vc.fresh("bytes", arrSort("Int"))
				vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen %s))) (= (select %s i) (sat %s i))) :pattern ((select %s i)) :pattern ((sat %s i))))", v.S, a, v.S, a, v.S))
				vc.emit('a', fmt.Sprintf("(= %s (strarr %s))", a, v.S))
				hn := elemHeapOf(sl.Elem())
				srt := arrSort(arrSort("Int"))
				vc.setHeap(st, hn, srt, app("store", vc.getHeap(st, hn, srt), ref, a), ref)
				n := app("slen", v.S)
				if lit, ok := vc.litOf(v); ok {
					n = itoa(len(lit))
					if vc.litBytes == nil {
						vc.litBytes = map[string]string{}
					}
					vc.litBytes[a] = lit
					for j := 0; j < len(lit) && j < 64; j++ {
						vc.emit('a', fmt.Sprintf("(= (select %s %d) %d)", a, j, lit[j]))
					}
				}
				return &Val{K: kSlice, T: to, Sl: [4]string{ref, "0", n, n}}
			}
			// []rune(s)
			r := vc.freshVal(st, to, "runes")
			vc.assume(st.guard, fmt.Sprintf("(and (<= %s (slen %s)) (= (= %s 0) (= (slen %s) 0)))", r.Sl[2], v.S, r.Sl[2], v.S))
			return r
		}
	}
	if tok && tb.Info()&types.IsString != 0 && v.K == kSlice {
		e := from.Underlying().(*types.Slice).Elem()
		if eb, ok := e.Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
			h := vc.getHeap(st, elemHeapOf(e), arrSort(arrSort("Int")))
			return scalar(to, vc.bytesToStr(st, vc.sel(h, v.Sl[0]), v.Sl[1], v.Sl[2]))
		}
		return vc.freshVal(st, to, "s")
	}
	if tok && tb.Kind() == types.UnsafePointer || fok && fb.Kind() == types.UnsafePointer {
		if v.K == kScalar && tok && fok && (tb.Kind() == types.Uintptr || fb.Kind() == types.Uintptr) {
			return scalar(to, v.S) // the address, as a number
		}
		panic(unsup("unsafe pointer conversion"))
	}
	panic(unsup("convert %s to %s", from, to))
}

func (vc *VC) bytesToStr(st *State, arr, off, ln string) string {
	s := vc.fresh("s", "Str")
	vc.assume(st.guard, fmt.Sprintf("(= (slen %s) %s)", s, ln))
	vc.assume(st.guard, fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (sat %s i) (select %s (+ %s i)))) :pattern ((sat %s i))))", ln, s, arr, off, s))
	vc.assume(st.guard, fmt.Sprintf("(= %s (str_of %s %s %s))", s, arr, off, ln))
	return s
}

func widening(f, t *types.Basic) bool {
	fb, fs, _ := intBits(f)
	tb, ts, _ := intBits(t)
	if fs == ts {
		return fb <= tb
	}
	return !fs && ts && fb < tb
}

// ---------- interfaces ----------

func (vc *VC) typeID(t types.Type) string {
	k := types.TypeString(t, nil)
	if _, ok := vc.types[k]; !ok {
		vc.types[k] = len(vc.types) + 1
	}
	return itoa(vc.types[k])
}

func (vc *VC) makeIface(st *State, v *Val, it types.Type) *Val {
	tk := vc.fresh("iface", "Int")
	var fs []string
	fs = append(fs, not(eq(tk, "0")), eq(app("typeof", tk), vc.typeID(v.T)))
	if v.K != kPoison && !(v.K == kAddr && v.A.K != aCell && v.A.K != aArr) {
		ts := flatten(v)
		for i, l := range flatT(v.T) {
			f := "unbox_" + typeKey(v.T) + l.suf
			vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int) %s)", f, l.sort))
			fs = append(fs, eq(app(f, tk), ts[i]))
		}
	}
	vc.escape(v)
	vc.assume(st.guard, and(fs...))
	return &Val{K: kScalar, T: it, S: tk}
}

func (vc *VC) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert) {
	v := vc.val(fr, st, x.X)
	var ok string
	var res *Val
	if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		f := "impl_" + typeKey(x.AssertedType)
		vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int) Bool)", f))
		ok = vc.define("ok", "Bool", and(not(eq(v.S, "0")), app(f, app("typeof", v.S))))
		res = scalar(x.AssertedType, ite(ok, v.S, "0"))
	} else {
		ok = vc.define("ok", "Bool", and(not(eq(v.S, "0")), eq(app("typeof", v.S), vc.typeID(x.AssertedType))))
		var ts []string
		for _, l := range flatT(x.AssertedType) {
			f := "unbox_" + typeKey(x.AssertedType) + l.suf
			vc.gdeclare(f, fmt.Sprintf("(declare-fun %s (Int) %s)", f, l.sort))
			ts = append(ts, app(f, v.S))
		}
		got, _ := unflatten(x.AssertedType, ts)
		if x.CommaOk {
			got = vc.mergeVals([]string{ok, not(ok)}, []*Val{got, zeroVal(x.AssertedType)}, "ta")
		}
		res = got
		vc.typeFacts(st, res)
	}
	if x.CommaOk {
		fr.env[x] = &Val{K: kTuple, T: x.Type(), Fs: []*Val{res, mkBool(ok)}}
		return
	}
	vc.check(st, "typeassert", vc.snippet(x.Pos()), ok)
	fr.env[x] = res
}

var _ = strings.Join

// lastUseOfField: the stored value is the address of a field of a local struct variable that the function
// only reads, and never again after this store
func lastUseOfField(s *ssa.Store) bool {
	fa, ok := s.Val.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store: // the initial value
			if x.Addr != al || x.Val == al || !x.Block().Dominates(s.Block()) || x.Block() == s.Block() {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
					if x.Field == fa.Field && (!y.Block().Dominates(s.Block()) || y.Block() == s.Block()) {
						return false
					}
				case *ssa.Store:
					if y != s && (x.Field == fa.Field || y.Val == ssa.Value(x)) {
						return false
					}
				default:
					if x.Field == fa.Field {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	// not inside a loop
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		for _, n := range b.Succs {
			if n == s.Block() {
				return true
			}
			if !seen[n] {
				seen[n] = true
				if reach(n) {
					return true
				}
			}
		}
		return false
	}
	return !reach(s.Block())
}

// moveToCell: from here on the field lives in a cell of its own
func (vc *VC) moveToCell(st *State, v *Val) *Val {
	t := v.A.T
	ref := vc.newRef(st)
	p := &Val{K: kAddr, T: v.T, A: &Addr{K: aCell, T: t, Heap: "C_" + typeKey(t), Ref: ref}}
	vc.quietFrame(func() { vc.store(st, p, vc.load(st, v), "address of field") })
	return p
}

// fieldInv assumes the declared invariant of a field of the value read from it
func (vc *VC) fieldInv(st *State, t types.Type, field int, v *Val) {
	if len(vc.sp.FieldInv) == 0 {
		return
	}
	n, ok := t.(*types.Named)
	u, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 || n.Obj().Pkg() == nil {
		return
	}
	m := vc.sp.FieldInv[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+u.Field(field).Name()]
	if m == nil {
		return
	}
	ev := &evalCtx{vc: vc, st: st, old: st, scope: map[string]*Val{m.Params[0]: typed(v, u.Field(field).Type())}, pkg: n.Obj().Pkg()}
	vc.assume(st.guard, ev.boolTerm(m.Body))
}
